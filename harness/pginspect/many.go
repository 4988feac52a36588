package pginspect

import (
	"strconv"

	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// sizes are how many rows there are.
var sizes = []int{3, 13, 24, 40, 70}

// shuffled is the i-th of n in one of the orders.
func shuffled(order, i, n int) int {
	switch order {
	case 0: // falling
		return n - 1 - i
	case 1: // rotated
		return (i + n/2) % n
	case 2: // two interleaved runs
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	case 3: // many equal names
		return i * 7 % n / 3
	}
	return i
}

// Long inspects what has many rows, with all options.
//
//verif:harness C28 many steps=100000000 sizes=4 thorough:sizes=5
//verif:bound (many) one table of 3, 13, 24, 40 or (thorough) 70 columns, checks, or indexes, or as many tables with an index each, in falling, rotated, interleaved or rising order, or with equal names; all options
//verif:reach columns checks indexes
func Long() {
	db := &database{}
	o := options()
	what := sym.Choose("what", 4)
	n := sizes[sym.Choose("size", sym.Param("sizes", 4))]
	order := sym.Choose("order", 5)
	if what != 3 {
		db.makeTables(1)
	}
	var want, have [][]string
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		w := "c" + strconv.Itoa(100+shuffled(order, i, n))
		switch what {
		case 0:
			d := db.details[0]
			d.columns = append(d.columns, row{"name": text(w), "type": text(id), "notnull": flag(true), "default": text("d"), "comment": text("c")})
			want = append(want, []string{w, id})
		case 1:
			d := db.details[0]
			d.checks = append(d.checks, row{"name": text(id), "expr": text(w), "deferrable": flag(false)})
			want = append(want, []string{w, id})
		case 2:
			d := db.details[0]
			d.indexes = append(d.indexes, row{"name": text(w), "column": text("c" + id), "primary": flag(false), "unique": flag(true)})
			want = append(want, []string{d.schema, d.table, w, "c" + id})
		case 3:
			if order == 3 {
				w += "x" + id // tables have different names
			}
			d := &details{schema: "s", table: w}
			d.indexes = []row{{"name": text("i" + id), "column": text("c" + id), "primary": flag(false), "unique": flag(true)}}
			d.define()
			db.details = append(db.details, d)
			db.tables = append(db.tables, row{"schema": text("s"), "name": text(w), "owner": text("o"), "comment": text("c")})
			want = append(want, []string{"s", w, "i" + id, "c" + id})
		}
	}
	if what != 3 {
		db.details[0].define()
	}
	got := inspect(db, o)
	switch what {
	case 0:
		for _, c := range got.Tables[0].Columns {
			have = append(have, []string{c.Name, c.Type})
		}
		ordered(o.SortColumns, want, have, 1, "columns")
		sym.Reach("columns")
	case 1:
		for _, c := range got.Tables[0].Checks {
			have = append(have, []string{c.Expression, c.Name})
		}
		ordered(o.SortChecks, want, have, 1, "checks")
		sym.Reach("checks")
	default:
		for _, x := range got.Indexes {
			sym.Assert(len(x.Keys) == 1, "the index's column")
			have = append(have, []string{x.Schema, x.Table, x.Name, x.Keys[0].Column})
		}
		ordered(o.SortIndexes, want, have, 3, "indexes")
		sym.Reach("indexes")
	}
}

// Many describes many of one kind.
//
//verif:harness C27 many steps=100000000 sizes=3 thorough:sizes=5
//verif:bound (many) 3, 13, 24, (thorough) 40 or 70 schemas, functions, sequences, tables, or columns, checks, foreign keys, indexes or triggers of each of two tables, one of which, the first, one in the middle or the last, has a text of one arbitrary byte
//verif:reach globals details
func Many() {
	db := &database{searchPath: "a", timezone: "b", hasView: sym.Bool("view")}
	n := sizes[sym.Choose("size", sym.Param("sizes", 3))]
	what := sym.Choose("what", 9)
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	name := func(i int) string {
		s := "n" + strconv.Itoa(i)
		if i == at {
			return s + sym.StrNIn("byte", 1, "aB_$")
		}
		return s
	}
	sch := func(i int) string { return "s" + strconv.Itoa(i/3) }
	var rows []row
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		switch what {
		case 0:
			rows = append(rows, row{"name": text(name(i)), "owner": text("o" + id), "comment": text("c" + id)})
		case 1:
			rows = append(rows, row{"schema": text(sch(i)), "name": text(name(i)), "owner": text("o" + id), "comment": text("c" + id),
				"returns": text("r" + id), "language": text("l" + id), "definition": text("d" + id)})
		case 2:
			rows = append(rows, row{"schema": text(sch(i)), "name": text(name(i)), "owner": text("o" + id), "comment": text("c" + id),
				"type": text("t" + id), "start": number(int64(i)), "min": number(int64(i + 1)), "max": number(int64(i + 2)),
				"inc": number(int64(i + 3)), "cache": number(int64(i + 4)), "cycle": flag(i%2 == 0),
				"ownerschema": text("os" + id), "ownertable": text("ot" + id), "ownercolumn": text("oc" + id)})
		case 3:
			rows = append(rows, row{"schema": text(sch(i)), "name": text(name(i)), "owner": text("o" + id), "comment": text("c" + id)})
		}
	}
	switch what {
	case 0:
		db.schemas = rows
	case 1:
		db.functions = rows
	case 2:
		db.sequences = rows
	case 3:
		db.tables = rows
		for i, r := range rows {
			d := &details{schema: r["schema"].Text, table: r["name"].Text}
			d.columns = []row{{"name": text("k" + strconv.Itoa(i)), "type": text("t"), "notnull": flag(i%2 == 0), "default": text(""), "comment": text("")}}
			db.details = append(db.details, d)
		}
	default:
		db.makeTables(2)
		for t, d := range db.details {
			for i := 0; i < n; i++ {
				id := strconv.Itoa(t) + "_" + strconv.Itoa(i)
				w := "n" + strconv.Itoa(t) + "_" + strconv.Itoa(i)
				if i == at && t == 1 {
					w = name(i)
				}
				switch what {
				case 4:
					d.columns = append(d.columns, row{"name": text(w), "type": text("t" + id), "notnull": flag(i%2 == 0), "default": text("d" + id), "comment": text("c" + id)})
				case 5:
					d.checks = append(d.checks, row{"name": text(w), "expr": text("x" + id), "deferrable": flag(i%2 == 0)})
				case 6:
					d.fks = append(d.fks, row{"name": text(w), "table": text("t" + id), "column": text("c" + id), "ref": text("r" + id), "cascade": flag(i%2 == 0)})
				case 7:
					d.indexes = append(d.indexes, row{"name": text(lower(w)), "column": text("c" + id), "primary": flag(i == 0), "unique": flag(i%2 == 0)})
				case 8:
					d.trgs = append(d.trgs, row{"name": text(lower(w)), "function": text("f" + id), "delete": flag(i%2 == 0)})
				}
			}
			d.define()
		}
	}
	got := inspect(db, nil)
	sym.Assert(len(got.Schemas) == len(db.schemas), "exactly the schemas are listed")
	sym.Assert(len(got.Functions) == len(db.functions), "exactly the functions are listed")
	sym.Assert(len(got.Sequences) == len(db.sequences), "exactly the sequences are listed")
	sym.Assert(len(got.Tables) == len(db.tables), "exactly the tables are listed")
	for i, x := range got.Schemas {
		same(x.Name, rows[i]["name"], "the schema's name")
		same(x.Owner, rows[i]["owner"], "the schema's owner")
		same(x.Comment, rows[i]["comment"], "the schema's comment")
		sym.Reach("globals")
	}
	for i, x := range got.Functions {
		same(x.Schema, rows[i]["schema"], "the function's schema")
		same(x.Name, rows[i]["name"], "the function's name")
		same(x.Owner, rows[i]["owner"], "the function's owner")
		same(x.Definition, rows[i]["definition"], "the function's definition")
	}
	for i, x := range got.Sequences {
		r := rows[i]
		same(x.Schema, r["schema"], "the sequence's schema")
		same(x.Name, r["name"], "the sequence's name")
		sym.Assert(x.Start == r["start"].Int && x.Minimum == r["min"].Int && x.Maximum == r["max"].Int && x.Increment == r["inc"].Int &&
			x.Cache == r["cache"].Int && x.Cycle == r["cycle"].Bool, "the sequence's numbers")
		same(x.OwnedBy.Column, r["ownercolumn"], "the sequence's owner column")
	}
	indexes, triggers := 0, 0
	for i, x := range got.Tables {
		d := db.details[i]
		same(x.Schema, text(d.schema), "the table's schema")
		same(x.Name, text(d.table), "the table's name")
		sym.Assert(len(x.Columns) == len(d.columns), "exactly the columns are listed")
		for j, c := range x.Columns {
			same(c.Name, d.columns[j]["name"], "the column's name")
			same(c.Type, d.columns[j]["type"], "the column's type")
			same(c.Default, d.columns[j]["default"], "the column's default")
			same(c.Comment, d.columns[j]["comment"], "the column's comment")
			sym.Assert(c.NotNull == d.columns[j]["notnull"].Bool, "whether the column can be null")
		}
		sym.Assert(len(x.Checks) == len(d.checks), "exactly the checks are listed")
		for j, c := range x.Checks {
			same(c.Name, d.checks[j]["name"], "the check's name")
			same(c.Expression, d.checks[j]["expr"], "the check's expression")
			sym.Assert(c.Deferrable == d.checks[j]["deferrable"].Bool, "whether the check is deferrable")
		}
		sym.Assert(len(x.ForeignKeys) == len(d.fks), "exactly the foreign keys are listed")
		for j, c := range x.ForeignKeys {
			same(c.Name, d.fks[j]["name"], "the foreign key's name")
			same(c.Table, d.fks[j]["table"], "the foreign key's table")
			sym.Assert((c.OnDelete == "CASCADE") == d.fks[j]["cascade"].Bool, "the foreign key's action")
		}
		for _, r := range d.indexes {
			sym.Assert(indexes < len(got.Indexes), "exactly the indexes are listed")
			y := got.Indexes[indexes]
			indexes++
			same(y.Schema, text(d.schema), "the index's schema")
			same(y.Table, text(d.table), "the index's table")
			same(y.Name, r["name"], "the index's name")
			sym.Assert(y.Primary == r["primary"].Bool && y.Unique == r["unique"].Bool, "whether the index is primary and unique")
		}
		for _, r := range d.trgs {
			sym.Assert(triggers < len(got.Triggers), "exactly the triggers are listed")
			y := got.Triggers[triggers]
			triggers++
			same(y.Schema, text(d.schema), "the trigger's schema")
			same(y.Table, text(d.table), "the trigger's table")
			same(y.Name, r["name"], "the trigger's name")
			same(y.Function, r["function"], "the trigger's function")
		}
	}
	sym.Assert(len(got.Indexes) == indexes, "exactly the indexes are listed")
	sym.Assert(len(got.Triggers) == triggers, "exactly the triggers are listed")
	if what > 3 {
		sym.Reach("details")
	}
}

// lower leaves out what the definitions' syntax would fold or refuse.
func lower(s string) string {
	for i := range s {
		if s[i] == 'B' || s[i] == '$' {
			return s[:i] + "b"
		}
	}
	return s
}
