// Package pginspect checks the description of databases (C26, C27, C28).
package pginspect

import (
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/pgwire"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

const port = 54333

// connect connects to a server with the given database.
func connect(db *database) (srv *pgwire.Server, conn *pg.Conn, done func()) {
	cleanup := memfs.Setup()
	srv = &pgwire.Server{Attempts: []pgwire.Attempt{{}}, Answer: db.answer}
	stop := pgwire.Start(srv, nil, []string{"db"}, []int{port})
	conn, err := pg.New(&pg.Options{Log: logger.Discard(), Host: "db", Port: port, SSLMode: "disable", Username: "u"})
	sym.Assume(err == nil)
	pgwire.Lock(func() { srv.Steps = 0 })
	return srv, conn, func() {
		conn.Close()
		stop()
		cleanup()
	}
}

func inspect(db *database, o *pg.InspectOptions) *ddl.Database {
	srv, conn, done := connect(db)
	defer done()
	got, err := conn.InspectDatabase(o)
	_ = srv
	sym.Assert(err == nil && got != nil, "the inspection succeeds")
	return got
}

// probe numbers the texts of a database; the one that is chosen is arbitrary,
// the others are distinct words.
type probe struct {
	chosen, next int
	repeat       bool // or all of them are one of two letters
}

func newProbe(max int) *probe { return &probe{chosen: sym.Choose("probe", max)} }

// str is a value that is not null.
func (p *probe) str() pgwire.Value {
	p.next++
	if p.repeat {
		return text(sym.StrNIn("same"+strconv.Itoa(p.next), 1, "xy"))
	}
	if p.next == p.chosen {
		if long := sym.Param("long", 0); long > 0 && sym.Bool("long") {
			n := sym.Choose("text.n", long+1) + 2
			if n > long {
				return text(strings.Repeat("w", []int{64, 1100}[n-long-1]) + sym.StrNIn("text.last", 1, "aZ_"))
			}
			return text(sym.StrNIn("text.long", n, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"))
		}
		if sym.Param("literal", 0) > 0 {
			return text(sym.Literal("text.literal", "internal/pg,internal/ddl", "", sym.Param("literal", 0)) + sym.StrIn("text.more", 1, "a_ (1"))
		}
		return text(sym.Str("text", sym.Param("len", 1)))
	}
	return text("w" + strconv.Itoa(p.next))
}

// null is a value that may be null.
func (p *probe) null() pgwire.Value {
	if p.next+1 == p.chosen && sym.Bool("null") {
		p.next++
		return pgwire.Value{Null: true}
	}
	return p.str()
}

// word is one letter.
func (p *probe) word() pgwire.Value {
	p.next++
	if p.repeat {
		return text(sym.StrNIn("same"+strconv.Itoa(p.next), 1, "xy"))
	}
	if p.next == p.chosen {
		return text(sym.StrNIn("word", 1, "xyz"))
	}
	return text(string(rune('a' + p.next)))
}

// used ends paths for which nothing was chosen.
func (p *probe) used() { sym.Assume(p.chosen <= p.next) }

func same(got string, want pgwire.Value, what string) {
	s := want.Text
	if want.Null {
		s = ""
	}
	sym.Assert(sym.EqStr(got, s), what)
}

func num(name string) pgwire.Value { return number(sym.Int64(name)) }

// Globals describes what does not belong to tables.
//
//verif:harness C27 globals quick:len=1 quick:long=14 thorough:len=2 thorough:long=30
//verif:bound up to two rows in one of the lists of schemas, functions and tables; one text of up to len arbitrary bytes, up to long, 65 or 1101 letters, or null, distinct words elsewhere
//verif:reach schema function table
func Globals() {
	db := &database{searchPath: "a", timezone: "b", hasView: true}
	what := sym.Choose("what", 3)
	p := newProbe(sym.Param("probes", 9))
	var rows []row
	for i := sym.Choose("rows", 3); i > 0; i-- {
		id := strconv.Itoa(i)
		var r row
		switch what {
		case 0:
			r = row{"name": p.null(), "owner": p.null(), "comment": p.null()}
		case 1:
			r = row{"schema": text("s"), "name": p.null(), "owner": text("o" + id), "comment": p.null(),
				"returns": p.str(), "language": text("l" + id), "definition": p.str()}
		case 2:
			r = row{"schema": p.str(), "name": p.str(), "owner": text("o" + id), "comment": p.null()}
		}
		rows = append(rows, r)
	}
	p.used()
	switch what {
	case 0:
		db.schemas = rows
	case 1:
		db.functions = rows
	case 2:
		db.tables = rows
	}
	got := inspect(db, nil)
	sym.Assert(len(got.Parameters.SearchPath) == 1 && got.Parameters.SearchPath[0] == "a" && got.Parameters.Timezone == "b", "the parameters are described")
	sym.Assert(len(got.Schemas) == len(db.schemas), "exactly the schemas are listed")
	sym.Assert(len(got.Functions) == len(db.functions), "exactly the functions are listed")
	sym.Assert(len(got.Tables) == len(db.tables), "exactly the tables are listed")
	sym.Assert(len(got.Sequences)+len(got.Indexes)+len(got.Triggers) == 0, "nothing else is listed")
	for i, x := range got.Schemas {
		same(x.Name, rows[i]["name"], "the schema's name")
		same(x.Owner, rows[i]["owner"], "the schema's owner")
		same(x.Comment, rows[i]["comment"], "the schema's comment")
		sym.Reach("schema")
	}
	for i, x := range got.Functions {
		same(x.Schema, rows[i]["schema"], "the function's schema")
		same(x.Name, rows[i]["name"], "the function's name")
		same(x.Owner, rows[i]["owner"], "the function's owner")
		same(x.Comment, rows[i]["comment"], "the function's comment")
		same(x.Returns, rows[i]["returns"], "the function's result")
		same(x.Language, rows[i]["language"], "the function's language")
		same(x.Definition, rows[i]["definition"], "the function's definition")
		sym.Reach("function")
	}
	for i, x := range got.Tables {
		same(x.Schema, rows[i]["schema"], "the table's schema")
		same(x.Name, rows[i]["name"], "the table's name")
		same(x.Owner, rows[i]["owner"], "the table's owner")
		same(x.Comment, rows[i]["comment"], "the table's comment")
		sym.Assert(len(x.Columns)+len(x.Checks)+len(x.ForeignKeys) == 0, "the table has no details")
		sym.Reach("table")
	}
}

// Parameters describes the parameters.
//
//verif:harness C27 parameters quick:len=3 thorough:len=5
//verif:bound search paths and time zones of up to len bytes of a, comma, blank and quote
//verif:reach done
func Parameters() {
	n := sym.Param("len", 3)
	db := &database{searchPath: sym.StrIn("search_path", n, `a, "`), timezone: sym.StrIn("timezone", n, `a, "`)}
	got := inspect(db, nil)
	sym.Assert(sym.EqStr(strings.Join(got.Parameters.SearchPath, ","), db.searchPath), "the search path is the server's")
	for _, s := range got.Parameters.SearchPath {
		sym.Assert(!strings.Contains(s, ","), "the search path is split at every comma")
	}
	sym.Assert(sym.EqStr(got.Parameters.Timezone, db.timezone), "the time zone is the server's")
	sym.Reach("done")
}

// Sequences describes sequences, of servers with and without a catalog of them.
//
//verif:harness C27 sequences quick:len=1 quick:long=14 thorough:len=2 thorough:long=30
//verif:bound up to two sequences, every 64-bit value, one name of up to len arbitrary bytes or up to long, 65 or 1101 letters, or comment that may be null, old and new servers
//verif:reach view legacy
func Sequences() {
	db := &database{hasView: sym.Bool("view")}
	p := newProbe(5)
	for i := sym.Choose("rows", 3); i > 0; i-- {
		id := strconv.Itoa(i)
		r := row{
			"schema": text("s"), "name": p.str(), "owner": text("o" + id), "comment": p.null(),
			"type": text("t" + id), "start": num("start" + id), "min": num("min" + id), "max": num("max" + id),
			"inc": num("inc" + id), "cache": num("cache" + id), "cycle": flag(sym.Bool("cycle" + id)),
			"ownerschema": text("os" + id), "ownertable": text("ot" + id), "ownercolumn": text("oc" + id),
		}
		n := r["name"].Text
		for j := 0; j < len(n); j++ {
			sym.Assume(n[j] != 0)
		}
		for _, o := range db.sequences {
			sym.Assume(sym.Not(sym.EqStr(o["name"].Text, n)))
		}
		db.sequences = append(db.sequences, r)
	}
	p.used()
	got := inspect(db, nil)
	sym.Assert(len(got.Sequences) == len(db.sequences), "exactly the sequences are listed")
	for i, x := range got.Sequences {
		r := db.sequences[i]
		same(x.Schema, r["schema"], "the sequence's schema")
		same(x.Name, r["name"], "the sequence's name")
		same(x.Owner, r["owner"], "the sequence's owner")
		same(x.Comment, r["comment"], "the sequence's comment")
		if db.hasView {
			same(x.DataType, r["type"], "the sequence's type")
			sym.Reach("view")
		} else {
			same(x.DataType, text("bigint"), "the sequence's type")
			sym.Reach("legacy")
		}
		sym.Assert(x.Start == r["start"].Int, "the sequence's start")
		sym.Assert(x.Minimum == r["min"].Int, "the sequence's minimum")
		sym.Assert(x.Maximum == r["max"].Int, "the sequence's maximum")
		sym.Assert(x.Increment == r["inc"].Int, "the sequence's increment")
		sym.Assert(x.Cache == r["cache"].Int, "the sequence's cache")
		sym.Assert(x.Cycle == r["cycle"].Bool, "whether the sequence cycles")
		sym.Assert(x.OwnedBy != nil, "the sequence's owner column")
		same(x.OwnedBy.Schema, r["ownerschema"], "the sequence's owner column")
		same(x.OwnedBy.Table, r["ownertable"], "the sequence's owner column")
		same(x.OwnedBy.Column, r["ownercolumn"], "the sequence's owner column")
	}
}

// makeTables makes up to n tables, two of which have either the schema or the
// name in common.
func (db *database) makeTables(n int) {
	for i := 0; i < n; i++ {
		name := [2]string{"a", "b"}
		if i == 1 {
			name = [][2]string{{"a", "c"}, {"c", "b"}, {"b", "a"}}[sym.Choose("table", 3)]
		}
		db.details = append(db.details, &details{schema: name[0], table: name[1]})
		db.tables = append(db.tables, row{"schema": text(name[0]), "name": text(name[1]), "owner": text("o"), "comment": text("c")})
	}
}

// differing assumes that the rows have different names.
func differing(list []row) {
	for i, a := range list {
		for _, b := range list[:i] {
			sym.Assume(sym.Not(sym.EqStr(a["name"].Text, b["name"].Text)))
		}
	}
}

// Details describes the details of tables.
//
//verif:harness C27 repeated repeat=1 rows=1 thorough:rows=2
//verif:bound (repeated) names and other texts that are one of two letters each, so that the rows of one or several tables have them in common, as far as PostgreSQL allows it
//verif:harness C27 details quick:len=1 quick:rows=1 quick:probes=9 quick:long=14 thorough:len=2 thorough:long=14 thorough:rows=2 thorough:probes=17
//verif:bound one or two tables that share a schema, a name or neither, with up to rows rows of one kind each; one text of up to len arbitrary bytes, up to long, 65 or 1101 letters, or null, or a letter where PostgreSQL's syntax is parsed, and distinct words elsewhere
//verif:reach columns checks fks params indexes trgs
func Details() {
	db := &database{}
	db.makeTables(sym.Choose("tables", 2) + 1)
	what := sym.Choose("what", 6)
	p := &probe{repeat: true}
	if sym.Param("repeat", 0) == 0 {
		p = newProbe(sym.Param("probes", 9))
	}
	for t, d := range db.details {
		for i := sym.Choose("rows"+strconv.Itoa(t), sym.Param("rows", 1)+1); i > 0; i-- {
			id := strconv.Itoa(t) + "." + strconv.Itoa(i)
			switch what {
			case 0:
				d.columns = append(d.columns, row{"name": p.str(), "type": p.str(),
					"notnull": flag(sym.Bool("notnull" + id)), "default": p.null(), "comment": p.null()})
			case 1:
				d.checks = append(d.checks, row{"name": p.str(), "expr": p.word(),
					"deferrable": flag(sym.Bool("deferrable" + id))})
			case 2:
				d.fks = append(d.fks, row{"name": p.str(), "table": p.word(), "column": p.word(),
					"ref": p.word(), "cascade": flag(sym.Bool("cascade" + id))})
			case 3:
				name := []string{"fillfactor", "parallel_workers", "unknown"}[sym.Choose("param"+id, 3)]
				d.params = append(d.params, row{"name": text(name), "value": text(sym.StrNIn("value"+id, 1, "123"))})
			case 4:
				d.indexes = append(d.indexes, row{"name": p.word(), "column": p.word(),
					"primary": flag(sym.Bool("primary" + id)), "unique": flag(sym.Bool("unique" + id))})
			case 5:
				d.trgs = append(d.trgs, row{"name": p.word(), "function": p.word(),
					"delete": flag(sym.Bool("delete" + id))})
			}
		}
		for _, list := range [][]row{d.columns, d.checks, d.fks, d.indexes, d.trgs} {
			differing(list)
		}
		d.define()
	}
	if len(db.details) > 1 && db.details[0].schema == db.details[1].schema {
		differing(append(append([]row{}, db.details[0].indexes...), db.details[1].indexes...))
	}
	p.used()
	got := inspect(db, nil)
	sym.Assert(len(got.Tables) == len(db.details), "exactly the tables are listed")
	indexes, triggers := 0, 0
	for i, d := range db.details {
		x := got.Tables[i]
		same(x.Schema, text(d.schema), "the table's schema")
		same(x.Name, text(d.table), "the table's name")
		sym.Assert(len(x.Columns) == len(d.columns), "exactly the columns are listed")
		for j, c := range x.Columns {
			same(c.Name, d.columns[j]["name"], "the column's name")
			same(c.Type, d.columns[j]["type"], "the column's type")
			same(c.Default, d.columns[j]["default"], "the column's default")
			same(c.Comment, d.columns[j]["comment"], "the column's comment")
			sym.Assert(c.NotNull == d.columns[j]["notnull"].Bool, "whether the column can be null")
			sym.Reach("columns")
		}
		sym.Assert(len(x.Checks) == len(d.checks), "exactly the checks are listed")
		for j, c := range x.Checks {
			same(c.Name, d.checks[j]["name"], "the check's name")
			same(c.Expression, d.checks[j]["expr"], "the check's expression")
			sym.Assert(c.Deferrable == d.checks[j]["deferrable"].Bool, "whether the check is deferrable")
			sym.Reach("checks")
		}
		sym.Assert(len(x.ForeignKeys) == len(d.fks), "exactly the foreign keys are listed")
		for j, c := range x.ForeignKeys {
			same(c.Name, d.fks[j]["name"], "the foreign key's name")
			same(c.Table, d.fks[j]["table"], "the foreign key's table")
			sym.Assert(len(c.Columns) == 1 && len(c.Referenced) == 1, "the foreign key's columns")
			same(c.Columns[0], d.fks[j]["column"], "the foreign key's column")
			same(c.Referenced[0], d.fks[j]["ref"], "the foreign key's referenced column")
			want := ""
			if d.fks[j]["cascade"].Bool {
				want = "CASCADE"
			}
			sym.Assert(c.OnDelete == want, "the foreign key's action")
			sym.Reach("fks")
		}
		fill, workers := "", ""
		for _, p := range d.params {
			switch p["name"].Text {
			case "fillfactor":
				fill = p["value"].Text
			case "parallel_workers":
				workers = p["value"].Text
			}
			sym.Reach("params")
		}
		parameter(x.StorageParameters, func(p *ddl.TableStorageParameters) *int { return p.Fillfactor }, fill)
		parameter(x.StorageParameters, func(p *ddl.TableStorageParameters) *int { return p.ParallelWorkers }, workers)
		for _, r := range d.indexes {
			sym.Assert(indexes < len(got.Indexes), "exactly the indexes are listed")
			y := got.Indexes[indexes]
			indexes++
			same(y.Schema, text(d.schema), "the index's schema")
			same(y.Table, text(d.table), "the index's table")
			same(y.Name, r["name"], "the index's name")
			sym.Assert(y.Primary == r["primary"].Bool, "whether the index is primary")
			sym.Assert(y.Unique == r["unique"].Bool, "whether the index is unique")
			sym.Assert(len(y.Keys) == 1, "the index's column")
			same(y.Keys[0].Column, r["column"], "the index's column")
			sym.Reach("indexes")
		}
		for _, r := range d.trgs {
			sym.Assert(triggers < len(got.Triggers), "exactly the triggers are listed")
			y := got.Triggers[triggers]
			triggers++
			same(y.Schema, text(d.schema), "the trigger's schema")
			same(y.Table, text(d.table), "the trigger's table")
			same(y.Name, r["name"], "the trigger's name")
			same(y.Function, r["function"], "the trigger's function")
			sym.Assert(y.Delete == r["delete"].Bool && y.Insert, "the trigger's events")
			sym.Reach("trgs")
		}
	}
	sym.Assert(len(got.Indexes) == indexes, "exactly the indexes are listed")
	sym.Assert(len(got.Triggers) == triggers, "exactly the triggers are listed")
}

func parameter(p *ddl.TableStorageParameters, get func(*ddl.TableStorageParameters) *int, want string) {
	if want == "" {
		sym.Assert(p == nil || get(p) == nil, "only the storage parameters that are set are described")
		return
	}
	sym.Assert(p != nil && get(p) != nil, "the storage parameters that are set are described")
	sym.Assert(*get(p) == int(want[0]-'0'), "the storage parameter's value")
}

// Names describes tables with arbitrary names.
//
//verif:harness C27 names quick:len=2 thorough:len=3
//verif:bound two tables, whose different schemas and names are of one to len bytes that are letters in either case, periods or quotes, with up to one column and check each
//verif:reach both
func Names() {
	n := sym.Param("len", 2)
	db := &database{}
	for i := 0; i < 2; i++ {
		id := strconv.Itoa(i)
		d := &details{}
		for _, p := range []*string{&d.schema, &d.table} {
			*p = sym.StrNIn("name"+id+strconv.Itoa(len(d.schema)), sym.Choose("len", n)+1, `aA."`)
		}
		db.details = append(db.details, d)
		db.tables = append(db.tables, row{"schema": text(d.schema), "name": text(d.table), "owner": text("o"), "comment": text("c")})
		if sym.Bool("column" + id) {
			d.columns = append(d.columns, row{"name": text("c" + id), "type": text("t")})
		}
		if sym.Bool("check" + id) {
			d.checks = append(d.checks, row{"name": text("k" + id), "expr": text("x" + id)})
		}
		d.define()
	}
	a, b := db.details[0], db.details[1]
	sym.Assume(sym.Not(sym.And(sym.EqStr(a.schema, b.schema), sym.EqStr(a.table, b.table))))
	got := inspect(db, nil)
	sym.Assert(len(got.Tables) == 2, "exactly the tables are listed")
	for i, d := range db.details {
		x := got.Tables[i]
		same(x.Schema, text(d.schema), "the table's schema")
		same(x.Name, text(d.table), "the table's name")
		sym.Assert(len(x.Columns) == len(d.columns), "exactly the columns are listed")
		for j, c := range x.Columns {
			same(c.Name, d.columns[j]["name"], "the column's name")
		}
		sym.Assert(len(x.Checks) == len(d.checks), "exactly the checks are listed")
		for j, c := range x.Checks {
			same(c.Name, d.checks[j]["name"], "the check's name")
		}
	}
	sym.Reach("both")
}

// define adds the definitions PostgreSQL gives to the rows.
func (d *details) define() {
	for _, r := range d.checks {
		s := "CHECK (" + r["expr"].Text + ")"
		if r["deferrable"].Bool {
			s += " DEFERRABLE"
		}
		r["def"] = text(s)
	}
	for _, r := range d.fks {
		s := "FOREIGN KEY (" + r["column"].Text + ") REFERENCES " + r["table"].Text + "(" + r["ref"].Text + ")"
		if r["cascade"].Bool {
			s += " ON DELETE CASCADE"
		}
		r["def"] = text(s)
	}
	for _, r := range d.params {
		r["param"] = text(r["name"].Text + "=" + r["value"].Text)
	}
	for _, r := range d.indexes {
		s := "CREATE INDEX "
		if r["unique"].Bool {
			s = "CREATE UNIQUE INDEX "
		}
		r["def"] = text(s + r["name"].Text + " ON " + d.table + " USING btree (" + r["column"].Text + ")")
	}
	for _, r := range d.trgs {
		s := "CREATE TRIGGER " + r["name"].Text + " BEFORE INSERT"
		if r["delete"].Bool {
			s += " OR DELETE"
		}
		r["def"] = text(s + " ON " + d.table + " FOR EACH ROW EXECUTE PROCEDURE " + r["function"].Text + "()")
	}
}
