package pginspect

import (
	"strconv"

	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// options are all combinations of the sort options.
func options() *pg.InspectOptions {
	return &pg.InspectOptions{
		SortChecks:  sym.Bool("sort_checks"),
		SortColumns: sym.Bool("sort_columns"),
		SortIndexes: sym.Bool("sort_indexes"),
	}
}

// ordered checks that got has the elements of want, sorted or in the same order.  An element is a list of keys,
// and data that belongs to it.
func ordered(sorted bool, want, got [][]string, keys int, what string) {
	sym.Assert(len(got) == len(want), "every one of the "+what+" is listed")
	if !sorted {
		for i := range want {
			sym.Assert(equal(got[i], want[i]), "the order of the "+what+" is kept")
		}
		return
	}
	used := make([]bool, len(want))
	for i := range got {
		found := false
		for j := range want {
			if !used[j] && !found && equal(got[i], want[j]) {
				used[j], found = true, true
			}
		}
		sym.Assert(found, "sorting only reorders the "+what)
		if i > 0 {
			sym.Assert(!less(got[i][:keys], got[i-1][:keys]), "the "+what+" are sorted")
		}
	}
}

func equal(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func less(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Sorting inspects with all options.
//
//verif:harness C28 sorting quick:rows=3 quick:len=1 thorough:rows=4 thorough:len=2
//verif:harness C28 numbered rows=2 digits=2 thorough:digits=3
//verif:bound (numbered) names that end with numbers of up to digits digits
//verif:bound all options; rows columns, rows checks, or two tables of one or two indexes, with names and expressions of up to len of three letters; tables that share a schema, a name or neither
//verif:reach columns checks indexes
func Sorting() {
	db := &database{}
	o := options()
	n := sym.Param("rows", 3)
	// digits are names that end with numbers
	digits := sym.Param("digits", 0)
	numbered := func(i int) string {
		s := "c"
		if digits > 2 && sym.Bool("letter"+strconv.Itoa(i)) {
			s = "c_b"
		}
		return s + sym.StrIn("number"+strconv.Itoa(i), digits, "19")
	}
	word := func(i int) string {
		if digits > 0 {
			return numbered(i)
		}
		return sym.StrIn("word"+strconv.Itoa(i), sym.Param("len", 1), "aBc")
	}
	letters := func(i int) string {
		if digits > 0 {
			return numbered(i)
		}
		s := sym.StrNIn("first"+strconv.Itoa(i), 1, "aBc")
		if sym.Param("len", 1) > 1 && sym.Bool("second"+strconv.Itoa(i)) {
			s += "b"
		}
		return s
	}
	switch what := sym.Choose("what", 3); what {
	case 0:
		db.makeTables(1)
		var want, have [][]string
		for i := 0; i < n; i++ {
			id := strconv.Itoa(i)
			w := word(i)
			db.details[0].columns = append(db.details[0].columns, row{"name": text(w), "type": text(id), "notnull": flag(true),
				"default": text("d"), "comment": text("c")})
			want = append(want, []string{w, id})
		}
		got := inspect(db, o)
		sym.Assert(len(got.Tables) == 1, "exactly the tables are listed")
		for _, c := range got.Tables[0].Columns {
			have = append(have, []string{c.Name, c.Type})
		}
		ordered(o.SortColumns, want, have, 1, "columns")
		sym.Reach("columns")
	case 1:
		db.makeTables(1)
		var want, have [][]string
		for i := 0; i < n; i++ {
			id := strconv.Itoa(i)
			w := letters(i)
			db.details[0].checks = append(db.details[0].checks, row{"name": text(id), "expr": text(w), "deferrable": flag(false)})
			want = append(want, []string{w, id})
		}
		db.details[0].define()
		got := inspect(db, o)
		sym.Assert(len(got.Tables) == 1, "exactly the tables are listed")
		for _, c := range got.Tables[0].Checks {
			have = append(have, []string{c.Expression, c.Name})
		}
		ordered(o.SortChecks, want, have, 1, "checks")
		sym.Reach("checks")
	case 2:
		db.makeTables(2)
		if sym.Bool("swap") {
			db.details[0], db.details[1] = db.details[1], db.details[0]
			db.tables[0], db.tables[1] = db.tables[1], db.tables[0]
		}
		var want, have [][]string
		for i, d := range db.details {
			for j := sym.Choose("indexes"+strconv.Itoa(i), 2); j >= 0; j-- {
				id := strconv.Itoa(i) + strconv.Itoa(j)
				w := letters(i*2 + j)
				d.indexes = append(d.indexes, row{"name": text(w), "column": text("c" + id), "primary": flag(false), "unique": flag(true)})
				want = append(want, []string{d.schema, d.table, w, "c" + id})
			}
			d.define()
		}
		got := inspect(db, o)
		for _, x := range got.Indexes {
			sym.Assert(len(x.Keys) == 1, "the index's column")
			have = append(have, []string{x.Schema, x.Table, x.Name, x.Keys[0].Column})
		}
		ordered(o.SortIndexes, want, have, 3, "indexes")
		sym.Reach("indexes")
	}
}
