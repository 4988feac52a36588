// Package ddlsql checks the generated SQL (C20, C21, C35) and storage parameters (C22).
package ddlsql

import (
	"strconv"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// anyName is any name PostgreSQL can have: it cannot have NUL characters.
func anyName(label string, n int) string {
	s := sym.Str(label, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 0)
	}
	return s
}

// Names generates statements with arbitrary names.
//
//verif:harness C20 names quick:len=2 quick:columns=2 thorough:len=3 thorough:columns=2
//verif:bound every NUL-free byte string of up to len bytes as table, column, constraint and trigger name; up to columns columns
//verif:reach table key trigger
func Names() {
	n := sym.Param("len", 2)
	k := sym.Param("columns", 2)
	name := func(label string) string { return anyName(label, n) }
	columns := func() []string {
		var names []string
		for i := sym.Choose("columns", k) + 1; i > 0; i-- {
			names = append(names, name("column"+strconv.Itoa(i)))
		}
		return names
	}
	w := &want{}
	switch sym.Choose("what", 3) {
	case 0:
		t := &ddl.Table{Name: name("table")}
		w.sql("CREATE TABLE").name(t.Name).sql("(")
		for i, c := range columns() {
			t.Columns = append(t.Columns, &ddl.Column{Name: c, Type: "int"})
			if i > 0 {
				w.sql(",")
			}
			w.name(c).sql("int")
		}
		w.sql(");")
		sql, err := t.ToSQL()
		w.check(sql, err)
		sym.Reach("table")
	case 1:
		idx := &ddl.Index{Table: name("table"), Name: name("name"), Primary: true}
		w.sql("ALTER TABLE").name(idx.Table).sql("ADD")
		if idx.Name != "" {
			w.sql("CONSTRAINT").name(idx.Name)
		}
		w.sql("PRIMARY KEY(")
		for i, c := range columns() {
			idx.Keys = append(idx.Keys, &ddl.IndexKey{Column: c})
			if i > 0 {
				w.sql(",")
			}
			w.name(c)
		}
		w.sql(");")
		sql, err := idx.ToSQL()
		w.check(sql, err)
		sym.Reach("key")
	case 2:
		t := &ddl.Trigger{Table: name("table"), Name: name("name"), Function: "f", When: "BEFORE", Update: true}
		w.sql("CREATE TRIGGER").name(t.Name).sql("BEFORE UPDATE")
		if sym.Bool("of") {
			w.sql("OF")
			t.Columns = columns()
			for i, c := range t.Columns {
				if i > 0 {
					w.sql(",")
				}
				w.name(c)
			}
		}
		w.sql("ON").name(t.Table).sql("EXECUTE PROCEDURE f();")
		sql, err := t.ToSQL()
		w.check(sql, err)
		sym.Reach("trigger")
	}
}

// LongNames quotes longer names.
//
//verif:harness C20 long quick:len=8 thorough:len=12
//verif:bound names of up to len bytes, each a quote or any one other byte
//verif:reach done
func LongNames() {
	max := sym.Param("len", 8)
	x := anyName("other", 1)
	s := ""
	for i := sym.Choose("len", max+1); i > 0; i-- {
		if sym.Bool("quote" + strconv.Itoa(i)) {
			s += `"`
		} else {
			s += x
		}
	}
	t := &ddl.Table{Name: s, Columns: []*ddl.Column{{Name: "c", Type: "int"}}}
	sql, err := t.ToSQL()
	(&want{}).sql("CREATE TABLE").name(s).sql("(").name("c").sql("int);").check(sql, err)
	sym.Reach("done")
}

// VeryLongNames quotes names around the greatest length that PostgreSQL keeps.
//
//verif:harness C20 verylong quick:from=60 quick:to=66 thorough:from=20 thorough:to=130
//verif:bound names of from to to letters, with one arbitrary byte after any of their letters
//verif:reach done
func VeryLongNames() {
	from := sym.Param("from", 60)
	b := make([]byte, from+sym.Choose("len", sym.Param("to", 66)-from+1))
	for i := range b {
		b[i] = 'a'
	}
	i := sym.Choose("at", 3) * (len(b) - 1) / 2
	s := string(b[:i]) + anyName("other", 1) + string(b[i:])
	t := &ddl.Table{Name: s, Columns: []*ddl.Column{{Name: s, Type: "int"}}}
	sql, err := t.ToSQL()
	(&want{}).sql("CREATE TABLE").name(s).sql("(").name(s).sql("int);").check(sql, err)
	sym.Reach("done")
}

// Identifiers quotes qualified names.
//
//verif:harness C20 identifier quick:len=3 quick:parts=3 thorough:len=3 thorough:parts=3
//verif:bound qualified names of one to parts parts, each any NUL-free byte string of up to len bytes
//verif:reach done
func Identifiers() {
	n := sym.Param("len", 2)
	var parts, copied []string
	w := &want{}
	for i := sym.Choose("parts", sym.Param("parts", 3)) + 1; i > 0; i-- {
		s := anyName("part"+strconv.Itoa(i), n)
		if len(parts) > 0 {
			w.sql(".")
		}
		w.name(s)
		parts, copied = append(parts, s), append(copied, s)
	}
	w.check(pg.Identifier(parts...), nil)
	for i := range parts {
		sym.Assert(sym.EqStr(parts[i], copied[i]), "quoting leaves the parts unchanged")
	}
	sym.Reach("done")
}

// fragment is an SQL fragment: a short word or one of some longer fragments.
func fragment(name string, empty bool) string {
	var list = []string{"character varying(50)", "numeric(10, 2)", "'a'',\n b'::text", `f("x", 'NOT NULL') > 0`, "now() DEFAULT)", ""}
	k := len(list)
	if !empty {
		k--
	}
	i := sym.Choose(name, k+1)
	if i == 0 {
		return sym.StrNIn(name+".word", 2, "aZ0_")
	}
	return list[i-1]
}

// simple is like fragment, with fewer choices.
func simple(name string, empty bool) string {
	k := 1
	if empty {
		k = 2
	}
	if sym.Choose(name, k) == 1 {
		return ""
	}
	return sym.StrNIn(name+".word", 1, "aZ0_")
}

func table(columns, checks int, frag func(string, bool) string) {
	t := &ddl.Table{Schema: "s", Name: "t", Owner: "o", Comment: "c"}
	w := (&want{}).sql("CREATE TABLE").name("t").sql("(")
	sep := ""
	for i := 0; i < columns; i++ {
		id := strconv.Itoa(i)
		c := &ddl.Column{
			Name:    sym.StrNIn("name"+id, 1, "ab"),
			Type:    frag("type"+id, false),
			NotNull: sym.Bool("notnull" + id),
			Default: frag("default"+id, true),
			Comment: "x",
		}
		t.Columns = append(t.Columns, c)
		w.sql(sep).name(c.Name).sql(c.Type)
		if c.NotNull {
			w.sql("NOT NULL")
		}
		if c.Default != "" {
			w.sql("DEFAULT").sql(c.Default)
		}
		sep = ","
	}
	for i := 0; i < checks; i++ {
		c := &ddl.Check{Expression: frag("check"+strconv.Itoa(i), false)}
		t.Checks = append(t.Checks, c)
		w.sql(sep).sql("CHECK(").sql(c.Expression).sql(")")
		sep = ","
	}
	w.sql(");")
	sql, err := t.ToSQL()
	w.check(sql, err)
	again, err := t.ToSQL()
	w.check(again, err)
	sym.Reach("done")
}

// Tables generates whole tables.
//
//verif:harness C21 table quick:columns=2 quick:checks=2 thorough:columns=3 thorough:checks=3
//verif:bound tables of up to columns columns and checks check constraints, with words as types, defaults and expressions
//verif:reach done
func Tables() {
	table(sym.Choose("columns", sym.Param("columns", 2)+1), sym.Choose("checks", sym.Param("checks", 2)+1), simple)
}

// Column generates tables with one column and one check.
//
//verif:harness C21 column
//verif:bound tables of at most one column and one check, with several kinds of SQL fragments
//verif:reach done
func Column() {
	table(sym.Choose("columns", 2), sym.Choose("checks", 2), fragment)
}

// Words generates tables with long words.
//
//verif:harness C21 words quick:len=16 thorough:len=30
//verif:bound a table whose type, default or check is made of a word of up to len letters, alone, after a comparison, or called with such a word, a text or nothing; the others are as simple
//verif:reach done
func Words() {
	n := sym.Param("len", 16)
	long := sym.Choose("long", 3)
	i := -1
	table(1, 1, func(name string, empty bool) string {
		if i++; i != long {
			return simple(name, empty)
		}
		s := sym.StrN("word", sym.Choose("len", n)+1)
		for j := 0; j < len(s); j++ {
			sym.Assume(sym.Or(sym.Or(sym.And(s[j] >= 'a', s[j] <= 'z'), sym.And(s[j] >= 'A', s[j] <= 'Z')), s[j] == '_'))
		}
		return []string{s, s + "()", s + "(a)", s + "('a')", s + "('a'::b)", "a > " + s, "(a " + s + ")", s + "[]", s + " varying(3)"}[sym.Choose("shape", 9)]
	})
}

// Keys generates primary keys.
//
//verif:harness C21 key quick:columns=4 thorough:columns=6
//verif:bound primary keys of one to columns columns with a name or not, other index attributes arbitrary
//verif:reach done
func Keys() {
	idx := &ddl.Index{
		Schema: "s", Table: "t", Name: sym.StrIn("name", 1, "ab"), Primary: true,
		Unique: sym.Bool("unique"), Using: simple("using", true), Where: "",
	}
	w := (&want{}).sql("ALTER TABLE").name("t").sql("ADD")
	if idx.Name != "" {
		w.sql("CONSTRAINT").name(idx.Name)
	}
	w.sql("PRIMARY KEY(")
	for i := sym.Choose("columns", sym.Param("columns", 4)); i >= 0; i-- {
		k := &ddl.IndexKey{Column: sym.StrNIn("column"+strconv.Itoa(i), 1, "abc")}
		if len(idx.Keys) > 0 {
			w.sql(",")
		}
		w.name(k.Column)
		idx.Keys = append(idx.Keys, k)
	}
	w.sql(");")
	sql, err := idx.ToSQL()
	w.check(sql, err)
	sym.Reach("done")
}

// Functions generates functions.
//
//verif:harness C21 function quick:len=4 thorough:len=6
//verif:bound bodies of up to len arbitrary bytes and bodies of up to twice as many dollars, letters and quotes; languages of up to 2 arbitrary bytes
//verif:reach done
func Functions() {
	n := sym.Param("len", 4)
	f := &ddl.Function{
		Schema: "s", Owner: "o", Comment: "c",
		Name:     sym.StrNIn("name", 2, "aZ_"),
		Returns:  sym.StrNIn("returns", 2, "aZ_"),
		Language: "sql",
	}
	switch sym.Choose("what", 3) {
	case 0:
		f.Definition = sym.Str("body", n)
	case 1:
		for i := sym.Choose("len", 2*n+1); i > 0; i-- {
			f.Definition += []string{"$", "q", "x"}[sym.Choose("char"+strconv.Itoa(i), 3)]
		}
	case 2:
		f.Definition = "SELECT 1;\n"
		f.Language = sym.Str("language", 2)
	}
	w := (&want{}).sql("CREATE OR REPLACE FUNCTION").sql(f.Name).sql("() RETURNS").sql(f.Returns)
	w.sql("AS").str("\n" + f.Definition).sql("LANGUAGE").str(f.Language).sql(";")
	sql, err := f.ToSQL()
	w.check(sql, err)
	sym.Reach("done")
}

// Triggers generates triggers.
//
//verif:harness C35 trigger quick:columns=2 thorough:columns=3
//verif:bound every combination of events, timing and attributes, with up to columns columns
//verif:reach done
func Triggers() {
	t := &ddl.Trigger{
		Schema: "s", Table: "t", Name: sym.StrNIn("name", 1, "ab"),
		Function:   sym.StrNIn("function", 2, "aZ_"),
		When:       []string{"BEFORE", "after", "INSTEAD OF"}[sym.Choose("when", 3)],
		Constraint: sym.Bool("constraint"), Deferrable: sym.Bool("deferrable"),
		InitiallyDeferred: sym.Bool("deferred"), ForEachRow: sym.Bool("row"),
		Delete: sym.Bool("delete"), Insert: sym.Bool("insert"),
		Truncate: sym.Bool("truncate"), Update: sym.Bool("update"),
	}
	sym.Assume(t.Delete || t.Insert || t.Truncate || t.Update)
	for i := sym.Choose("columns", sym.Param("columns", 2)+1); i > 0; i-- {
		t.Columns = append(t.Columns, sym.StrNIn("column"+strconv.Itoa(i), 1, "ab"))
	}
	sql, err := t.ToSQL()
	sym.Observe("sql", sql)
	sym.Assert(err == nil, "the statement is generated")
	toks, ok := lex(sql)
	sym.Assert(ok, "every quoted token is closed")
	checkTrigger(t, &reader{toks: toks})
	sym.Reach("done")
}

// reader reads the tokens of a statement; keywords are read in any letter case.
type reader struct {
	toks []token
	i    int
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

// is reads the given tokens if they come next.
func (r *reader) is(text string) bool {
	toks, _ := lex(text)
	if r.i+len(toks) > len(r.toks) {
		return false
	}
	for j, t := range toks {
		u := r.toks[r.i+j]
		if u.kind != t.kind || lower(u.text) != lower(t.text) {
			return false
		}
	}
	r.i += len(toks)
	return true
}

func (r *reader) need(text string) { sym.Assert(r.is(text), "the statement continues with "+text) }

func (r *reader) name(want string) {
	sym.Assert(r.i < len(r.toks) && r.toks[r.i].kind == 'n', "a quoted name comes next")
	sym.Assert(sym.EqStr(r.toks[r.i].text, want), "the name is the given one")
	r.i++
}

// checkTrigger reads a CREATE TRIGGER statement and compares it with a trigger.
func checkTrigger(t *ddl.Trigger, r *reader) {
	r.need("CREATE")
	sym.Assert(r.is("CONSTRAINT") == t.Constraint, "exactly constraint triggers are created as such")
	r.need("TRIGGER")
	r.name(t.Name)
	r.need(t.When)
	var del, ins, trunc, upd bool
	for more := true; more; more = r.is("OR") {
		switch {
		case r.is("DELETE"):
			sym.Assert(!del, "each event comes once")
			del = true
		case r.is("INSERT"):
			sym.Assert(!ins, "each event comes once")
			ins = true
		case r.is("TRUNCATE"):
			sym.Assert(!trunc, "each event comes once")
			trunc = true
		case r.is("UPDATE"):
			sym.Assert(!upd, "each event comes once")
			upd = true
			if len(t.Columns) == 0 {
				break
			}
			r.need("OF")
			for i, c := range t.Columns {
				if i > 0 {
					r.need(",")
				}
				r.name(c)
			}
		default:
			sym.Fail("an event comes next")
		}
	}
	sym.Assert(del == t.Delete && ins == t.Insert && trunc == t.Truncate && upd == t.Update, "exactly the trigger's events are listed")
	r.need("ON")
	r.name(t.Table)
	deferrable, deferred := false, false
	if r.is("NOT DEFERRABLE") {
		sym.Assert(!t.Deferrable, "a deferrable trigger is declared so")
	} else if r.is("DEFERRABLE") {
		deferrable = true
	}
	if r.is("INITIALLY DEFERRED") {
		deferred = true
	} else {
		r.is("INITIALLY IMMEDIATE")
	}
	sym.Assert(deferrable == t.Deferrable, "exactly deferrable triggers are declared so")
	sym.Assert(deferred == t.InitiallyDeferred, "exactly initially deferred triggers are declared so")
	row := false
	if r.is("FOR EACH ROW") || r.is("FOR ROW") {
		row = true
	} else if !r.is("FOR EACH STATEMENT") {
		r.is("FOR STATEMENT")
	}
	sym.Assert(row == t.ForEachRow, "exactly row triggers are declared so")
	r.need("EXECUTE")
	sym.Assert(r.is("PROCEDURE") || r.is("FUNCTION"), "the function follows")
	sym.Assert(r.i < len(r.toks) && sym.IsTrue(sym.EqStr(r.toks[r.i].text, t.Function)), "the function is the trigger's")
	r.i++
	r.need("();")
	sym.Assert(r.i == len(r.toks), "nothing follows")
}
