package ddlsql

import (
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// Many generates statements with many parts.
//
//verif:harness C20 many steps=100000000 what=0 sizes=3 thorough:sizes=4
//verif:harness C21 many steps=100000000 what=1 sizes=3 thorough:sizes=4
//verif:harness C35 many steps=100000000 what=2 sizes=3 thorough:sizes=4
//verif:bound (many) 9, 17, 40 or (thorough) 150 columns and checks of a table, columns of a primary key or of a trigger, or lines of a function, of which the first, one in the middle or the last has an arbitrary byte, or the same name as another
//verif:reach done
func Many() {
	n := []int{9, 17, 40, 150}[sym.Choose("size", sym.Param("sizes", 3))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	names := sym.Param("what", 0) == 0
	name := func(what string, i int) string {
		if i == at && names {
			return what + strconv.Itoa(i) + anyName(what, 1)
		}
		if i == at {
			return what + strconv.Itoa(i) + sym.StrNIn(what, 1, "aA_\" ")
		}
		return what + strconv.Itoa(i)
	}
	what := 3
	if sym.Param("what", 0) != 2 {
		what = sym.Choose("kind", 4)
	}
	switch what {
	case 0:
		checks := sym.Bool("checks")
		t := &ddl.Table{Name: "t"}
		w := (&want{}).sql("CREATE TABLE").name("t").sql("(")
		for i := 0; i < n; i++ {
			c := &ddl.Column{Name: name("c", i), Type: "type" + strconv.Itoa(i), NotNull: i%2 == 0}
			if i%3 == 0 {
				c.Default = "default" + strconv.Itoa(i)
			}
			t.Columns = append(t.Columns, c)
			if i > 0 {
				w.sql(",")
			}
			w.name(c.Name).sql(c.Type)
			if c.NotNull {
				w.sql("NOT NULL")
			}
			if c.Default != "" {
				w.sql("DEFAULT").sql(c.Default)
			}
		}
		for i := 0; i < n && checks; i++ {
			e := "f(" + strconv.Itoa(i) + ", 'x')"
			t.Checks = append(t.Checks, &ddl.Check{Expression: e})
			w.sql(", CHECK(").sql(e).sql(")")
		}
		sql, err := t.ToSQL()
		w.sql(");").check(sql, err)
	case 1:
		idx := &ddl.Index{Table: "t", Name: "i", Primary: true}
		w := (&want{}).sql("ALTER TABLE").name("t").sql("ADD CONSTRAINT").name("i").sql("PRIMARY KEY(")
		for i := 0; i < n; i++ {
			k := &ddl.IndexKey{Column: name("c", i)}
			idx.Keys = append(idx.Keys, k)
			if i > 0 {
				w.sql(",")
			}
			w.name(k.Column)
		}
		sql, err := idx.ToSQL()
		w.sql(");").check(sql, err)
	case 2:
		var lines []string
		for i := 0; i < n; i++ {
			lines = append(lines, "SELECT '"+name("x", i)+"' $q$;")
		}
		f := &ddl.Function{Name: "f", Returns: "int", Language: "sql", Definition: strings.Join(lines, "\n")}
		w := (&want{}).sql("CREATE OR REPLACE FUNCTION").sql(f.Name).sql("() RETURNS").sql(f.Returns)
		w.sql("AS").str("\n" + f.Definition).sql("LANGUAGE").str(f.Language).sql(";")
		sql, err := f.ToSQL()
		w.check(sql, err)
	case 3:
		t := &ddl.Trigger{Table: "t", Name: "n", Function: "f", When: "BEFORE", Update: true, Insert: sym.Bool("insert"), ForEachRow: true}
		for i := 0; i < n; i++ {
			t.Columns = append(t.Columns, name("c", i))
		}
		sql, err := t.ToSQL()
		sym.Assert(err == nil, "the statement is generated")
		toks, ok := lex(sql)
		sym.Assert(ok, "every quoted token is closed")
		checkTrigger(t, &reader{toks: toks})
	}
	sym.Reach("done")
}

// All sets many parameters, one after the other.
//
//verif:harness C22 all
//verif:bound (all) all parameters in the documented order or in the reverse, except for one that may be missing, unknown or given a value that is refused; then all of them once more with other values, or not
//verif:reach done
func All() {
	p := &ddl.TableStorageParameters{}
	one := sym.Choose("one", len(parameters)+1)
	what := sym.Choose("what", 3)
	rounds := 1 + sym.Choose("again", 2)
	reverse := sym.Bool("reverse")
	for r := 0; r < rounds; r++ {
		for i := range parameters {
			if reverse {
				i = len(parameters) - 1 - i
			}
			name, v, ok := parameters[i].name, strconv.Itoa(10+i+100*r), true
			if parameters[i].kind == 'b' {
				v = []string{"true", "off"}[r]
			}
			if i == one {
				switch what {
				case 0:
					continue
				case 1:
					name += "x"
				case 2:
					v, ok = "x", false
				}
			}
			err := p.Set(name, v)
			if i != one || what == 2 {
				sym.Assert((err == nil) == ok, "exactly values of another type are reported")
			}
		}
	}
	all := fields(p)
	for i, x := range parameters {
		f := all[x.name]
		if i == one {
			sym.Assert(what == 2 || f.IsNil(), "what is not set stays unset")
			continue
		}
		sym.Assert(!f.IsNil(), "the value is stored")
		switch x.kind {
		case 'i':
			sym.Assert(f.Elem().Int() == int64(10+i+100*(rounds-1)), "the stored value is the given one")
		case 'n':
			sym.Assert(f.Elem().Float() == float64(10+i+100*(rounds-1)), "the stored value is the given one")
		case 'b':
			sym.Assert(f.Elem().Bool() == (rounds == 1), "the stored value is the given one")
		}
	}
	sym.Reach("done")
}
