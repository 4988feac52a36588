package ddlparse

import (
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// Many parses definitions with many parts.
//
//verif:harness C15 many steps=100000000 parser=0 sizes=3 thorough:sizes=4
//verif:harness C16 many steps=100000000 parser=1 sizes=3 thorough:sizes=4
//verif:harness C17 many steps=100000000 parser=2 sizes=3 thorough:sizes=4
//verif:harness C18 many steps=100000000 parser=3 sizes=3 thorough:sizes=4
//verif:bound (many) definitions with 9, 17, 40 or (thorough) 150 columns, events, keys, referenced columns or nested parentheses, or with as many words in an expression, one of which, the first, one in the middle or the last, has an arbitrary byte of a name
//verif:reach accepted
func Many() {
	n := []int{9, 17, 40, 150}[sym.Choose("size", sym.Param("sizes", 3))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	name := func(what string, i int) string {
		s := what + strconv.Itoa(i)
		if i == at {
			s += sym.StrNIn(what, 1, "zA_0")
		}
		return s
	}
	list := func(what string) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, name(what, i))
		}
		return out
	}
	sep := []string{", ", ",", "  ,\n\t"}[sym.Choose("separator", 3)]
	switch sym.Param("parser", 0) {
	case 0:
		t := &refTrigger{name: "tr", table: "tb", function: "fn", when: "AFTER"}
		events := "DELETE"
		t.delete = true
		if sym.Bool("events") {
			for i := 0; i < n; i++ {
				if i == at {
					events += " OR UPDATE OF a"
					t.update, t.columns = true, append(t.columns, "a")
				} else {
					events += " OR " + []string{"INSERT", "TRUNCATE", "DELETE"}[i%3]
				}
			}
			t.insert, t.truncate = true, true
		} else {
			t.update, t.columns = true, list("c")
			events = "UPDATE OF " + strings.Join(t.columns, sep)
			t.delete = sym.Bool("before")
			if t.delete {
				events = "DELETE OR " + events
			}
			if t.insert = sym.Bool("after"); t.insert {
				events += " OR INSERT"
			}
		}
		a, err := ddl.ParseTrigger("CREATE TRIGGER tr AFTER " + events + " ON tb EXECUTE PROCEDURE fn()")
		sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
		sameTrigger(a, t)
	case 1:
		x := &refIndex{name: "ix", table: "tb", using: "btree"}
		var keys []string
		first := sym.Choose("first", 3) // only the first key can be an expression
		for i := 0; i < n; i++ {
			k := refKey{}
			s := name("k", i)
			kind := 0
			if i == 0 {
				kind = first
			}
			switch kind {
			case 0:
				k.column = s
			case 1:
				s = "(" + s + " + 1)"
				k.expression = s
			case 2:
				s += "(a, b"
				for j := 0; j < n; j++ {
					s += ", " + strconv.Itoa(j)
				}
				s += ")"
				k.expression = s
			}
			if i%4 == 3 {
				s += " ops"
				k.opclass = "ops"
			}
			keys, x.keys = append(keys, s), append(x.keys, k)
		}
		text := "CREATE INDEX ix ON tb USING btree (" + strings.Join(keys, sep) + ")"
		if sym.Bool("where") {
			x.where = "((" + strings.Join(list("w"), " > 0) AND (") + " > 0))"
			x.where2 = x.where
			text += " WHERE " + x.where
		}
		a, err := ddl.ParseIndex(text)
		sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
		sameIndex(a, x)
	case 2:
		x := &refFK{table: "tb", columns: []string{"a"}, referenced: []string{"b"}, onDelete: "CASCADE", deferrable: true}
		if sym.Bool("columns") {
			x.columns = list("c")
		}
		if sym.Bool("referenced") {
			x.referenced = list("r")
		}
		a, err := ddl.ParseForeignKey("FOREIGN KEY (" + strings.Join(x.columns, sep) + ") REFERENCES tb(" + strings.Join(x.referenced, sep) + ") ON DELETE CASCADE DEFERRABLE")
		sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
		sameFK(a, x)
	case 3:
		e := ""
		if sym.Bool("nested") {
			e = "a > 0"
			for i := n - 1; i >= 0; i-- {
				e = "(" + e + sep + name("b", i) + ")"
			}
		} else {
			e = "((" + strings.Join(list("w"), " > 0)"+sep+"(") + " > 0))"
		}
		x := &refCheck{expression: e, expression2: e}
		text := "CHECK (" + e + ")"
		if x.deferrable = sym.Bool("deferrable"); x.deferrable {
			text += " DEFERRABLE"
		}
		a, err := ddl.ParseCheck(text)
		sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
		sameCheck(a, x)
	}
	sym.Reach("accepted")
}
