package ddlparse

import (
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// event adds one trigger event.
func (g *gen) event(t *refTrigger, cols int) {
	switch sym.Choose("event", 5) {
	case 0:
		g.kw("INSERT")
		t.insert = true
	case 1:
		g.kw("DELETE")
		t.delete = true
	case 2:
		g.kw("TRUNCATE")
		t.truncate = true
	case 3:
		g.kw("UPDATE")
		t.update = true
	case 4:
		g.kw("UPDATE")
		t.update = true
		g.ws()
		g.kw("OF")
		n := 1 + sym.Choose("columns", cols)
		for i := 0; i < n; i++ {
			if i == 0 {
				g.ws()
			} else {
				g.opt()
				g.lit(",")
				g.opt()
			}
			t.columns = append(t.columns, g.ident())
		}
	}
}

func sameTrigger(a *ddl.Trigger, t *refTrigger) {
	sym.Assert(a.Name == t.name, "the trigger's name is the parsed one")
	sym.Assert(a.Table == t.table, "the trigger's table is the parsed one")
	sym.Assert(a.Schema == "", "a trigger definition names no schema")
	sym.Assert(a.Function == t.function, "the trigger's function is the parsed one")
	sym.Assert(a.When == t.when, "the trigger's timing is upper-cased and single-spaced")
	sym.Assert(a.Constraint == t.constraint, "the constraint attribute is exact")
	sym.Assert(a.Deferrable == t.deferrable, "the deferrable attribute is exact")
	sym.Assert(a.InitiallyDeferred == t.deferred, "the initially deferred attribute is exact")
	sym.Assert(a.ForEachRow == t.row, "the row attribute is exact")
	sym.Assert(a.Insert == t.insert && a.Update == t.update && a.Delete == t.delete && a.Truncate == t.truncate, "the trigger's events are exact")
	sym.Assert(sameList(a.Columns, t.columns), "the trigger's columns are exact")
}

func (g *gen) trigger(events, cols int) *refTrigger {
	t := &refTrigger{}
	g.opt()
	g.kw("CREATE")
	g.ws()
	if sym.Bool("constraint") {
		g.kw("CONSTRAINT")
		g.ws()
		t.constraint = true
	}
	g.kw("TRIGGER")
	g.ws()
	t.name = g.ident()
	g.ws()
	switch sym.Choose("when", 3) {
	case 0:
		g.kw("BEFORE")
		t.when = "BEFORE"
	case 1:
		g.kw("AFTER")
		t.when = "AFTER"
	case 2:
		g.kw("INSTEAD")
		g.ws()
		g.kw("OF")
		t.when = "INSTEAD OF"
	}
	n := 1 + sym.Choose("events", events)
	for i := 0; i < n; i++ {
		g.ws()
		if i > 0 {
			g.kw("OR")
			g.ws()
		}
		g.event(t, cols)
	}
	g.ws()
	g.kw("ON")
	g.ws()
	t.table = g.ident()
	t.deferrable, t.deferred = g.deferral()
	if k := sym.Choose("foreach", 3); k > 0 {
		g.ws()
		g.kw("FOR")
		g.ws()
		if sym.Bool("each") {
			g.kw("EACH")
			g.ws()
		}
		if k == 1 {
			g.kw("ROW")
			t.row = true
		} else {
			g.kw("STATEMENT")
		}
	}
	g.ws()
	g.kw("EXECUTE")
	g.ws()
	if sym.Bool("procedure") {
		g.kw("PROCEDURE")
	} else {
		g.kw("FUNCTION")
	}
	g.ws()
	t.function = g.ident()
	g.lit("()")
	g.opt()
	return t
}

// TriggerAccept generates trigger definitions.
//
//verif:harness C15 accept events=2 cols=2 wslen=2 idlen=2 thorough:wslen=3 thorough:idlen=3
//verif:bound trigger definitions of the whole grammar with up to events events and cols columns each, all keywords in any letter case, white space runs of up to wslen arbitrary white space bytes (all of one length per definition), names of up to idlen arbitrary name bytes
//verif:reach accepted
func TriggerAccept() {
	g := newGen()
	t := g.trigger(sym.Param("events", 1), sym.Param("cols", 1))
	a, err := ddl.ParseTrigger(g.text())
	sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
	sameTrigger(a, t)
	sym.Reach("accepted")
}

func sameIndex(a *ddl.Index, x *refIndex) {
	sym.Assert(a.Name == x.name, "the index's name is the parsed one")
	sym.Assert(a.Table == x.table, "the index's table is the parsed one")
	sym.Assert(a.Schema == "" && !a.Primary, "an index definition names no schema and no primary key")
	sym.Assert(a.Using == x.using, "the index's method is the parsed one")
	sym.Assert(a.Unique == x.unique, "the unique attribute is exact")
	sym.Assert(a.Where == x.where || a.Where == x.where2, "the index's predicate is the parsed one, trimmed and collapsed")
	sym.Assert(len(a.Keys) == len(x.keys), "the index has exactly the parsed keys")
	for i, k := range x.keys {
		sym.Assert(a.Keys[i].Column == k.column, "a key's column is the parsed one")
		sym.Assert(a.Keys[i].Expression == k.expression, "a key's expression is the parsed one")
		sym.Assert(a.Keys[i].OpClass == k.opclass, "a key's operator class is its own")
		sym.Assert(!a.Keys[i].Descending, "no key is descending")
	}
}

const exprBytes = " \t\va(,'%\"\x80"

func (g *gen) index(keys, exprlen, wherelen int) *refIndex {
	x := &refIndex{}
	g.opt()
	g.kw("CREATE")
	g.ws()
	if sym.Bool("unique") {
		g.kw("UNIQUE")
		g.ws()
		x.unique = true
	}
	g.kw("INDEX")
	g.ws()
	x.name = g.ident()
	g.ws()
	g.kw("ON")
	g.ws()
	x.table = g.ident()
	g.ws()
	if sym.Bool("using") {
		g.kw("USING")
		g.ws()
		x.using = g.ident()
		g.ws()
	}
	g.lit("(")
	n := 1 + sym.Choose("keys", keys)
	for i := 0; i < n; i++ {
		g.opt()
		k := refKey{}
		kind := 0
		if i == 0 {
			kind = sym.Choose("kind", 3)
		}
		switch kind {
		case 0:
			k.column = g.ident()
		case 1:
			e := "(" + sym.StrNIn("expr", 1+sym.Choose("exprlen", exprlen), exprBytes) + ")"
			g.lit(e)
			k.expression = e
		case 2:
			e := g.ident() + "(" + sym.StrNIn("args", sym.Choose("argslen", exprlen+1), exprBytes) + ")"
			g.lit(e[g.lastLen():])
			k.expression = e
		}
		if sym.Bool("opclass") {
			g.ws()
			k.opclass = g.ident()
		}
		x.keys = append(x.keys, k)
		g.opt()
		if i+1 < n {
			g.lit(",")
		} else {
			g.lit(")")
		}
	}
	if sym.Bool("where") {
		g.ws()
		g.kw("WHERE")
		g.ws()
		w := sym.StrNIn("where", 1+sym.Choose("wherelen", wherelen), " \t\n\va)(=")
		g.lit(w)
		x.where = squeeze(trim(w))
		x.where2 = x.where
	} else {
		g.opt()
	}
	return x
}

func (g *gen) lastLen() int { return len(g.b[len(g.b)-1]) }

// IndexAccept generates index definitions.
//
//verif:harness C16 accept keys=2 thorough:keys=3 exprlen=2 wherelen=3 wslen=2 idlen=2 thorough:wslen=3 thorough:exprlen=3 thorough:wherelen=4
//verif:bound index definitions of the whole grammar with up to keys keys, expressions, arguments and predicates of up to exprlen and wherelen bytes, all keywords in any letter case, white space runs of up to wslen arbitrary white space bytes, names of up to idlen arbitrary name bytes
//verif:reach accepted
func IndexAccept() {
	g := newGen()
	x := g.index(sym.Param("keys", 1), sym.Param("exprlen", 1), sym.Param("wherelen", 1))
	a, err := ddl.ParseIndex(g.text())
	sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
	sameIndex(a, x)
	sym.Reach("accepted")
}

func sameFK(a *ddl.ForeignKey, x *refFK) {
	sym.Assert(sameList(a.Columns, x.columns), "the foreign key's columns are exact")
	sym.Assert(sameList(a.Referenced, x.referenced), "the referenced columns are exact")
	sym.Assert(a.Table == x.table, "the referenced table is the parsed one")
	sym.Assert(a.Name == "", "a foreign key definition has no name")
	sym.Assert(a.Match == x.match, "the match type is upper-cased")
	sym.Assert(a.OnDelete == x.onDelete, "the delete action is upper-cased and single-spaced")
	sym.Assert(a.OnUpdate == x.onUpdate, "the update action is upper-cased and single-spaced")
	sym.Assert(a.Deferrable == x.deferrable, "the deferrable attribute is exact")
	sym.Assert(a.InitiallyDeferred == x.deferred, "the initially deferred attribute is exact")
}

func (g *gen) list(n int) []string {
	var out []string
	g.lit("(")
	for i := 0; i < n; i++ {
		if i > 0 {
			g.lit(",")
		}
		g.opt()
		out = append(out, g.ident())
		g.opt()
	}
	g.lit(")")
	return out
}

func (g *gen) action() string {
	switch sym.Choose("action", 5) {
	case 0:
		g.kw("NO")
		g.ws()
		g.kw("ACTION")
		return "NO ACTION"
	case 1:
		g.kw("RESTRICT")
		return "RESTRICT"
	case 2:
		g.kw("CASCADE")
		return "CASCADE"
	case 3:
		g.kw("SET")
		g.ws()
		g.kw("NULL")
		return "SET NULL"
	default:
		g.kw("SET")
		g.ws()
		g.kw("DEFAULT")
		return "SET DEFAULT"
	}
}

func (g *gen) fk(cols int) *refFK {
	x := &refFK{}
	g.opt()
	g.kw("FOREIGN")
	g.ws()
	g.kw("KEY")
	g.ws()
	x.columns = g.list(1 + sym.Choose("columns", cols))
	g.ws()
	g.kw("REFERENCES")
	g.ws()
	x.table = g.ident()
	x.referenced = g.list(1 + sym.Choose("referenced", cols))
	switch sym.Choose("match", 4) {
	case 1:
		x.match = "FULL"
	case 2:
		x.match = "PARTIAL"
	case 3:
		x.match = "SIMPLE"
	}
	if x.match != "" {
		g.ws()
		g.kw("MATCH")
		g.ws()
		g.kw(x.match)
	}
	if sym.Bool("ondelete") {
		g.ws()
		g.kw("ON")
		g.ws()
		g.kw("DELETE")
		g.ws()
		x.onDelete = g.action()
	}
	if sym.Bool("onupdate") {
		g.ws()
		g.kw("ON")
		g.ws()
		g.kw("UPDATE")
		g.ws()
		x.onUpdate = g.action()
	}
	x.deferrable, x.deferred = g.deferral()
	g.opt()
	return x
}

// ForeignKeyAccept generates foreign key definitions.
//
//verif:harness C17 accept cols=2 wslen=2 idlen=2 thorough:wslen=3 thorough:idlen=3
//verif:bound foreign key definitions of the whole grammar with up to cols columns and referenced columns, all keywords in any letter case, white space runs of up to wslen arbitrary white space bytes, names of up to idlen arbitrary name bytes
//verif:reach accepted
func ForeignKeyAccept() {
	g := newGen()
	x := g.fk(sym.Param("cols", 1))
	a, err := ddl.ParseForeignKey(g.text())
	sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
	sameFK(a, x)
	sym.Reach("accepted")
}

func sameCheck(a *ddl.Check, x *refCheck) {
	sym.Assert(a.Expression == x.expression || a.Expression == x.expression2, "the check's expression is the text between the parentheses, trimmed")
	sym.Assert(a.Name == "", "a check definition has no name")
	sym.Assert(a.Deferrable == x.deferrable, "the deferrable attribute is exact")
	sym.Assert(a.InitiallyDeferred == x.deferred, "the initially deferred attribute is exact")
}

func (g *gen) check(expr string) *refCheck {
	x := &refCheck{}
	g.opt()
	g.kw("CHECK")
	g.opt()
	g.lit("(")
	g.lit(expr)
	g.lit(")")
	x.expression = trim(expr)
	x.expression2 = strings.TrimSpace(expr)
	x.deferrable, x.deferred = g.deferral()
	g.opt()
	return x
}

// CheckAccept generates check constraints with a symbolic expression.
//
//verif:harness C18 accept exprlen=4 thorough:exprlen=5 wslen=2 thorough:wslen=3 idlen=1
//verif:bound check constraints with expressions of up to exprlen bytes of a representative alphabet (parentheses, white space, quotes, letters), all keywords in any letter case, white space runs of up to wslen
//verif:reach accepted
func CheckAccept() {
	g := newGen()
	x := g.check(sym.StrIn("expr", sym.Param("exprlen", 2), " \t\v()a'\""))
	a, err := ddl.ParseCheck(g.text())
	sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
	sameCheck(a, x)
	sym.Reach("accepted")
}

// CheckNested puts deferral clauses inside the expression.
//
//verif:harness C18 nested wslen=2 idlen=1
//verif:bound the expression contains a closing parenthesis followed by any deferral clause and up to one more byte, in any letter case and white space
//verif:reach accepted
func CheckNested() {
	inner := newGen()
	inner.lit("(a)")
	inner.deferral()
	inner.lit(sym.StrIn("tail", 1, " )a"))
	g := &gen{wsLen: inner.wsLen, idLen: 1}
	x := g.check(inner.text())
	a, err := ddl.ParseCheck(g.text())
	sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
	sameCheck(a, x)
	sym.Reach("accepted")
}

// TriggerLong generates longer plain definitions.
//
//verif:harness C15 long events=3 cols=3 thorough:events=4
//verif:bound the same grammar in upper case and single blanks with up to events events and cols columns each
//verif:reach accepted
func TriggerLong() {
	g := plain()
	t := g.trigger(sym.Param("events", 1), sym.Param("cols", 1))
	a, err := ddl.ParseTrigger(g.text())
	sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
	sameTrigger(a, t)
	sym.Reach("accepted")
}

// IndexLong generates longer plain definitions.
//
//verif:harness C16 long keys=4 thorough:keys=6 exprlen=1 wherelen=1
//verif:bound the same grammar in upper case and single blanks with up to keys keys
//verif:reach accepted
func IndexLong() {
	g := plain()
	x := g.index(sym.Param("keys", 1), sym.Param("exprlen", 1), sym.Param("wherelen", 1))
	a, err := ddl.ParseIndex(g.text())
	sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
	sameIndex(a, x)
	sym.Reach("accepted")
}

// ForeignKeyLong generates longer plain definitions.
//
//verif:harness C17 long cols=4 thorough:cols=6
//verif:bound the same grammar in upper case and single blanks with up to cols columns and referenced columns
//verif:reach accepted
func ForeignKeyLong() {
	g := plain()
	x := g.fk(sym.Param("cols", 1))
	a, err := ddl.ParseForeignKey(g.text())
	sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
	sameFK(a, x)
	sym.Reach("accepted")
}

// LongNames uses names of 66 and 130 bytes and long expressions.
//
//verif:harness C15 longnames parser=0
//verif:harness C16 longnames parser=1
//verif:harness C17 longnames parser=2 cols=2
//verif:harness C18 longnames parser=3
//verif:bound names (expressions) of 66 and 130 bytes with symbolic ends
//verif:reach accepted
func LongNames() {
	g := plain()
	g.idLen = 2
	g.filler = strings.Repeat("x_1y", 16*(1+sym.Choose("filler", 2)))
	g.parser()
}

// WordNames uses SQL words as names.
//
//verif:harness C15 wordnames parser=0
//verif:harness C16 wordnames parser=1
//verif:harness C17 wordnames parser=2 cols=1 thorough:cols=2
//verif:bound names that are one of 37 SQL words in any letter case
//verif:reach accepted
func WordNames() {
	g := plain()
	g.word = keyword()
	g.parser()
}

var runs = []int{9, 28, 100, 129, 2, 3, 7, 8, 15, 16, 17, 27, 31, 32, 33, 63, 64, 65, 81, 128}

// LongBlanks uses long runs of white space.
//
//verif:harness C15 longblanks parser=0 runs=4 thorough:runs=20
//verif:harness C16 longblanks parser=1 runs=20
//verif:harness C17 longblanks parser=2 cols=1 runs=4 thorough:runs=20
//verif:harness C18 longblanks parser=3 runs=20
//verif:bound plain definitions whose white space (also inside predicates and expressions) comes in runs of 2 to 129 bytes; the first and the other bytes of a run are any white space bytes
//verif:reach accepted
func LongBlanks() {
	g := plain()
	n := runs[sym.Choose("run", sym.Param("runs", len(runs)))]
	c := sym.StrNIn("blank", 2, space)
	g.blanks = c[:1] + strings.Repeat(c[1:], n-1)
	g.parser()
}

func (g *gen) parser() {
	switch sym.Param("parser", 0) {
	case 0:
		t := g.trigger(1, 1)
		a, err := ddl.ParseTrigger(g.text())
		sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
		sameTrigger(a, t)
	case 1:
		x := &refIndex{}
		if g.blanks == "" {
			x = g.index(2, 1, 1)
		} else {
			x = g.index(1, 1, 1)
			// a predicate with the same run of blanks
			if x.where != "" {
				w := "b" + g.blanks + "AND" + g.blanks + "c"
				g.lit(w)
				x.where += squeeze(w)
				x.where2 = x.where
			}
		}
		a, err := ddl.ParseIndex(g.text())
		sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
		sameIndex(a, x)
	case 2:
		x := g.fk(sym.Param("cols", 1))
		a, err := ddl.ParseForeignKey(g.text())
		sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
		sameFK(a, x)
	case 3:
		x := g.check(g.filler + " >" + g.blanks + " " + sym.StrNIn("expr", 2, "ab )(") + g.filler)
		a, err := ddl.ParseCheck(g.text())
		sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
		sameCheck(a, x)
	}
	sym.Reach("accepted")
}

// CheckParens has longer expressions of few different bytes.
//
//verif:harness C18 parens exprlen=7 thorough:exprlen=9
//verif:bound plain check constraints with expressions of up to exprlen bytes that are parentheses, blanks or letters
//verif:reach accepted
func CheckParens() {
	g := plain()
	x := g.check(sym.StrIn("expr", sym.Param("exprlen", 2), "()a "))
	a, err := ddl.ParseCheck(g.text())
	sym.Assert(err == nil && a != nil, "a definition of the grammar is accepted")
	sameCheck(a, x)
	sym.Reach("accepted")
}
