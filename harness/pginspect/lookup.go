package pginspect

import (
	"strconv"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/pgwire"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// name is a name of one to len bytes.
func name(id, set string) string {
	return sym.StrNIn(id, sym.Choose(id+".n", sym.Param("len", 2))+1, set)
}

// plain is a name that needs no quotes when it starts with a letter.
func plain(id string) string {
	s := name(id, "abA_")
	sym.Assume(s[0] != '_')
	return s
}

const special = `aA."%_`

// differ assumes that no two lists of names are equal.
func differ(lists ...[]string) {
	for i, a := range lists {
		for _, b := range lists[:i] {
			same := true
			for j := range a {
				same = sym.And(same, sym.EqStr(a[j], b[j]))
			}
			sym.Assume(sym.Not(same))
		}
	}
}

// named tells if two lists of names are equal.
func named(a, b []string) bool {
	for i := range a {
		if !sym.IsTrue(sym.EqStr(a[i], b[i])) {
			return false
		}
	}
	return true
}

// lookup checks what a lookup for something that exists, or does not, says.
func lookup(found, exists bool, err error) bool {
	if !exists {
		sym.Assert(err == pg.ErrNotFound, "what does not exist is not found")
		sym.Assert(!found, "nothing is described that does not exist")
		sym.Reach("missing")
		return false
	}
	sym.Assert(err == nil, "what exists is found")
	sym.Assert(found, "what exists is described")
	sym.Reach("found")
	return true
}

// Function looks a function up.
//
//verif:harness C38 longfunction len=3 rows=1 probes=6
//verif:harness C38 function quick:len=1 quick:rows=2 probes=11 thorough:len=2 thorough:rows=2
//verif:bound up to rows functions, and a request for another or one of them; schemas and names of one to len letters in either case, periods, quotes and wildcards; one other text of up to len arbitrary bytes or null, distinct words elsewhere
//verif:reach found missing
func Function() {
	db := &database{}
	p := newProbe(sym.Param("probes", 6))
	var all [][]string
	for i := sym.Choose("rows", sym.Param("rows", 1)+1); i > 0; i-- {
		id := strconv.Itoa(i)
		names := []string{name("schema" + id, special), name("name" + id, special)}
		all = append(all, names)
		db.functions = append(db.functions, row{"schema": text(names[0]), "name": text(names[1]),
			"owner": p.null(), "comment": p.null(), "returns": p.null(), "language": p.null(), "definition": p.null()})
	}
	p.used()
	differ(all...)
	wanted := []string{name("schema", special), name("name", special)}
	_, conn, done := connect(db)
	defer done()
	for n := 0; n < 2; n++ {
		got, err := conn.DescribeFunction(wanted[0], wanted[1])
		var r row
		for i, names := range all {
			if named(names, wanted) {
				r = db.functions[i]
			}
		}
		if lookup(got != nil, r != nil, err) {
			same(got.Schema, r["schema"], "the function's schema")
			same(got.Name, r["name"], "the function's name")
			same(got.Owner, r["owner"], "the function's owner")
			same(got.Comment, r["comment"], "the function's comment")
			same(got.Returns, r["returns"], "the function's result")
			same(got.Language, r["language"], "the function's language")
			same(got.Definition, r["definition"], "the function's definition")
		}
	}
}

// FunctionWords looks a function with a well-known name up.
//
//verif:harness C38 words
//verif:bound (words) one function whose schema and name are short constants of the package's sources or letters, and a request for it or for empty, shorter, longer, or other names
//verif:reach found missing
func FunctionWords() {
	word := func(id string) string {
		if sym.Bool(id + ".letter") {
			return "f"
		}
		s := sym.Literal(id, "internal/pg,internal/ddl", "", 16)
		sym.Assume(s != "")
		return s
	}
	names := []string{word("schema"), word("name")}
	sym.Assume(names[0] == "f" || names[1] == "f")
	db := &database{functions: []row{{"schema": text(names[0]), "name": text(names[1]),
		"owner": text("o"), "comment": text("c"), "returns": text("r"), "language": text("l"), "definition": text("d")}}}
	wanted := []string{names[0], names[1]}
	i := sym.Choose("which", 2)
	switch sym.Choose("wanted", 5) {
	case 1:
		wanted[i] = ""
	case 2:
		wanted[i] = names[i][1:]
	case 3:
		wanted[i] += "f"
	case 4:
		wanted[i] = "x"
	}
	_, conn, done := connect(db)
	defer done()
	got, err := conn.DescribeFunction(wanted[0], wanted[1])
	if lookup(got != nil, named(names, wanted), err) {
		sym.Assert(got.Schema == names[0] && got.Name == names[1] && got.Definition == "d", "the function is described")
	}
}

// TriggerDefinitions looks a trigger up whose definition may be impossible to understand.
//
//verif:harness C38 definitions clauses=2
//verif:bound (definitions) one trigger, whose definition is cut at any position, or has a clause inserted that PostgreSQL knows, or a constant of the package's sources
//verif:reach found bad
func TriggerDefinitions() {
	db := full(1, 1, true)
	r := db.details[0].trgs[0]
	s := r["def"].Text
	if sym.Bool("cut") {
		s = s[:sym.Choose("at", len(s)+1)]
	} else {
		s = insert(s, 3)
	}
	r["def"] = text(s)
	want, bad := ddl.ParseTrigger(s)
	_, conn, done := connect(db)
	defer done()
	got, err := conn.DescribeTrigger("s", "t0", "g0")
	if bad != nil {
		sym.Assert(err != nil && got == nil, "a definition that is not understood is reported")
		sym.Assert(err != pg.ErrNotFound, "a definition that is not understood is no proof that something does not exist")
		sym.Reach("bad")
	} else if lookup(got != nil, true, err) {
		sym.Assert(got.When == want.When && got.Insert == want.Insert && got.Update == want.Update && got.Function == want.Function, "the trigger is described")
	}
	_, err = conn.ServerVersion()
	sym.Assert(err == nil, "afterwards every result is closed")
}

// Trigger looks a trigger up.
//
//verif:harness C38 trigger rows=2 quick:len=1 thorough:len=2
//verif:bound up to rows triggers, and a request for another or one of them; schemas, tables and names of one to len letters in either case and underscores
//verif:reach found missing
func Trigger() {
	db := &database{}
	var all [][]string
	for i := sym.Choose("rows", sym.Param("rows", 1)+1); i > 0; i-- {
		id := strconv.Itoa(i)
		names := []string{plain("schema" + id), plain("table" + id), plain("name" + id)}
		all = append(all, names)
		d := &details{schema: names[0], table: names[1]}
		def := "CREATE TRIGGER " + names[2] + " BEFORE INSERT"
		if sym.Bool("delete" + id) {
			def += " OR DELETE"
			d.trgs = append(d.trgs, row{"delete": flag(true)})
		} else {
			d.trgs = append(d.trgs, row{"delete": flag(false)})
		}
		d.trgs[0]["name"] = text(names[2])
		d.trgs[0]["function"] = text("f" + id)
		d.trgs[0]["def"] = text(def + " ON " + names[1] + " FOR EACH ROW EXECUTE PROCEDURE f" + id + "()")
		db.details = append(db.details, d)
	}
	differ(all...)
	wanted := []string{plain("schema"), plain("table"), plain("name")}
	_, conn, done := connect(db)
	defer done()
	for n := 0; n < 2; n++ {
		got, err := conn.DescribeTrigger(wanted[0], wanted[1], wanted[2])
		var r row
		for i, names := range all {
			if named(names, wanted) {
				r = db.details[i].trgs[0]
			}
		}
		if lookup(got != nil, r != nil, err) {
			same(got.Schema, text(wanted[0]), "the trigger's schema")
			same(got.Table, text(wanted[1]), "the trigger's table")
			same(got.Name, r["name"], "the trigger's name")
			same(got.Function, r["function"], "the trigger's function")
			sym.Assert(got.Insert && got.Delete == r["delete"].Bool && !got.Update && !got.Truncate, "the trigger's events")
			sym.Assert(got.When == "BEFORE" && got.ForEachRow, "the trigger's timing")
		}
	}
}

// LookupFaults looks things up at a server that fails at some point.
//
//verif:harness C38 lookupfaults steps_=14
//verif:bound a function and a trigger, either of which is looked up, by its own name or another; one failure, at any message of the server, that rejects the query, ends the connection, or shortens a row
//verif:reach reject drop short whole
func LookupFaults() {
	srv, conn, done := connect(full(1, 1, true))
	defer done()
	max := sym.Param("steps_", 14)
	at, fault := sym.Choose("at", max), sym.Choose("fault", pgwire.Garble)
	trigger, exists := sym.Bool("trigger"), sym.Bool("exists")
	pgwire.Lock(func() { srv.FaultAt, srv.Fault = at, fault })
	found, err := false, error(nil)
	name := "none"
	if trigger {
		if exists {
			name = "g0"
		}
		got, e := conn.DescribeTrigger("s", "t0", name)
		found, err = got != nil, e
	} else {
		if exists {
			name = "f0"
		}
		got, e := conn.DescribeFunction("s", name)
		found, err = got != nil, e
	}
	faulted, steps := false, 0
	pgwire.Lock(func() { faulted, steps = srv.Faulted, srv.Steps })
	if !faulted {
		sym.Assert(steps < max-1, "the bound on the steps suffices")
		lookup(found, exists, err)
		sym.Reach("whole")
		return
	}
	sym.Assert(err != nil, "a failure is reported")
	sym.Assert(err != pg.ErrNotFound, "a failure is no proof that something does not exist")
	sym.Assert(!found, "a failure leaves no description")
	if fault == pgwire.Reject {
		_, err = conn.ServerVersion()
		sym.Assert(err == nil, "after a failure every result is closed")
	}
	sym.Reach([]string{"reject", "drop", "short"}[fault])
}
