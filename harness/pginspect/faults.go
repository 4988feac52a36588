package pginspect

import (
	"strconv"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zzverif/pgwire"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// full is a database with n of everything, but with its own number of tables.
func full(n, tables int, view bool) *database {
	db := &database{searchPath: "a", timezone: "b", hasView: view}
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		db.schemas = append(db.schemas, row{"name": text("s" + id), "owner": text("o"), "comment": text("c")})
		db.functions = append(db.functions, row{"schema": text("s"), "name": text("f" + id), "owner": text("o"), "comment": text("c"),
			"returns": text("r"), "language": text("l"), "definition": text("d")})
		db.sequences = append(db.sequences, row{
			"schema": text("s"), "name": text("q" + id), "owner": text("o"), "comment": text("c"),
			"type": text("bigint"), "start": number(1), "min": number(1), "max": number(9),
			"inc": number(1), "cache": number(1), "cycle": flag(false),
			"ownerschema": text("s"), "ownertable": text("t"), "ownercolumn": text("c")})
	}
	for i := 0; i < tables; i++ {
		id := strconv.Itoa(i)
		d := &details{schema: "s", table: "t" + id}
		for j := 0; j < n; j++ {
			id := strconv.Itoa(j)
			d.columns = append(d.columns, row{"name": text("c" + id), "type": text("t"), "notnull": flag(true),
				"default": text("d"), "comment": text("c")})
			d.checks = append(d.checks, row{"name": text("k" + id), "expr": text("x"), "deferrable": flag(true)})
			d.fks = append(d.fks, row{"name": text("f" + id), "table": text("x"), "column": text("y"), "ref": text("z"), "cascade": flag(true)})
			d.params = append(d.params, row{"name": text([]string{"fillfactor", "parallel_workers"}[j%2]), "value": text("7")})
			d.indexes = append(d.indexes, row{"name": text("i" + id), "column": text("c"), "primary": flag(false), "unique": flag(true)})
			d.trgs = append(d.trgs, row{"name": text("g" + id), "function": text("f"), "delete": flag(true)})
		}
		d.define()
		db.details = append(db.details, d)
		db.tables = append(db.tables, row{"schema": text(d.schema), "name": text(d.table), "owner": text("o"), "comment": text("c")})
	}
	return db
}

// complete tells if a description has everything that a full database has.
func complete(got *ddl.Database, n, tables int) bool {
	if got == nil || len(got.Schemas) != n || len(got.Functions) != n || len(got.Sequences) != n || len(got.Tables) != tables ||
		len(got.Indexes) != n*tables || len(got.Triggers) != n*tables || got.Parameters.Timezone != "b" {
		return false
	}
	for _, t := range got.Tables {
		p := t.StorageParameters
		if len(t.Columns) != n || len(t.Checks) != n || len(t.ForeignKeys) != n || p == nil || p.Fillfactor == nil || *p.Fillfactor != 7 ||
			n > 1 && (p.ParallelWorkers == nil || *p.ParallelWorkers != 7) {
			return false
		}
	}
	return true
}

// Faults inspects a database whose server fails at some point.
//
//verif:harness C26 faults quick:n=1 quick:steps_=105 thorough:n=2 thorough:steps_=200
//verif:bound a database with two tables and n of everything else, per table where it applies; one failure, at any message of the server, that rejects the query, ends the connection, shortens a row, or garbles a value of it; old and new servers
//verif:reach reject drop short garble whole
func Faults() {
	n := sym.Param("n", 1)
	srv, conn, done := connect(full(n, 2, sym.Bool("view")))
	defer done()
	max := sym.Param("steps_", 105)
	at, fault := sym.Choose("at", max), sym.Choose("fault", pgwire.Faults)
	pgwire.Lock(func() { srv.FaultAt, srv.Fault = at, fault })
	got, err := conn.InspectDatabase(nil)
	faulted, steps := false, 0
	pgwire.Lock(func() { faulted, steps = srv.Faulted, srv.Steps })
	if !faulted {
		sym.Assert(steps < max-1, "the bound on the steps suffices")
		sym.Assert(err == nil, "without a failure the inspection succeeds")
		sym.Assert(complete(got, n, 2), "without a failure the description is complete")
		sym.Reach("whole")
		return
	}
	sym.Assert(err != nil, "a failure is reported")
	sym.Assert(got == nil, "a failure leaves no description")
	if fault == pgwire.Reject || fault == pgwire.Garble {
		_, err = conn.ServerVersion()
		sym.Assert(err == nil, "after a failure every result is closed")
	}
	sym.Reach([]string{"reject", "drop", "short", "garble"}[fault])
}

var clauses = [][]string{
	{"NOT VALID", "NO INHERIT", "DEFERRABLE", "NULL", "(b)", "AND (c > 0)", "NOT ENFORCED"},
	{"NOT VALID", "MATCH FULL", "MATCH PARTIAL", "ON DELETE SET NULL (a)", "DEFERRABLE", "NOT ENFORCED", "PERIOD b", ", b", "ONLY"},
	{"INCLUDE (b)", "COLLATE \"C\"", "DESC", "NULLS FIRST", "NULLS NOT DISTINCT", "WITH (fillfactor='70')", "TABLESPACE x", "WHERE b", "ONLY", "CONCURRENTLY", ", lower(b)", "UNIQUE", "IF NOT EXISTS"},
	{"WHEN (new.a > 0)", "FROM other", "REFERENCING NEW TABLE AS n", "DEFERRABLE", "OR TRUNCATE", "INSTEAD OF", "CONSTRAINT", "OF a", "FOR EACH STATEMENT", "('x')"},
	{"toast.", "=", "vacuum_index_cleanup", "buffering", "off", "parallel_workers", "_", "true"},
}

// insert inserts something into a definition.
func insert(s string, what int) string {
	x := ""
	list := clauses[what]
	k := sym.Choose("clause", len(list)+sym.Param("clauses", 1)-1)
	if k < len(list) {
		x = list[k]
	} else {
		x = sym.Literal("clause.literal", "internal/pg", "", 40)
	}
	at := sym.Choose("position", len(s)+1)
	sym.Assume(at == 0 || at == len(s) || s[at] == ' ' || s[at] == ')' || s[at-1] == '(' || s[at] == '=')
	if what == 4 {
		return s[:at] + x + s[at:]
	}
	if at == 0 {
		return x + " " + s
	}
	return s[:at] + " " + x + s[at:]
}

// Definitions inspects a database with a definition that may be impossible to understand.
//
//verif:harness C26 definitions quick:n=1 quick:extra=0 thorough:n=2 thorough:extra=1
//verif:harness C26 clauses n=1 clauses=1 thorough:clauses=2
//verif:bound (clauses) into a definition, between any two of its words or at an end of it, one of the clauses that PostgreSQL knows and the parsers may not, or a constant of the inspecting package's sources, is inserted
//verif:bound a database with two tables and n of everything else, per table where it applies; a check, foreign key, index, trigger or storage parameter of any of them is cut at any position and continued with up to extra arbitrary bytes
//verif:reach good bad
func Definitions() {
	n := sym.Param("n", 1)
	db := full(n, 2, true)
	d := db.details[sym.Choose("table", 2)]
	i := sym.Choose("row", n)
	what := sym.Choose("what", 5)
	r := [][]row{d.checks, d.fks, d.indexes, d.trgs, d.params}[what][i]
	key := "def"
	if what == 4 {
		key = "param"
	}
	s := r[key].Text
	if sym.Param("clauses", 0) == 0 {
		s = s[:sym.Choose("cut", len(s)+1)] + sym.Str("extra", sym.Param("extra", 0))
	} else {
		s = insert(s, what)
	}
	r[key] = text(s)
	var bad error
	switch what {
	case 0:
		_, bad = ddl.ParseCheck(s)
	case 1:
		_, bad = ddl.ParseForeignKey(s)
	case 2:
		_, bad = ddl.ParseIndex(s)
	case 3:
		_, bad = ddl.ParseTrigger(s)
	case 4:
		k, v := s, ""
		for j := 0; j < len(s); j++ {
			if s[j] == '=' {
				k, v = s[:j], s[j+1:]
				break
			}
		}
		bad = new(ddl.TableStorageParameters).Set(k, v)
	}
	_, conn, done := connect(db)
	defer done()
	got, err := conn.InspectDatabase(nil)
	if bad == nil {
		sym.Assert(err == nil && got != nil, "what can be understood is described")
		sym.Assert(what == 4 || complete(got, n, 2), "what can be understood is described completely")
		sym.Reach("good")
		return
	}
	sym.Assert(err != nil, "a definition that is not understood is reported")
	sym.Assert(got == nil, "a definition that is not understood leaves no description")
	_, err = conn.ServerVersion()
	sym.Assert(err == nil, "after a failure every result is closed")
	sym.Reach("bad")
}
