package pginspect

import (
	"bytes"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/cli"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/pgwire"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

const cliPort = 54335

// option adds an option to a command line, in one of its spellings.
func option(args []string, name, short, value string) []string {
	k := 2
	if short != "" {
		k = 4
	}
	switch sym.Choose("spelling", k) {
	case 0:
		return append(args, "--"+name+"="+value)
	case 1:
		return append(args, "--"+name, value)
	case 2:
		return append(args, "-"+short, value)
	}
	return append(args, "-"+short+value)
}

func letters(name string, n int) string {
	return sym.StrNIn(name, n, "abcdefghijklmnopqrstuvwxyz")
}

// unsorted is a database whose parts are not in alphabetical order.
func unsorted() *database {
	db := full(2, 1, true)
	db.schemas, db.functions, db.sequences = nil, nil, nil
	d := db.details[0]
	d.fks, d.trgs, d.params = nil, nil, nil
	d.columns[0], d.columns[1] = d.columns[1], d.columns[0]
	d.indexes[0], d.indexes[1] = d.indexes[1], d.indexes[0]
	d.checks[0]["expr"], d.checks[1]["expr"] = text("y"), text("x")
	d.define()
	return db
}

// description is the description of a database.
func description(db *database, o *pg.InspectOptions) string {
	var b bytes.Buffer
	sym.Assume(inspect(db, o).Write(&b) == nil)
	return b.String()
}

// runCommand runs a command line.
func runCommand(args []string) (stdout, stderr string, err error) {
	run, err := cli.RegisterCommands("1").Parse(args)
	sym.Assert(err == nil, "the command line is accepted")
	var out, errs bytes.Buffer
	err = run(&out, &errs)
	return out.String(), errs.String(), err
}

// ReadBuildInfo stands for debug.ReadBuildInfo.
//
//verif:stub runtime/debug.ReadBuildInfo
func ReadBuildInfo() (*debug.BuildInfo, bool) { return nil, false }

// CommandLine connects as a command line says.
//
//verif:harness C37 connection steps=50000000
//verif:bound the commands ping and inspect with or without each of the options for host, port, database, user and SSL mode, one of them in any spelling, for every word of two letters, in two orders; the environment has what is not given, and something else for what is
//verif:reach ping inspect
func CommandLine() {
	done := memfs.Setup()
	env := map[string]string{}
	command := sym.Choose("command", 2)
	args := []string{[]string{"ping", "inspect"}[command]}
	names := []string{"host", "port", "dbname", "username", "sslmode"}
	shorts := []string{"h", "p", "d", "U", ""}
	vars := []string{"PGHOST", "PGPORT", "PGDATABASE", "PGUSER", "PGSSLMODE"}
	values := []string{letters("host", 2), strconv.Itoa(cliPort + sym.Choose("port", 2)), letters("dbname", 2), letters("username", 2), "disable"}
	spelled := sym.Choose("spelled", len(names))
	order := []int{0, 1, 2, 3, 4}
	if sym.Bool("reverse") {
		order = []int{4, 3, 2, 1, 0}
	}
	for _, i := range order {
		if !sym.Bool(names[i] + ".given") {
			env[vars[i]] = values[i]
			continue
		}
		env[vars[i]] = []string{"other", "1", "other", "other", "require"}[i]
		if i == spelled {
			args = option(args, names[i], shorts[i], values[i])
		} else {
			args = append(args, "--"+names[i]+"="+values[i])
		}
	}
	db := &database{searchPath: "a", timezone: "b", hasView: true}
	srv := &pgwire.Server{Attempts: []pgwire.Attempt{{}}, Answer: db.answer}
	stop := pgwire.Start(srv, env, []string{values[0]}, []int{cliPort, cliPort + 1})

	stdout, stderr, err := runCommand(args)
	sym.Assert(err == nil, "the command succeeds")
	pgwire.Lock(func() {
		sym.Assert(len(srv.Sessions) == 1, "there is one connection")
		s := srv.Sessions[0]
		sym.Assert(sym.EqStr(s.Host, values[0]), "the host is the given one")
		sym.Assert(s.Port == values[1], "the port is the given one")
		sym.Assert(sym.EqStr(s.Params["database"], values[2]), "the database is the given one")
		sym.Assert(sym.EqStr(s.Params["user"], values[3]), "the user is the given one")
		sym.Assert(!s.TLS, "the SSL mode is the given one")
		sym.Assert(s.Terminated, "the connection is ended")
	})
	sym.Assert(stderr == "", "nothing is written to standard error")
	stop()
	done()
	if command == 0 {
		sym.Assert(stdout == serverVersion+"\n", "exactly the server's version is printed")
		sym.Reach("ping")
		return
	}
	sym.Assert(stdout == description(db, nil), "exactly the description is printed")
	sym.Reach("inspect")
}

// Version prints versions.
//
//verif:harness C37 version quick:len=2 thorough:len=3
//verif:bound the version is any text of up to len bytes, possibly after a typical version of PostgreSQL, or a constant of the commands' sources with a byte more on either side
//verif:reach printed
func Version() {
	defer memfs.Setup()()
	db := &database{}
	want := ""
	switch sym.Choose("version", 3) {
	case 0:
		db.version = sym.Str("text", sym.Param("len", 2))
		want = serverVersion + db.version
	case 1:
		want = sym.Str("text", sym.Param("len", 2))
	case 2:
		want = sym.StrIn("before", 1, "a \n") + sym.Literal("literal", "internal/commands,internal/pg", "", 40) + sym.StrIn("after", 1, "a \n")
	}
	srv := &pgwire.Server{Attempts: []pgwire.Attempt{{}}, Answer: func(sql string, args []string) *pgwire.Result {
		r := db.answer(sql, args)
		if len(r.Columns) == 1 && r.Columns[0].Name == "version" && len(r.Rows) == 1 {
			r.Rows[0][0] = text(want)
		}
		return r
	}}
	defer pgwire.Start(srv, nil, []string{"db"}, []int{cliPort})()
	stdout, stderr, err := runCommand([]string{"ping", "--host=db", "--port=" + strconv.Itoa(cliPort), "--sslmode=disable"})
	sym.Assert(err == nil, "the command succeeds")
	sym.Assert(stdout == want+"\n", "exactly the server's version is printed")
	sym.Assert(stderr == "", "nothing is written to standard error")
	sym.Reach("printed")
}

// CommandModes connects with SSL modes.
//
//verif:harness C37 sslmode
//verif:bound the commands ping and inspect with each SSL mode and some texts that are none, to servers with TLS or without, which accept connections without TLS or not
//verif:reach connected failed invalid
func CommandModes() {
	defer memfs.Setup()()
	modes := []string{"disable", "allow", "prefer", "require", "verify-full", "verify-ca", "Disable", "on"}
	mode := sym.Choose("mode", len(modes))
	args := []string{[]string{"ping", "inspect"}[sym.Choose("command", 2)], "--host=db", "--port=" + strconv.Itoa(cliPort), "--sslmode=" + modes[mode]}
	a := pgwire.Attempt{TLS: sym.Bool("tls"), DenyText: sym.Bool("denytext")}
	db := &database{searchPath: "a", timezone: "b", hasView: true}
	srv := &pgwire.Server{Attempts: []pgwire.Attempt{a}, Answer: db.answer}
	defer pgwire.Start(srv, nil, []string{"db"}, []int{cliPort})()
	run, err := cli.RegisterCommands("1").Parse(args)
	if mode > 4 {
		sym.Assert(err != nil, "what is no SSL mode is rejected")
		sym.Reach("invalid")
		return
	}
	sym.Assert(err == nil, "the command line is accepted")
	var out, errs bytes.Buffer
	err = run(&out, &errs)
	plain := !a.DenyText
	ok := []bool{plain, plain || a.TLS, plain || a.TLS, a.TLS, false}[mode]
	sym.Assert((err == nil) == ok, "the command succeeds exactly if the SSL mode allows it")
	pgwire.Lock(func() {
		for _, s := range srv.Sessions {
			tls := []bool{false, plain == false, a.TLS, true, true}[mode]
			sym.Assert(!s.Accepted || s.TLS == tls, "the connection is as secure as the SSL mode says")
			sym.Assert(!s.Accepted || s.Terminated, "the connection is ended")
		}
	})
	if !ok {
		sym.Assert(!strings.Contains(out.String(), "PostgreSQL") && !strings.Contains(out.String(), "{\n"), "without a connection no result is printed")
		sym.Reach("failed")
		return
	}
	sym.Reach("connected")
}

var fileNames = []string{"-x", "--", " ", "x ", "~", "a=b", "stdout", "-.hcl", "null", "a,b", "%s", "X.HCL", "x.hcl.gz", "a\\b", "$HOME", "*", "\xc3\xa9", "@", "x\n"}

// OutputNames describes databases in files with special names.
//
//verif:harness C37 filenames steps=200000000
//verif:bound one of 19 special names, or a constant of the commands' sources possibly with a letter before or after it, as the output file of inspect
//verif:reach file
func OutputNames() {
	want := description(unsorted(), nil)
	defer memfs.Setup()()
	name := ""
	if k := sym.Choose("name", len(fileNames)+1); k < len(fileNames) {
		name = fileNames[k]
	} else {
		name = sym.StrIn("before", 1, "-x") + sym.Literal("literal", "internal/commands,internal/cli", "!-~", 40) + sym.StrIn("after", 1, "-x")
		sym.Assume(name != "" && name != "-" && name != ".")
		for i := 0; i < len(name); i++ {
			sym.Assume(name[i] != '/')
		}
	}
	db := unsorted()
	srv := &pgwire.Server{Attempts: []pgwire.Attempt{{}}, Answer: db.answer}
	defer pgwire.Start(srv, nil, []string{"db"}, []int{cliPort})()
	stdout, stderr, err := runCommand([]string{"inspect", "--host=db", "--port=" + strconv.Itoa(cliPort), "--sslmode=disable", "--output=" + name})
	sym.Assert(err == nil, "the command succeeds")
	sym.Assert(stdout == "" && stderr == "", "nothing is printed")
	files := memfs.All()
	sym.Assert(len(files) == 1 && files[name] == want, "exactly the description is in the file")
	sym.Reach("file")
}

// Output describes databases in files.
//
//verif:harness C37 output steps=200000000
//verif:bound the command inspect with every combination of sort options, writing to standard output, by default or explicitly, a new file, an older and longer one, one in a missing directory, or a full device, under either spelling, on a server that fails at any of its first messages or never
//verif:reach stdout file unwritable failed
func Output() {
	o := options()
	want := description(unsorted(), o)
	defer memfs.Setup()()
	old := "# an older file\n" + want + want
	memfs.Put("old.hcl", old)
	args := []string{"inspect", "--host=db", "--port=" + strconv.Itoa(cliPort), "--sslmode=disable"}
	for _, x := range []struct {
		given bool
		flag  string
	}{{o.SortColumns, "--sort-columns"}, {o.SortChecks, "--sort-check-constraints"}, {o.SortIndexes, "--sort-indexes"}} {
		if x.given {
			args = append(args, x.flag)
		}
	}
	files := []string{"", "-", "new.hcl", "old.hcl", "missing/x.hcl", "/dev/full"}
	dest := sym.Choose("output", len(files))
	if dest > 0 && sym.Bool("long") {
		args = append(args, "--output="+files[dest])
	} else if dest == 1 {
		args = append(args, "-o-")
	} else if dest > 0 {
		args = append(args, "-o", files[dest])
	}
	db := unsorted()
	srv := &pgwire.Server{Attempts: []pgwire.Attempt{{}}, Answer: db.answer}
	if o.SortChecks == o.SortColumns && o.SortColumns == o.SortIndexes {
		srv.FaultAt, srv.Fault = 10*sym.Choose("at", 20), pgwire.Reject
	}
	defer pgwire.Start(srv, nil, []string{"db"}, []int{cliPort})()

	stdout, stderr, err := runCommand(args)

	faulted := false
	pgwire.Lock(func() {
		faulted = srv.Faulted
		for _, s := range srv.Sessions {
			sym.Assert(!s.Accepted || s.Terminated, "the connection is ended")
		}
	})
	files2 := memfs.All()
	if faulted || dest > 3 {
		sym.Assert(err != nil, "a failure is reported")
		sym.Assert(!faulted || !strings.Contains(stdout, "{\n"), "after a failure no description is printed")
		_, made := files2["new.hcl"]
		sym.Assert(!made && files2["old.hcl"] == old, "after a failure no file is changed")
		if faulted {
			sym.Reach("failed")
		} else {
			sym.Reach("unwritable")
		}
		return
	}
	sym.Assert(err == nil, "the command succeeds")
	sym.Assert(stderr == "", "nothing is written to standard error")
	if dest < 2 {
		sym.Assert(stdout == want, "exactly the description is printed")
		sym.Assert(files2["old.hcl"] == old && len(files2) == 1, "no file is changed")
		sym.Reach("stdout")
		return
	}
	sym.Assert(stdout == "", "nothing is printed")
	sym.Assert(files2[files[dest]] == want, "exactly the description is in the file")
	sym.Assert(dest == 3 || files2["old.hcl"] == old, "no other file is changed")
	sym.Reach("file")
}
