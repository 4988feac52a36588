// Package pgconn checks how connections are made (C24, C25).
package pgconn

import (
	"bytes"
	"strconv"

	"github.com/jackc/pgx"
	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	rbpg "github.com/sjansen/pgutil/internal/runbook/pg"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/pgwire"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

const port = 54329

var modes = []string{"disable", "allow", "prefer", "require", "verify-full"}

// steps are what a mode does: connections as plain text, with TLS, or with verified TLS.
var steps = map[string]string{"disable": "p", "allow": "pt", "prefer": "tp", "require": "t", "verify-full": "v"}

func letters(name string, n int) string {
	return sym.StrNIn(name, n, "abcdefghijklmnopqrstuvwxyz")
}

// optional returns a word or nothing.
func optional(name string) string {
	if n := sym.Param("any", 0); n > 0 {
		if any != name || name == "host" || name == "PGHOST" {
			return map[string]string{"host": "db", "user": "u"}[name]
		}
		s := ""
		if sym.Bool("literal") {
			s = sym.StrIn("before", 1, "a \n") + sym.Literal("value.literal", "internal/pg,internal/runbook/pg,internal/commands", "", 20) + sym.StrIn("after", 1, "a \r")
		} else {
			s = sym.Str("value", n)
		}
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] != 0)
		}
		return s
	}
	if sym.Bool(name + ".given") {
		return letters(name, 2)
	}
	return ""
}

func first(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

var hostWords = []string{"localhost", "local", "127.0.0.1", "db.example.com", "localhost.localdomain", "postgres", "a-b", "localdb", "db1", "prod", "test", "internal", "socket", "pgbouncer"}

// aHost is a host name.
func aHost(name string) string {
	if sym.Param("words", 0) == 0 {
		return letters(name, 2)
	}
	if sym.Bool(name + ".word") {
		return hostWords[sym.Choose(name, len(hostWords))]
	}
	s := sym.Literal(name+".literal", "internal/pg,internal/runbook/pg,internal/commands", "a-z", 20)
	sym.Assume(s != "")
	return s + sym.StrIn(name+".more", 1, "abcdefghijklmnopqrstuvwxyz0123456789")
}

var any string

func attempt(name string) pgwire.Attempt {
	return pgwire.Attempt{
		Refuse:   sym.Bool(name + ".refuse"),
		TLS:      sym.Bool(name + ".tls"),
		DenyTLS:  sym.Bool(name + ".denytls"),
		DenyText: sym.Bool(name + ".denytext"),
		Trusted:  sym.Bool(name + ".trusted"),
	}
}

// Modes connects with every mode to every kind of server.
//
//verif:harness C24 modes
//verif:harness C24 hosts words=1
//verif:bound (hosts) hosts that are well-known words or short constants of the connecting packages' sources followed by up to one letter or digit; no explicit mode
//verif:bound every mode, explicit or of the environment, host and password given by option or environment, and server that supports TLS or not, accepts connections or not, with a trusted certificate or not, for the host or another, each differently for the fallback connection
//verif:reach connected failed verified
func Modes() {
	defer memfs.Setup()()
	o := &pg.Options{Log: logger.Discard(), Port: port, Username: "u"}
	env := map[string]string{}
	words := sym.Param("words", 0) == 1
	if !words {
		if i := sym.Choose("mode", len(modes)+1); i > 0 {
			o.SSLMode = modes[i-1]
		}
	}
	mode := o.SSLMode
	envMode := 0
	switch sym.Choose("hosts", 3) {
	case 0:
		o.Host = aHost("host")
	case 1:
		env["PGHOST"] = aHost("envhost")
	case 2:
		o.Host = aHost("host")
		env["PGHOST"] = letters("envhost", 2)
		sym.Assume(sym.Not(sym.EqStr(o.Host, env["PGHOST"])))
	}
	host := first(o.Host, env["PGHOST"])
	switch sym.Choose("password", 3) {
	case 1:
		o.Password = "x"
	case 2:
		env["PGPASSWORD"] = "x"
	}
	if !words && (mode == "" || sym.Bool("envmode.given")) {
		if envMode = sym.Choose("envmode", len(modes)+1); envMode > 0 {
			env["PGSSLMODE"] = modes[envMode-1]
		}
	}
	if mode == "" {
		mode = first(env["PGSSLMODE"], "prefer")
		if o.Password != "" || env["PGPASSWORD"] != "" {
			mode = "verify-full"
		}
	}
	srv := &pgwire.Server{}
	if words {
		srv.Attempts = []pgwire.Attempt{{TLS: sym.Bool("tls"), Trusted: sym.Bool("trusted")}, {TLS: sym.Bool("second")}, {TLS: true}}
	} else {
		srv.Attempts = []pgwire.Attempt{attempt("first"), attempt("second"), {TLS: true}}
	}
	for i := range srv.Attempts {
		srv.Attempts[i].CertFor = host
	}
	hosts := []string{host}
	if other := first(env["PGHOST"], "other"); mode == "verify-full" && sym.Bool("other") && other != host {
		srv.Attempts[0].CertFor = other
		hosts = append(hosts, other)
	}
	defer pgwire.Start(srv, env, hosts, []int{port})()

	conn, err := pg.New(o)

	ok, n := false, 0
	for _, step := range steps[mode] {
		a := srv.Attempts[n]
		n++
		if a.Refuse {
			continue
		}
		if step == 'p' {
			ok = !a.DenyText
		} else {
			ok = a.TLS && !a.DenyTLS && (step == 't' || a.Trusted && a.CertFor == host)
		}
		if ok {
			break
		}
	}
	pgwire.Lock(func() {
		sym.Assert(len(srv.Sessions) <= n, "no more connections are made than the mode allows")
		for i, s := range srv.Sessions {
			if srv.Attempts[i].Refuse {
				continue
			}
			sym.Assert(s.Host == host, "connections are made to the host")
			step := steps[mode][i]
			if step == 'p' {
				sym.Assert(!s.TLS, "TLS is not used")
				continue
			}
			sym.Assert(s.TLS == srv.Attempts[i].TLS, "TLS is asked for")
			sym.Assert(s.TLS || len(s.Params) == 0, "nothing is sent without TLS")
			if step == 'v' {
				sym.Assert(len(s.Params) == 0 || srv.Attempts[i].Trusted && srv.Attempts[i].CertFor == host,
					"nothing is sent to a server that is not verified")
			}
		}
		sym.Assert(len(srv.Sessions) == n, "every connection the mode allows is tried")
	})
	sym.Assert((err == nil) == ok, "the connection is made exactly if the mode allows it")
	if !ok {
		sym.Assert(conn == nil, "there is no connection if there is an error")
		sym.Reach("failed")
		return
	}
	if mode == "verify-full" {
		sym.Reach("verified")
	}
	sym.Reach("connected")
	conn.Close()
}

// Invalid connects with modes that do not exist.
//
//verif:harness C24 invalid quick:len=3 thorough:len=5
//verif:bound every mode of up to len bytes, every mode that differs from a valid one in one byte, and some others
//verif:reach rejected
func Invalid() {
	defer memfs.Setup()()
	o := &pg.Options{Log: logger.Discard(), Host: "db", Port: port, Username: "u"}
	switch sym.Choose("what", 3) {
	case 0:
		o.SSLMode = sym.Str("mode", sym.Param("len", 3))
	case 1:
		m := []byte(modes[sym.Choose("near", len(modes))])
		m[sym.Choose("at", len(m))] = sym.Byte("byte")
		o.SSLMode = string(m)
	case 2:
		list := []string{"verify-ca", "Require", "require ", "verify-full\x00", "verify", "verify-full,disable"}
		o.SSLMode = list[sym.Choose("other", len(list))]
	}
	sym.Assume(o.SSLMode != "")
	for _, m := range modes {
		sym.Assume(o.SSLMode != m)
	}
	srv := &pgwire.Server{Attempts: []pgwire.Attempt{{TLS: true, CertFor: "db", Trusted: true}}}
	defer pgwire.Start(srv, nil, []string{"db"}, []int{port})()
	conn, err := pg.New(o)
	sym.Assert(err != nil && conn == nil, "an unknown mode is rejected")
	pgwire.Lock(func() { sym.Assert(len(srv.Sessions) == 0, "an unknown mode is rejected before connecting") })
	sym.Reach("rejected")
}

// Options connects with options and environment variables.
//
//verif:harness C25 options
//verif:harness C25 values any=3 thorough:any=4
//verif:bound (values) one of user, password and database, given by an option or the environment, is any text without NUL of up to any bytes, or a constant of the packages' sources with up to one more byte at its ends
//verif:bound every combination of options and environment variables for host, port, user, password and database being given, with every word of two letters; connections of commands, runbook targets and the library
//verif:reach connected
func Options() {
	defer memfs.Setup()()
	if sym.Param("any", 0) > 0 {
		any = []string{"user", "password", "database", "PGUSER", "PGPASSWORD", "PGDATABASE"}[sym.Choose("what", 6)]
	}
	host, user, password, database := optional("host"), optional("user"), "", optional("database")
	entry := sym.Choose("entry", 3)
	if entry != 2 {
		password = optional("password")
	}
	env := map[string]string{}
	for _, v := range []string{"PGHOST", "PGUSER", "PGPASSWORD", "PGDATABASE"} {
		if s := optional(v); s != "" {
			env[v] = s
		}
	}
	sym.Assume(host != "" || env["PGHOST"] != "")
	p, wantPort := uint16(0), "5432"
	if sym.Bool("envport") {
		env["PGPORT"] = strconv.Itoa(port + 1)
		wantPort = env["PGPORT"]
	}
	if sym.Bool("port") {
		p, wantPort = port, strconv.Itoa(port)
	}
	srv := &pgwire.Server{Attempts: []pgwire.Attempt{{Password: true}}, Answer: version}
	wantHost := first(host, env["PGHOST"])
	defer pgwire.Start(srv, env, []string{wantHost}, []int{5432, port, port + 1})()

	var err error
	switch entry {
	case 0:
		var conn *pg.Conn
		conn, err = pg.New(&pg.Options{
			Log: logger.Discard(), Host: host, Port: p, SSLMode: "disable",
			Username: user, Password: password, Database: database,
		})
		if err == nil {
			err = conn.Close()
		}
	case 1:
		t := (&rbpg.TargetFactory{Log: logger.Discard()}).NewTarget().(*rbpg.Target)
		t.Host, t.Port, t.SSLMode, t.Username, t.Password, t.Database = host, p, "disable", user, password, database
		err = t.Start()
		if err == nil {
			err = t.Stop()
		}
	case 2:
		var out bytes.Buffer
		base := &commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &out}}
		cmd := &commands.PingCmd{Host: host, Port: p, SSLMode: "disable", DBName: database, Username: user}
		err = cmd.Run(base)
		sym.Assert(out.String() == "PostgreSQL 1\n", "the server's version is printed")
	}
	sym.Assert(err == nil, "the connection is made and closed")
	pgwire.Lock(func() {
		sym.Assert(len(srv.Sessions) == 1, "one connection is made")
		s := srv.Sessions[0]
		sym.Assert(s.Host == wantHost, "the host is the option's or else the environment's")
		sym.Assert(s.Port == wantPort, "the port is the option's or else the environment's")
		if u := first(user, env["PGUSER"]); u != "" {
			sym.Assert(s.Params["user"] == u, "the user is the option's or else the environment's")
		}
		sym.Assert(s.Params["database"] == first(database, env["PGDATABASE"]), "the database is the option's or else the environment's")
		sym.Assert(s.Password == first(password, env["PGPASSWORD"]), "the password is the option's or else the environment's")
		sym.Assert(s.Terminated, "the connection is ended")
	})
	sym.Reach("connected")
}

func version(sql string, args []string) *pgwire.Result {
	return &pgwire.Result{
		Columns: []pgwire.Column{{Name: "version", Type: pgwire.Text}},
		Rows:    [][]pgwire.Value{{{Text: "PostgreSQL 1"}}},
	}
}

// Retries connects to servers that fail.
//
//verif:harness C25 retries quick:retries=3 thorough:retries=5
//verif:harness C25 patience many=6 thorough:many=8 samples=2
//verif:bound -1 to retries retries, or many of them of which only the last can succeed, and every sequence of refused, rejected and accepted connections
//verif:reach connected failed
func Retries() {
	defer memfs.Setup()()
	max := sym.Param("retries", 3)
	retries := 0
	many := sym.Param("many", 0)
	if many > 0 {
		retries = many
	} else {
		retries = sym.Choose("retries", max+2) - 1
	}
	srv := &pgwire.Server{Answer: version}
	allowed := retries + 1
	if allowed < 1 {
		allowed = 1
	}
	for i := 0; i < allowed; i++ {
		id := strconv.Itoa(i)
		if i < many {
			srv.Attempts = append(srv.Attempts, pgwire.Attempt{Refuse: true})
			continue
		}
		srv.Attempts = append(srv.Attempts, pgwire.Attempt{Refuse: sym.Bool("refuse" + id), DenyText: sym.Bool("deny" + id)})
	}
	srv.Attempts = append(srv.Attempts, pgwire.Attempt{})
	defer pgwire.Start(srv, nil, []string{"db"}, []int{port})()

	entry := sym.Bool("target")
	var conn *pg.Conn
	var err error
	t := (&rbpg.TargetFactory{Log: logger.Discard()}).NewTarget().(*rbpg.Target)
	if entry {
		t.Host, t.Port, t.SSLMode, t.Username, t.ConnectRetries = "db", port, "disable", "u", retries
		err = t.Start()
	} else {
		conn, err = pg.New(&pg.Options{
			Log: logger.Discard(), Host: "db", Port: port, SSLMode: "disable", Username: "u", ConnectRetries: retries,
		})
	}

	n, ok := 0, false
	for n < allowed && !ok {
		ok = !srv.Attempts[n].Refuse && !srv.Attempts[n].DenyText
		n++
	}
	pgwire.Lock(func() {
		sym.Assert(len(srv.Sessions) <= n, "connecting stops at the first success and after the last retry")
		sym.Assert(len(srv.Sessions) == n, "connecting is retried")
		sym.Assert(len(pgwire.Pauses) == n-1, "there is a pause between attempts")
		for i, p := range pgwire.Pauses {
			sym.Assert(p > 0, "there is a pause between attempts")
			if i > 0 && !sym.Native() {
				sym.Assert(p >= pgwire.Pauses[i-1], "pauses never shrink")
			} else if i > 0 {
				sym.Assert(p+p/4+20 >= pgwire.Pauses[i-1], "pauses never shrink")
			}
		}
	})
	if !ok {
		sym.Assert(err != nil && conn == nil, "if every attempt fails there is an error and no connection")
		_, rejected := err.(pgx.PgError)
		sym.Assert(rejected == !srv.Attempts[n-1].Refuse, "the last error is returned")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil, "if an attempt succeeds there is no error")
	if entry {
		err = t.Stop()
	} else {
		_, err = conn.ServerVersion()
		sym.Assert(err == nil, "the connection works")
		err = conn.Close()
	}
	sym.Assert(err == nil, "the connection is closed")
	pgwire.Lock(func() { sym.Assert(srv.Sessions[n-1].Terminated, "the connection is ended") })
	sym.Reach("connected")
}
