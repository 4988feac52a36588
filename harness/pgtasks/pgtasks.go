// Package pgtasks checks the tasks that execute SQL (C36).
package pgtasks

import (
	"bytes"
	"context"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/pg"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/pgwire"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

const port = 54334

// executed lists what the server was asked to execute.
func executed(srv *pgwire.Server) (list []string) {
	for _, s := range srv.Sessions {
		for _, q := range s.Queries {
			if !strings.Contains(q, "pg_type") {
				list = append(list, q)
			}
		}
	}
	return list
}

var statements = []string{
	"SELECT 1; SELECT 2", "  select 'a;''b' ;\n", "-- comment\nDELETE FROM \"t\";", "SELECT $1, '%s %d', E'\\n'", "BEGIN; DROP TABLE \"ä\"; COMMIT;",
}

// Tasks executes tasks.
//
//verif:harness C36 tasks quick:tasks=2 quick:len=2 thorough:tasks=3 thorough:len=3
//verif:bound one to tasks tasks on one connection, each of which has up to len arbitrary bytes except NUL, one of five longer texts with several statements, comments and quotes, or the SQL of the task before it as its SQL, and which the server accepts or rejects; the connection may be lost before any of them
//verif:reach accepted rejected lost
func Tasks() {
	defer memfs.Setup()()
	n := sym.Choose("tasks", sym.Param("tasks", 2)) + 1
	long := sym.Choose("long", n)
	rejects := make([]bool, n)
	var list []string
	srv := &pgwire.Server{Attempts: []pgwire.Attempt{{}}}
	srv.Answer = func(sql string, args []string) *pgwire.Result {
		r := &pgwire.Result{}
		if i := len(executed(srv)) - 1; i < len(rejects) && rejects[i] {
			r.Err = "42601"
		}
		return r
	}
	for i := range rejects {
		id := strconv.Itoa(i)
		rejects[i] = sym.Bool("reject" + id)
		s := ""
		if i == long && sym.Bool("statement") {
			s = statements[sym.Choose("statement"+id, len(statements))]
		} else if i == long {
			s = sym.StrN("sql"+id, sym.Choose("len", sym.Param("len", 2))+1)
			for j := 0; j < len(s); j++ {
				sym.Assume(s[j] != 0)
			}
		} else if i > 0 && sym.Bool("same"+id) {
			s = list[i-1]
		} else {
			s = "UPDATE " + id
		}
		list = append(list, s)
	}
	lost := sym.Choose("lost", n+1)
	sym.Assume(lost == n || !rejects[lost])
	defer pgwire.Start(srv, nil, []string{"db"}, []int{port})()

	t := (&pg.TargetFactory{Log: logger.Discard()}).NewTarget().(*pg.Target)
	t.Host, t.Port, t.SSLMode, t.Username = "db", port, "disable", "u"
	err := t.Start()
	sym.Assert(err == nil, "the target starts")
	pgwire.Lock(func() { sym.Assert(len(executed(srv)) == 0, "nothing is executed before there is a task") })
	for i := range list {
		if i == lost {
			pgwire.Lock(func() { srv.Fault, srv.FaultAt = pgwire.Drop, srv.Steps+1 })
		}
		config, err := t.NewTaskConfig([]string{"", "exec"}[i%2])
		x, ok := config.(*pg.Exec)
		sym.Assert(err == nil && ok, "the task's configuration is made")
		x.SQL = list[i]
		sym.Assert(x.Check() == nil, "the task is valid")
		err = t.Handle(context.Background(), x)
		switch {
		case i >= lost:
			sym.Assert(err != nil, "a task fails if the connection is lost")
			sym.Reach("lost")
		case rejects[i]:
			sym.Assert(err != nil, "a task fails if its SQL is rejected")
			sym.Reach("rejected")
		default:
			sym.Assert(err == nil, "a task succeeds if its SQL is accepted")
			sym.Reach("accepted")
		}
		sym.Assert(sym.EqStr(x.SQL, list[i]), "the task is not changed")
	}
	if lost < n {
		t.Stop()
	} else {
		sym.Assert(t.Stop() == nil, "the target stops")
	}
	pgwire.Lock(func() {
		sym.Assert(len(srv.Sessions) == 1, "there is one connection")
		got := executed(srv)
		want := n
		if lost < n {
			want = lost + 1
		}
		sym.Assert(len(got) == want, "each task is executed once")
		for i := range got {
			sym.Assert(sym.EqStr(got[i], list[i]), "exactly the task's SQL is executed")
		}
		s := srv.Sessions[0]
		sym.Assert(s.Closed || sym.Native(), "the connection is closed")
		sym.Assert(s.Terminated || lost < n, "the connection is ended properly")
	})
}

// Runbook runs runbooks.
//
//verif:harness C36 runbook retries=2 quick:tasks=3 thorough:tasks=4 thorough:retries=3
//verif:bound a runbook of up to tasks tasks for a target, each of which follows any of those before it or not and which the server accepts or rejects; up to retries retries and refused connections, more than that too; a target for one or two tasks at once (for one task, or two with up to one retry, in the latter case); every interleaving
//verif:reach success failure refused
func Runbook() {
	defer memfs.Setup()()
	n := sym.Choose("tasks", sym.Param("tasks", 2)) + 1
	after := make([][]int, n)
	rejects := map[string]bool{}
	skipped := make([]bool, n)
	any := false
	text := ""
	for i := range after {
		id := strconv.Itoa(i)
		rejects["task "+id] = sym.Bool("reject" + id)
		list := ""
		for j := 0; j < i; j++ {
			if sym.Bool("after" + id + "." + strconv.Itoa(j)) {
				after[i] = append(after[i], j)
				list += `,"t` + strconv.Itoa(j) + `"`
				skipped[i] = skipped[i] || skipped[j] || rejects["task "+strconv.Itoa(j)]
			}
		}
		any = any || rejects["task "+id]
		text += `,"t` + id + `":{"target":"p","after":[` + strings.TrimPrefix(list, ",") + `],"config":{"sql":"task ` + id + `"}}`
	}
	retries, concurrency := sym.Choose("retries", sym.Param("retries", 1)+1), sym.Choose("concurrency", 2)+1
	refused := sym.Choose("refused", retries+2)
	sym.Assume(n == 1 || refused <= 1 && retries <= 1 && (concurrency == 1 || n == 2))
	memfs.Put("x.json", `{"targets":{"p":{"class":"pg","config":{"host":"db","port":`+strconv.Itoa(port)+
		`,"sslmode":"disable","username":"me","database":"mine","concurrency":`+strconv.Itoa(concurrency)+`,"connect_retries":`+strconv.Itoa(retries)+`}}},"tasks":{`+text[1:]+`}}`)
	srv := &pgwire.Server{}
	for i := 0; i < refused; i++ {
		srv.Attempts = append(srv.Attempts, pgwire.Attempt{Refuse: true})
	}
	srv.Attempts = append(srv.Attempts, pgwire.Attempt{})
	srv.Answer = func(sql string, args []string) *pgwire.Result {
		r := &pgwire.Result{}
		if rejects[sql] {
			r.Err = "42601"
		}
		return r
	}
	defer pgwire.Start(srv, nil, []string{"db"}, []int{port})()

	var out bytes.Buffer
	err := runbook.Run(&sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &out}, "x.json")

	pgwire.Lock(func() {
		got := executed(srv)
		if refused > retries {
			sym.Assert(err != nil, "a target that does not start is reported")
			sym.Assert(len(got) == 0, "nothing is executed if the target does not start")
			sym.Reach("refused")
			return
		}
		sym.Assert((err != nil) == any, "exactly failures are reported")
		at := map[string]int{}
		for i, s := range got {
			sym.Assert(at[s] == 0, "each task is executed once")
			at[s] = i + 1
		}
		count := 0
		for i := range after {
			pos := at["task "+strconv.Itoa(i)]
			sym.Assert(pos == 0 || !skipped[i], "no task is executed that follows a failed one")
			sym.Assert(pos > 0 || any, "without failures every task is executed")
			for _, j := range after[i] {
				sym.Assert(pos == 0 || at["task "+strconv.Itoa(j)] < pos, "tasks are executed after those they follow")
			}
			if pos > 0 {
				count++
			}
		}
		sym.Assert(count == len(got), "nothing else is executed")
		s := srv.Sessions[refused]
		sym.Assert(len(srv.Sessions) == refused+1, "there is one connection")
		sym.Assert(s.Params["user"] == "me" && s.Params["database"] == "mine", "the connection is the target's")
		sym.Assert(s.Terminated, "the connection is ended")
		if any {
			sym.Reach("failure")
		} else {
			sym.Reach("success")
		}
	})
}

// Many executes many tasks, or long ones.
//
//verif:harness C36 many steps=100000000 sizes=3 thorough:sizes=4
//verif:bound (many) 1, 9, 20 or (thorough) 50 tasks on one connection, one after the other, with texts of 12, 100, 1000 or 9000 bytes, one byte of which is arbitrary, and one of which may be rejected, the first, one in the middle or the last
//verif:reach accepted rejected
func Many() {
	defer memfs.Setup()()
	n := []int{1, 9, 20, 50}[sym.Choose("size", sym.Param("sizes", 3))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	length := []int{12, 100, 1000, 9000}[sym.Choose("length", 4)]
	reject := sym.Bool("reject")
	srv := &pgwire.Server{Attempts: []pgwire.Attempt{{}}}
	srv.Answer = func(sql string, args []string) *pgwire.Result {
		r := &pgwire.Result{}
		if i := len(executed(srv)) - 1; reject && i == at {
			r.Err = "42601"
		}
		return r
	}
	var list []string
	for i := 0; i < n; i++ {
		s := "UPDATE " + strconv.Itoa(i)
		s = strings.Repeat("-", length-len(s)) + s
		if len(s) > 50 {
			s = "/*" + s[2:40] + "*/" + s[42:]
		}
		if i == at {
			s = s[:length/2] + sym.StrNIn("byte", 1, "\t\n\r;:'\"$\\%?a \x7f\xff") + s[length/2+1:]
		}
		list = append(list, s)
	}
	defer pgwire.Start(srv, nil, []string{"db"}, []int{port})()
	t := (&pg.TargetFactory{Log: logger.Discard()}).NewTarget().(*pg.Target)
	t.Host, t.Port, t.SSLMode, t.Username = "db", port, "disable", "u"
	sym.Assert(t.Start() == nil, "the target starts")
	for i := range list {
		config, err := t.NewTaskConfig("exec")
		x, ok := config.(*pg.Exec)
		sym.Assert(err == nil && ok, "the task's configuration is made")
		x.SQL = list[i]
		sym.Assert(x.Check() == nil, "the task is valid")
		err = t.Handle(context.Background(), x)
		if reject && i == at {
			sym.Assert(err != nil, "a task fails if its SQL is rejected")
			sym.Reach("rejected")
		} else {
			sym.Assert(err == nil, "a task succeeds if its SQL is accepted")
			sym.Reach("accepted")
		}
	}
	sym.Assert(t.Stop() == nil, "the target stops")
	pgwire.Lock(func() {
		got := executed(srv)
		sym.Assert(len(got) == n, "each task is executed once")
		for i := range got {
			sym.Assert(sym.EqStr(got[i], list[i]), "exactly the task's SQL is executed")
		}
		sym.Assert(len(srv.Sessions) == 1 && srv.Sessions[0].Terminated, "there is one connection, which is ended properly")
	})
}
