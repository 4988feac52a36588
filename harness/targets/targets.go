// Package targets checks the settings and task classes of targets (C33).
package targets

import (
	"bytes"
	"context"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook/demo"
	"github.com/sjansen/pgutil/internal/runbook/pg"
	"github.com/sjansen/pgutil/internal/runbook/sh"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

var stdout, stderr bytes.Buffer

func factory(class int) types.TargetFactory {
	stdout.Reset()
	stderr.Reset()
	log := logger.Discard()
	switch class {
	case 0:
		return &demo.TargetFactory{Log: log, Stdout: &stdout}
	case 1:
		return &sh.TargetFactory{Log: log, Basedir: "/", Stdout: &stdout, Stderr: &stderr}
	}
	return &pg.TargetFactory{Log: log}
}

// Settings sets the concurrency of targets.
//
//verif:harness C33 settings
//verif:bound every 64-bit concurrency setting of every target class, set or not
//verif:reach accepted rejected
func Settings() {
	t := factory(sym.Choose("class", 3)).NewTarget()
	want := 1
	if _, ok := t.(*demo.Target); !ok && sym.Bool("set") {
		want = int(sym.Int64("concurrency"))
		switch x := t.(type) {
		case *sh.Target:
			x.Concurrency = want
		case *pg.Target:
			x.Concurrency = want
		}
	}
	err := t.Analyze()
	if err != nil {
		sym.Assert(want < 1, "only a concurrency below one is rejected")
		sym.Reach("rejected")
		return
	}
	sym.Assert(want >= 1, "a concurrency below one is rejected")
	sym.Assert(t.ConcurrencyLimit() == want, "a target reports its configured concurrency")
	sym.Assert(t.Analyze() == nil && t.ConcurrencyLimit() == want, "checking changes nothing")
	sym.Reach("accepted")
}

// Independent makes several targets and tasks.
//
//verif:harness C33 independent
//verif:bound two targets of any class with any settings, two tasks of each
//verif:reach end
func Independent() {
	class := sym.Choose("class", 3)
	f := factory(class)
	a, b := f.NewTarget(), f.NewTarget()
	n := int(sym.Int64("concurrency"))
	text := sym.Str("text", 2)
	switch x := a.(type) {
	case *sh.Target:
		x.Concurrency = n
		sym.Assert(b.(*sh.Target).Concurrency == 1, "targets share nothing")
	case *pg.Target:
		x.Concurrency, x.Host = n, text
		sym.Assert(b.(*pg.Target).Concurrency == 1 && b.(*pg.Target).Host == "", "targets share nothing")
	case *demo.Target:
		x.String = text
		sym.Assert(b.(*demo.Target).String == "", "targets share nothing")
	}
	if class != 0 {
		p, err := a.NewTaskConfig("exec")
		sym.Assert(err == nil, "a documented task class is accepted")
		q, _ := a.NewTaskConfig("")
		switch x := p.(type) {
		case *sh.Exec:
			x.Args = []string{text}
			sym.Assert(len(q.(*sh.Exec).Args) == 0, "tasks share nothing")
		case *pg.Exec:
			x.SQL = text
			sym.Assert(q.(*pg.Exec).SQL == "", "tasks share nothing")
		}
	}
	sym.Reach("end")
}

// Classes creates tasks of any class.
//
//verif:harness C33 classes len=5 thorough:len=10
//verif:bound every class name of up to len bytes, for every target class
//verif:reach created unknown
func Classes() {
	class := sym.Choose("class", 3)
	classes(class, sym.Str("name", sym.Param("len", 1)))
}

// Near creates tasks of classes that almost have a documented name.
//
//verif:harness C33 near before=1 after=1 thorough:before=2 thorough:after=2
//verif:bound the documented class names with up to before bytes put before them, up to after bytes after them, any of their bytes changed or left out, for every target class
//verif:reach created unknown
func Near() {
	class := sym.Choose("class", 3)
	name := []string{"", "exec", "echo", "fail", "rev", "rot13", "sleep"}[sym.Choose("near", 7)]
	switch {
	case sym.Bool("around"):
		name = sym.Str("before", sym.Param("before", 1)) + name + sym.Str("after", sym.Param("after", 1))
	case name != "":
		i := sym.Choose("at", len(name))
		name = name[:i] + sym.Str("instead", 1) + name[i+1:]
	}
	classes(class, name)
}

func classes(class int, name string) {
	t := factory(class).NewTarget()
	cfg, err := t.NewTaskConfig(name)
	if err != nil {
		known := []string{"echo", "fail", "rev", "rot13", "sleep"}
		if class != 0 {
			known = []string{"", "exec"}
		}
		for _, k := range known {
			sym.Assert(sym.Not(sym.EqStr(name, k)), "every documented task class can be created")
		}
		sym.Reach("unknown")
		return
	}
	want := "exec"
	switch cfg.(type) {
	case *demo.Echo:
		want = "echo"
	case *demo.Fail:
		want = "fail"
	case *demo.Rev:
		want = "rev"
	case *demo.Rot13:
		want = "rot13"
	case *demo.Sleep:
		want = "sleep"
	case *sh.Exec:
		sym.Assert(class == 1, "a target creates tasks of its own classes")
	case *pg.Exec:
		sym.Assert(class == 2, "a target creates tasks of its own classes")
	default:
		sym.Fail("a target creates tasks of its own classes")
	}
	if want != "exec" {
		sym.Assert(class == 0, "a target creates tasks of its own classes")
	} else if name == "" {
		sym.Reach("created")
		return
	}
	sym.Assert(name == want, "only documented task classes can be created")
	sym.Reach("created")
}

type other struct{}

func (other) Check() error { return nil }

// Foreign gives targets tasks of other classes.
//
//verif:harness C33 foreign
//verif:bound every pair of a target and a task of another class, including none and ones made elsewhere, with any text
//verif:reach end
func Foreign() {
	class := sym.Choose("class", 3)
	t := factory(class).NewTarget()
	text := sym.Str("text", 2)
	if x, ok := t.(*demo.Target); ok {
		x.String = text
	}
	var tasks []types.TaskConfig
	tasks = append(tasks, nil, other{}, &other{})
	if class != 0 {
		tasks = append(tasks, &demo.Echo{}, &demo.Fail{}, &demo.Rev{}, &demo.Rot13{}, &demo.Sleep{})
	}
	if class != 1 {
		tasks = append(tasks, &sh.Exec{Args: []string{"echo", "x"}})
	}
	if class != 2 {
		tasks = append(tasks, &pg.Exec{SQL: text})
	}
	task := tasks[sym.Choose("task", len(tasks))]
	err := t.Handle(context.Background(), task)
	sym.Assert(err != nil && err != demo.ErrFail, "a task of another class is an error")
	sym.Assert(stdout.Len() == 0 && stderr.Len() == 0, "a task of another class has no effect")
	if x, ok := t.(*demo.Target); ok {
		sym.Assert(x.String == text, "a task of another class has no effect")
	}
	sym.Reach("end")
}

// Checks checks the settings of tasks.
//
//verif:harness C33 checks len=3
//verif:bound PostgreSQL tasks with any SQL of up to len bytes; demo tasks; every number of seconds to sleep
//verif:reach end
func Checks() {
	if sym.Bool("sql") {
		sql := sym.Str("sql", sym.Param("len", 1))
		x := &pg.Exec{SQL: sql}
		err := x.Check()
		sym.Assert((err == nil) == (len(sql) > 0), "a PostgreSQL task is accepted exactly when it has SQL")
		sym.Assert(x.SQL == sql, "checking does not change the SQL")
		sym.Reach("end")
		return
	}
	n := int(sym.Int64("seconds"))
	s := &demo.Sleep{Seconds: n}
	sym.Assert(s.Check() == nil, "demo tasks are accepted")
	if n >= 1 {
		sym.Assert(s.Seconds == n, "checking does not change the seconds")
	} else {
		sym.Assert(s.Seconds >= 1, "sleeping takes at least a second")
	}
	tasks := []types.TaskConfig{&demo.Echo{}, &demo.Fail{}, &demo.Rev{}, &demo.Rot13{}}
	sym.Assert(tasks[sym.Choose("task", 4)].Check() == nil, "demo tasks are accepted")
	sym.Reach("end")
}
