package tasks

import (
	"context"
	"time"

	rdemo "github.com/sjansen/pgutil/internal/runbook/demo"
	tdemo "github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

var slept time.Duration

// SleepStub replaces the one of time.
//
//verif:stub time.Sleep
func SleepStub(d time.Duration) { slept += d }

// After replaces the one of time.
//
//verif:stub time.After
func After(d time.Duration) <-chan time.Time {
	slept += d
	c := make(chan time.Time, 1)
	c <- time.Time{}
	return c
}

// NewTimer replaces the one of time.
//
//verif:stub time.NewTimer
func NewTimer(d time.Duration) *time.Timer {
	return &time.Timer{C: After(d)}
}

// StopTimer replaces the one of time: a timer which is only waited for has ended.
//
//verif:stub (*time.Timer).Stop
func StopTimer(t *time.Timer) bool { return len(t.C) > 0 }

// Sleep pauses.
//
//verif:harness C40 few seconds=3
//verif:harness C40 sleep
//verif:bound (few) up to seconds seconds; (sleep) every number of seconds up to the longest duration (292 years), sleep tasks of runbooks and task sets, before or after another task; the clock is a model in the symbolic runs (in the native ones, pauses are only known to be longer than a fraction of a second)
//verif:reach least longer
func Sleep() {
	var seconds int64
	if k := sym.Param("seconds", 0); k > 0 {
		seconds = int64(sym.Choose("few", k+2)) - 1
	} else {
		seconds = sym.Int64("seconds")
		sym.Assume(seconds <= 9223372036)
	}
	o := &out{}
	var text func() string
	var run func() error
	again := sym.Bool("again")
	if sym.Bool("taskset") {
		t := (&tdemo.TargetFactory{Stdout: o}).NewTarget().(*tdemo.Target)
		t.String = "x"
		text = func() string { return t.String }
		x, err := t.NewTask("sleep")
		sym.Assert(err == nil, "the demo task classes can be created")
		x.(*tdemo.Sleep).Seconds = int(seconds)
		sym.Assert(x.Ready() == nil, "the demo tasks are valid")
		run = func() error { return t.Run(context.TODO(), x) }
	} else {
		t := (&rdemo.TargetFactory{Stdout: o}).NewTarget().(*rdemo.Target)
		t.String = "x"
		text = func() string { return t.String }
		x, err := t.NewTaskConfig("sleep")
		sym.Assert(err == nil, "the demo task classes can be created")
		x.(*rdemo.Sleep).Seconds = int(seconds)
		sym.Assert(x.Check() == nil, "the demo tasks are valid")
		run = func() error { return t.Handle(context.TODO(), x) }
	}
	want := time.Second
	if seconds > 1 {
		want = time.Duration(seconds) * time.Second
		sym.Reach("longer")
	} else {
		sym.Reach("least")
	}
	if sym.Native() {
		if again && want == time.Second {
			sym.Assert(run() == nil, "a sleep task succeeds")
		}
		ended := make(chan error, 1)
		go func() { ended <- run() }()
		select {
		case err := <-ended:
			sym.Assert(err == nil, "a sleep task succeeds")
			sym.Fail("a sleep task pauses for the configured seconds, at least one")
		case <-time.After(300 * time.Millisecond):
		}
		return
	}
	for i := 0; i < 2; i++ {
		slept = 0
		sym.Assert(run() == nil, "a sleep task succeeds")
		sym.Assert(slept == want, "a sleep task pauses for the configured seconds, at least one")
		if !again {
			break
		}
	}
	sym.Assert(text() == "x" && o.text == "", "a sleep task changes and prints nothing")
}
