RUN = '''
package runbook_test
'''
RB = '''
package runbook

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook/types"
)

type demoTask struct {
	id   string
	wait chan struct{}
	fail error
}

func (t *demoTask) Check() error { return nil }

type demoTarget struct {
	mu      sync.Mutex
	limit   int
	onStart error
	stopped bool
	slow    time.Duration
	started bool
	ran     []string
}

func (t *demoTarget) Analyze() error        { return nil }
func (t *demoTarget) ConcurrencyLimit() int { return t.limit }
func (t *demoTarget) NewTaskConfig(string) (types.TaskConfig, error) {
	return nil, nil
}
func (t *demoTarget) Handle(ctx context.Context, c types.TaskConfig) error {
	x := c.(*demoTask)
	if x.wait != nil {
		<-x.wait
	}
	t.mu.Lock()
	t.ran = append(t.ran, x.id)
	t.mu.Unlock()
	return x.fail
}
func (t *demoTarget) Start() error {
	if t.onStart == nil {
		t.started = true
	}
	return t.onStart
}
func (t *demoTarget) Stop() error {
	time.Sleep(t.slow)
	t.mu.Lock()
	t.stopped = true
	t.mu.Unlock()
	return nil
}

func demoRun(t *testing.T, targets types.Targets, tasks types.Tasks) error {
	done := make(chan error, 1)
	go func() { done <- newRunner(logger.Discard(), targets, tasks).run() }()
	select {
	case err := <-done:
		return err
	case <-time.After(10 * time.Second):
		t.Fatal("the run does not end")
	}
	return nil
}

var errDemo = errors.New("demo")
'''
SEEDS = [
dict(id='dag-shared-dependents', prop='C01', pkg='internal/dag',
 edits=[('internal/dag/dependency.go', '''			g.dependencies[n].Add(m)
''', '''			implied := false
			for d := range edges {
				implied = implied || (*digraph)[m].Contains(d)
			}
			if implied {
				continue // ordered through another dependency
			}
			g.dependencies[n].Add(m)
''')],
 test='''
package dag

import "testing"

func TestDemo(t *testing.T) {
	g, err := NewDependencyGraph(map[string][]string{
		"a": nil, "b": {"a"}, "c": {"a", "b"},
	})
	if err != nil {
		t.Fatal(err)
	}
	g.Next("")
	for _, id := range g.Next("a") {
		if id == "c" {
			t.Fatal("c released before b completed")
		}
	}
}
''', needs='a task that depends on two tasks, one of which depends on the other', breaks='a wrong transitive reduction drops the edge to the later prerequisite, so the dependent is released before its prerequisite completed'),
dict(id='dag-frontier-break', prop='C02', pkg='internal/dag',
 edits=[('internal/dag/dependency.go', '''		p := head.next
		if g.dep''', '''		p := head.next
		if g.dependencies[p.id].Size() > 2 {
			break // the frontier cannot reach beyond this task
		}
		if g.dep''')],
 test='''
package dag

import "testing"

func TestDemo(t *testing.T) {
	// a blocks f, whose position in the order is before g
	g, err := NewDependencyGraph(map[string][]string{
		"a": nil, "b": {"a"}, "c": {"a"}, "d": {"a"}, "f": {"b", "c", "d"}, "g": nil,
	})
	if err != nil {
		t.Fatal(err)
	}
	for _, id := range g.Next("") {
		if id == "g" {
			return
		}
	}
	t.Fatal("g can start but is not released")
}
''', needs='a task with three open prerequisites in front of a ready one in the topological order', breaks='ready tasks behind it are not released'),
dict(id='dag-self-edge', prop='C03', pkg='internal/dag',
 edits=[('internal/dag/tsort.go', '''		for m := range nodeSet {
			tmp = append(tmp, m)
''', '''		for m := range nodeSet {
			if m == n && len(nodeSet) > 1 {
				continue
			}
			tmp = append(tmp, m)
''')],
 test='''
package dag

import "testing"

func TestDemo(t *testing.T) {
	_, err := NewDependencyGraph(map[string][]string{"a": {"a", "b"}, "b": nil})
	if err == nil {
		t.Fatal("a depends on itself")
	}
}
''', needs='a task that depends on itself and on another task', breaks='the self dependency is not reported as a cycle'),
dict(id='dag-remove-leaf', prop='C04', pkg='internal/dag',
 edits=[('internal/dag/directed.go', '''	for n := range nodes {
		g.RemoveEdge(n, node)
	}
	delete(nodes, node)
''', '''	delete(nodes, node)
	if len(nodes) < 3 {
		return // nothing left that could be related
	}
	for n := range nodes {
		g.RemoveEdge(n, node)
	}
''')],
 test='''
package dag

import "testing"

func TestDemo(t *testing.T) {
	g := &DirectedGraph{}
	g.AddEdge("a", "b")
	g.RemoveNode("b")
	if g.OutDegree("a") != 0 {
		t.Fatal("edge into a removed node survives")
	}
}
''', needs='removing a node from a graph of at most three nodes', breaks='edges into the removed node survive'),
dict(id='sched-reset-count', prop='C05', pkg='internal/runbook/scheduler',
 edits=[('internal/runbook/scheduler/scheduler.go', '''	s.targetLen[qid]--
''', '''	if len(s.pending[qid]) > 0 {
		s.targetLen[qid]--
	} else {
		s.targetLen[qid] = 0 // nothing waits for this target
	}
''')],
 test='''
package scheduler

import (
	"context"
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/types"
)

type tgt struct{ n int }

func (t *tgt) Analyze() error                                 { return nil }
func (t *tgt) ConcurrencyLimit() int                          { return t.n }
func (t *tgt) Handle(context.Context, types.TaskConfig) error { return nil }
func (t *tgt) NewTaskConfig(string) (types.TaskConfig, error) { return nil, nil }
func (t *tgt) Start() error                                   { return nil }
func (t *tgt) Stop() error                                    { return nil }

func TestDemo(t *testing.T) {
	s, ready, err := New(
		types.Targets{"x": &tgt{2}},
		types.Tasks{"a": {Target: "x"}, "b": {Target: "x"}, "c": {Target: "x", After: []string{"a"}}, "d": {Target: "x", After: []string{"a"}}},
	)
	if err != nil || len(ready["x"]) != 2 {
		t.Fatal(ready, err)
	}
	if ready, err = s.Next("a"); err != nil || len(ready["x"]) != 1 {
		t.Fatal("three tasks outstanding on x", ready, err)
	}
}
''', needs='two tasks running on a target with nothing waiting; one completes and unlocks two more', breaks='the count of outstanding tasks is forgotten, so the concurrency limit is exceeded'),
dict(id='sched-top-up', prop='C06', pkg='internal/runbook/scheduler',
 edits=[('internal/runbook/scheduler/scheduler.go', '''			n = len(tasks)
		}
''', '''			n = len(tasks)
		}
		if targetLen > 0 {
			n = 1 // top up a busy target one task at a time
		}
''')],
 test='''
package scheduler

import (
	"context"
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/types"
)

type tgt struct{ n int }

func (t *tgt) Analyze() error                                 { return nil }
func (t *tgt) ConcurrencyLimit() int                          { return t.n }
func (t *tgt) Handle(context.Context, types.TaskConfig) error { return nil }
func (t *tgt) NewTaskConfig(string) (types.TaskConfig, error) { return nil, nil }
func (t *tgt) Start() error                                   { return nil }
func (t *tgt) Stop() error                                    { return nil }

func TestDemo(t *testing.T) {
	s, ready, err := New(
		types.Targets{"x": &tgt{3}},
		types.Tasks{"a": {Target: "x"}, "b": {Target: "x"}, "c": {Target: "x", After: []string{"a"}}, "d": {Target: "x", After: []string{"a"}}},
	)
	if err != nil || len(ready["x"]) != 2 {
		t.Fatal(ready, err)
	}
	if ready, err = s.Next("a"); err != nil || len(ready["x"]) != 2 {
		t.Fatal("free capacity is not used", ready, err)
	}
}
''', needs='a target with limit three or more that is busy with one task when two more become ready', breaks='the freed capacity is not used and the run stalls'),
dict(id='runner-stop-after-done', prop='C07', pkg='internal/runbook',
 edits=[('internal/runbook/runner.go', '''		target.Stop()
		wg.Done()
	}()''', '''		wg.Done()
		target.Stop()
	}()''')],
 test=RB+'''
func TestDemo(t *testing.T) {
	x := &demoTarget{limit: 1, slow: 300 * time.Millisecond}
	if err := demoRun(t, types.Targets{"x": x}, types.Tasks{"a": {Target: "x", Config: &demoTask{id: "a"}}}); err != nil {
		t.Fatal(err)
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if !x.stopped {
		t.Fatal("the run ended before its target was stopped")
	}
}
''', needs='the interleaving in which the run returns between the goroutine reporting done and stopping its target', breaks='a run can end before its targets are stopped'),
dict(id='runner-retry', prop='C08', pkg='internal/runbook',
 edits=[('internal/runbook/runner.go', '''			err := target.Handle(ctx, x.task)
''', '''			err := target.Handle(ctx, x.task)
			if err != nil && x.message == "" {
				err = target.Handle(ctx, x.task) // transient failures
			}
''')],
 test=RB+'''
func TestDemo(t *testing.T) {
	x := &demoTarget{limit: 1}
	err := demoRun(t, types.Targets{"x": x}, types.Tasks{
		"a": {Target: "x", Config: &demoTask{id: "a", fail: errDemo}},
	})
	if err != errDemo || len(x.ran) != 1 {
		t.Fatal("executed twice", err, x.ran)
	}
}
''', needs='a failing task', breaks='the failing task is executed twice'),
dict(id='runner-early-done', prop='C08', pkg='internal/runbook',
 edits=[('internal/runbook/runner.go', '''			err := target.Handle(ctx, x.task)
			ended <- &endedMsg{taskID: x.taskID, err: err}
''', '''			err := target.Handle(ctx, x.task)
			if err != nil && len(ended) > 0 {
				log.Debugw("task failed after another", "task", x.taskID)
				failed = true
				continue
			}
			ended <- &endedMsg{taskID: x.taskID, err: err}
''')],
 test=RB+'''
type slowLog struct{}

func (slowLog) Sync() error { return nil }

func (slowLog) Debug(...interface{})           { time.Sleep(50 * time.Millisecond) }
func (slowLog) Debugf(string, ...interface{})  {}
func (slowLog) Debugw(string, ...interface{})  { time.Sleep(150 * time.Millisecond) }
func (slowLog) Info(...interface{})            {}
func (slowLog) Infof(string, ...interface{})   {}
func (slowLog) Infow(string, ...interface{})   {}
func (slowLog) Warn(...interface{})            {}
func (slowLog) Warnf(string, ...interface{})   {}
func (slowLog) Warnw(string, ...interface{})   {}
func (slowLog) Error(...interface{})           {}
func (slowLog) Errorf(string, ...interface{})  {}
func (slowLog) Errorw(string, ...interface{})  {}

func TestDemo(t *testing.T) {
	x, y, z := &demoTarget{limit: 1}, &demoTarget{limit: 1}, &demoTarget{limit: 1}
	w := make(chan struct{})
	go func() {
		time.Sleep(900 * time.Millisecond)
		close(w)
	}()
	tasks := types.Tasks{
		"a": {Target: "x", Config: &demoTask{id: "a", wait: w}},
		"b": {Target: "y", Config: &demoTask{id: "b", wait: w}},
		"c": {Target: "z", Config: &demoTask{id: "c", wait: make(chan struct{})}},
	}
	fw := make(chan struct{})
	tasks["c"].Config = &demoTask{id: "c", wait: fw, fail: errDemo}
	go func() {
		time.Sleep(1000 * time.Millisecond)
		close(fw)
	}()
	done := make(chan error, 1)
	go func() { done <- newRunner(slowLog{}, types.Targets{"x": x, "y": y, "z": z}, tasks).run() }()
	select {
	case err := <-done:
		if err != errDemo {
			t.Fatal("the failure is not reported:", err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("the run does not end")
	}
}
''', needs='a failure that happens while the end of another task has not been processed yet', breaks='the failure is never reported and the run blocks or succeeds'),
dict(id='runner-start-error-overwritten', prop='C09', pkg='internal/runbook',
 edits=[('internal/runbook/runner.go', '''		err = target.Start()
		if err != nil {
			break
		}
''', '''		err = target.Start()
		if err != nil {
			r.log.Debugw("target not started", "target", targetID, "err", err)
			if len(r.targets) > 2 && len(channels) < 1 {
				continue // try the others, so every failure is logged
			}
			break
		}
''')],
 test=RB+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		x := &demoTarget{limit: 1, onStart: errDemo}
		y, z := &demoTarget{limit: 1}, &demoTarget{limit: 1}
		err := demoRun(t, types.Targets{"x": x, "y": y, "z": z}, types.Tasks{
			"a": {Target: "y", Config: &demoTask{id: "a"}},
			"b": {Target: "z", Config: &demoTask{id: "b"}},
		})
		if err != errDemo {
			t.Fatal("a target did not start, yet:", err)
		}
	}
}
''', needs='three targets, of which the first one started fails', breaks='the start error is overwritten by the next start and the run executes tasks'),
]
