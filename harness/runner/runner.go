// Package runner checks how runbooks are run (C07, C08, C09).
//
//verif:needs internal/runbook
package runner

import (
	"context"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

type nolog struct{}

func (nolog) Sync() error                          { return nil }
func (nolog) Error(args ...interface{})            {}
func (nolog) Errorf(t string, args ...interface{}) {}
func (nolog) Errorw(msg string, kv ...interface{}) {}
func (nolog) Warn(args ...interface{})             {}
func (nolog) Warnf(t string, args ...interface{})  {}
func (nolog) Warnw(msg string, kv ...interface{})  {}
func (nolog) Info(args ...interface{})             {}
func (nolog) Infof(t string, args ...interface{})  {}
func (nolog) Infow(msg string, kv ...interface{})  {}
func (nolog) Debug(args ...interface{})            {}
func (nolog) Debugf(t string, args ...interface{}) {}
func (nolog) Debugw(msg string, kv ...interface{}) {}

var taskNames = []string{"t1", "t2", "t3", "t4", "t5"}
var targetNames = []string{"qa", "qb", "qc"}

type failure struct{ what string }

func (f *failure) Error() string { return f.what }

type world struct {
	n, q   int
	on     []int
	dep    [][]bool
	limits []int
	ran    []int
	ended  []bool
	fails  []bool
	errs   []error
	cannot []bool // targets that do not start
	starts []int
	stops  []int
	names  []string
	noDeps bool
}

type config struct{ i int }

func (c *config) Check() error { return nil }

type target struct {
	w *world
	q int
}

func (t *target) Analyze() error                                       { return nil }
func (t *target) ConcurrencyLimit() int                                { return t.w.limits[t.q] }
func (t *target) NewTaskConfig(class string) (types.TaskConfig, error) { return nil, nil }

func (t *target) Start() error {
	w, q := t.w, t.q
	sym.EventOn("start "+targetNames[q], []string{targetNames[q]}, nil)
	var err error
	sym.Atomic(func() {
		if w.cannot[q] {
			err = w.errs[q]
			return
		}
		w.starts[q]++
		sym.Assert(w.starts[q] == 1, "a target is started once")
	})
	return err
}

func (t *target) Stop() error {
	w, q := t.w, t.q
	sym.EventOn("stop "+targetNames[q], []string{targetNames[q]}, nil)
	sym.Atomic(func() {
		w.stops[q]++
		sym.Assert(w.starts[q] == 1, "only a started target is stopped")
		sym.Assert(w.stops[q] == 1, "a target is stopped once")
		for i := range w.on {
			sym.Assert(w.on[i] != q || w.ran[i] == 0 || w.ended[i], "a target is stopped after its last task")
		}
	})
	return nil
}

func (t *target) Handle(ctx context.Context, cfg types.TaskConfig) error {
	w, q := t.w, t.q
	i := cfg.(*config).i
	reads := []string{targetNames[q]}
	for j := range w.dep[i] {
		if w.dep[i][j] {
			reads = append(reads, "end "+taskNames[j])
		}
	}
	sym.EventOn("run "+taskNames[i], []string{"run " + taskNames[i]}, reads)
	var err error
	sym.Atomic(func() {
		sym.Assert(w.on[i] == q, "a task is executed on the target it names")
		sym.Assert(w.starts[q] == 1 && w.stops[q] == 0, "a task is executed only on a started target that is not stopped")
		sym.Assert(w.ran[i] == 0, "no task is executed twice")
		w.ran[i]++
		for j := range w.dep[i] {
			if w.dep[i][j] {
				sym.Assert(w.ended[j], "a task is executed only after everything it depends on has finished")
				sym.Assert(!w.fails[j], "nothing that depends on a failed task is executed")
			}
		}
	})
	sym.EventOn("end "+taskNames[i], []string{"end " + taskNames[i]}, []string{targetNames[q]})
	sym.Atomic(func() {
		w.ended[i] = true
		if w.fails[i] {
			err = &failure{taskNames[i]}
		}
	})
	return err
}

func setup(n, q, maxLimit int) (*world, types.Targets, types.Tasks) {
	taskNames, targetNames = []string{"t1", "t2", "t3", "t4", "t5"}, []string{"qa", "qb", "qc"}
	w := &world{n: n, q: q, on: make([]int, n), dep: make([][]bool, n), limits: make([]int, q), ran: make([]int, n),
		ended: make([]bool, n), fails: make([]bool, n), errs: make([]error, q), cannot: make([]bool, q), starts: make([]int, q), stops: make([]int, q)}
	targets := types.Targets{}
	for i := 0; i < q; i++ {
		w.limits[i] = 1
		if maxLimit > 1 {
			w.limits[i] = 1 + sym.Choose("limit"+targetNames[i], maxLimit)
		}
		w.errs[i] = &failure{"start " + targetNames[i]}
		targets[targetNames[i]] = &target{w, i}
	}
	tasks := types.Tasks{}
	for i := 0; i < n; i++ {
		if q > 1 {
			w.on[i] = sym.Choose("on"+taskNames[i], q)
		}
		w.dep[i] = make([]bool, n)
		var after []string
		for j := 0; j < i; j++ {
			if sym.Bool("after" + taskNames[i] + taskNames[j]) {
				w.dep[i][j] = true
				after = append(after, taskNames[j])
			}
		}
		tasks[taskNames[i]] = &types.Task{Target: targetNames[w.on[i]], After: after, Config: &config{i}}
	}
	return w, targets, tasks
}

func (w *world) settled() {
	left := sym.Quiesce()
	sym.Assert(left == 0, "no goroutine is left behind")
	sym.Atomic(func() {
		for q := range w.starts {
			sym.Assert(w.starts[q] == w.stops[q], "every started target is stopped")
		}
	})
}

func (w *world) success(targets types.Targets, tasks types.Tasks) {
	err := runbook.VerifRun(nolog{}, targets, tasks)
	sym.Assert(err == nil, "a run whose tasks all succeed reports success")
	sym.Atomic(func() {
		for i := range w.ran {
			sym.Assert(w.ran[i] == 1 && w.ended[i], "a successful run has executed every task")
		}
		for q := range w.starts {
			sym.Assert(w.starts[q] == 1, "every target is started")
			sym.Assert(w.stops[q] == 1, "every target is stopped before the run ends")
		}
	})
	w.settled()
	sym.Reach("end")
}

// Success runs tasks that all succeed.
//
//verif:harness C07 success quick:n=3 thorough:n=4 q=2 limit=2
//verif:bound up to n tasks (3 quick, 4 thorough) on two targets with limits 1 or 2, every acyclic dependency relation and assignment, every interleaving of the runner's goroutines
//verif:reach end
func Success() {
	n := sym.Choose("n", sym.Param("n", 2)+1)
	w, tg, ts := setup(n, sym.Param("q", 2), sym.Param("limit", 2))
	w.success(tg, ts)
}

// SuccessMaps repeats it with other map iteration orders.
//
//verif:harness C07 maporder quick:n=2 thorough:n=3 q=2 limit=1 mapdev=1
//verif:bound map iteration may start anywhere in up to mapdev iterations
func SuccessMaps() {
	w, tg, ts := setup(sym.Param("n", 1), sym.Param("q", 2), sym.Param("limit", 1))
	w.success(tg, ts)
}

// SuccessOne has one target and more tasks.
//
//verif:harness C07 onetarget quick:n=4 thorough:n=5 limit=2
//verif:bound n tasks (4 quick, 5 thorough) on one target with limit 1 or 2, every acyclic dependency relation, every interleaving
func SuccessOne() {
	w, tg, ts := setup(sym.Param("n", 3), 1, sym.Param("limit", 2))
	w.success(tg, ts)
}

func (w *world) someFail(targets types.Targets, tasks types.Tasks) {
	err := runbook.VerifRun(nolog{}, targets, tasks)
	w.settled()
	failed := false
	for i := range w.ran {
		if w.ran[i] > 0 && w.fails[i] {
			failed = true
		}
	}
	if !failed {
		sym.Assert(err == nil, "a run in which no executed task failed reports success")
		for i := range w.ran {
			sym.Assert(w.ran[i] == 1, "a run in which no task fails executes every task")
		}
		sym.Reach("none failed")
		return
	}
	f, ok := err.(*failure)
	sym.Assert(err != nil && ok, "a run in which a task fails returns the error of a failed task")
	own := false
	for i := range w.ran {
		if w.ran[i] > 0 && w.fails[i] && f.what == taskNames[i] {
			own = true
		}
	}
	sym.Assert(own, "a run in which a task fails returns the error of a failed task")
	sym.Reach("failed")
}

// Failing lets any task fail.
//
//verif:harness C08 failing quick:n=3 thorough:n=4 q=2 limit=2
//verif:bound up to n tasks (3 quick, 4 thorough) on two targets with limits 1 or 2, every acyclic dependency relation and assignment, any set of failing tasks, every interleaving of the runner's goroutines
//verif:reach failed
func Failing() {
	n := 1 + sym.Choose("n", sym.Param("n", 2))
	w, tg, ts := setup(n, sym.Param("q", 2), sym.Param("limit", 2))
	for i := range w.fails {
		w.fails[i] = sym.Bool("fails" + taskNames[i])
	}
	w.someFail(tg, ts)
}

// FailingOne has one target and more tasks.
//
//verif:harness C08 onetarget quick:n=4 thorough:n=5 limit=3
//verif:bound n tasks (4 quick, 5 thorough) on one target with any limit from 1 to 3, every acyclic dependency relation, any set of failing tasks, every interleaving
func FailingOne() {
	w, tg, ts := setup(sym.Param("n", 3), 1, sym.Param("limit", 3))
	for i := range w.fails {
		w.fails[i] = sym.Bool("fails" + taskNames[i])
	}
	w.someFail(tg, ts)
}

// FailingMaps repeats it with other map iteration orders.
//
//verif:harness C08 maporder quick:n=2 thorough:n=3 q=2 limit=1 mapdev=1 thorough:limit=2
//verif:bound map iteration may start anywhere in up to mapdev iterations
func FailingMaps() {
	w, tg, ts := setup(sym.Param("n", 2), sym.Param("q", 2), sym.Param("limit", 1))
	for i := range w.fails {
		w.fails[i] = sym.Bool("fails" + taskNames[i])
	}
	w.someFail(tg, ts)
}

func (w *world) noWork() {
	for i := range w.ran {
		sym.Assert(w.ran[i] == 0, "a run that cannot be scheduled or started executes no task")
	}
}

// Unschedulable has a cycle or an unknown dependency.
//
//verif:harness C09 unschedulable quick:n=3 thorough:n=4 q=2
//verif:bound up to n tasks (3 quick, 4 thorough) with every acyclic relation over them plus one backward edge closing a cycle or one dangling reference, two targets, every interleaving
//verif:reach cycle unknown
func Unschedulable() {
	n := 1 + sym.Choose("n", sym.Param("n", 2))
	w, tg, ts := setup(n, sym.Param("q", 2), 1)
	bad := false
	switch sym.Choose("kind", 2) {
	case 0: // close a cycle by a backward edge
		i := sym.Choose("from", n)
		j := i + sym.Choose("to", n-i)
		if i == j || w.dep[j][i] {
			t := ts[taskNames[i]]
			t.After = append(t.After, taskNames[j])
			bad = true
			sym.Reach("cycle")
		}
	case 1:
		t := ts[taskNames[sym.Choose("from", n)]]
		t.After = append(t.After, "nobody")
		bad = true
		sym.Reach("unknown")
	}
	sym.Assume(bad)
	err := runbook.VerifRun(nolog{}, tg, ts)
	sym.Assert(err != nil, "an unschedulable runbook is reported")
	w.settled()
	w.noWork()
}

// Unstartable has targets that do not start.
//
//verif:harness C09 unstartable quick:n=2 thorough:n=3 q=3 mapdev=1
//verif:bound n tasks (2 quick, 3 thorough) on three targets, any non-empty set of which fails to start, in any start order, every acyclic relation, every interleaving
//verif:reach end
func Unstartable() {
	w, tg, ts := setup(sym.Param("n", 2), sym.Param("q", 2), 1)
	some := false
	for q := range w.cannot {
		w.cannot[q] = sym.Bool("cannot" + targetNames[q])
		some = some || w.cannot[q]
	}
	sym.Assume(some)
	err := runbook.VerifRun(nolog{}, tg, ts)
	f, ok := err.(*failure)
	sym.Assert(ok, "a target that fails to start makes the run fail with its error")
	own := false
	for q := range w.errs {
		if w.cannot[q] && f.what == "start "+targetNames[q] {
			own = true
		}
	}
	sym.Assert(own, "a target that fails to start makes the run fail with its error")
	w.settled()
	w.noWork()
	sym.Reach("end")
}

// shapes are relations over many tasks.
func shape(kind, n int, dep func(i, j int)) {
	for i := 1; i < n; i++ {
		switch kind {
		case 0: // all follow the first
			dep(i, 0)
		case 1: // a chain
			dep(i, i-1)
		case 2: // the last follows all
			if i == n-1 {
				for j := 0; j < i; j++ {
					dep(i, j)
				}
			}
		case 3: // a binary tree
			dep(i, (i-1)/2)
		case 4: // two chains
			if i > 1 {
				dep(i, i-2)
			}
		case 5: // none
		}
	}
}

const shapes = 6

func many(name string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, name+string(rune('a'+i/26))+string(rune('a'+i%26)))
	}
	return out
}

func setupMany(n, q, limit int) (*world, types.Targets, types.Tasks) {
	taskNames, targetNames = many("t", n), many("q", 9)
	w := &world{n: n, q: q, on: make([]int, n), dep: make([][]bool, n), limits: make([]int, q), ran: make([]int, n),
		ended: make([]bool, n), fails: make([]bool, n), errs: make([]error, q), cannot: make([]bool, q), starts: make([]int, q), stops: make([]int, q)}
	targets := types.Targets{}
	for i := 0; i < q; i++ {
		w.limits[i] = limit
		targets[targetNames[i]] = &target{w, i}
	}
	after := make([][]string, n)
	for i := range w.dep {
		w.dep[i] = make([]bool, n)
	}
	shape(sym.Choose("shape", shapes), n, func(i, j int) {
		w.dep[i][j] = true
		after[i] = append(after[i], taskNames[j])
	})
	tasks := types.Tasks{}
	for i := 0; i < n; i++ {
		w.on[i] = i % q
		tasks[taskNames[i]] = &types.Task{Target: targetNames[w.on[i]], After: after[i], Config: &config{i}}
	}
	return w, targets, tasks
}

var sizes = []int{9, 17, 33}

// SuccessMany runs many tasks.
//
//verif:harness C07 many switches=1 thorough:switches=2 sizes=2 thorough:sizes=3
//verif:bound (many) 9 or 17 (thorough: or 33) tasks in six shapes (star, chain, join, tree, two chains, independent) on one, two or nine targets with limit 1, 2 or 10; interleavings that differ from one of three fixed strategies in up to switches places
//verif:reach end
func SuccessMany() {
	w, tg, ts := setupMany(sizes[sym.Choose("size", sym.Param("sizes", 2))], []int{1, 2, 9}[sym.Choose("targets", 3)], []int{1, 2, 10}[sym.Choose("limit", 3)])
	w.success(tg, ts)
}

// FailingMany runs many tasks, one of which fails.
//
//verif:harness C08 many switches=0 thorough:switches=1 sizes=2 thorough:sizes=3
//verif:bound (many) 9 or 17 (thorough: or 33) tasks in six shapes on one, two or nine targets with limit 1, 2 or 10, any one of which fails; interleavings that differ from one of three fixed strategies in up to switches places
//verif:reach failed
func FailingMany() {
	w, tg, ts := setupMany(sizes[sym.Choose("size", sym.Param("sizes", 2))], []int{1, 2, 9}[sym.Choose("targets", 3)], []int{1, 2, 10}[sym.Choose("limit", 3)])
	w.fails[sym.Choose("fails", len(w.fails))] = true
	w.someFail(tg, ts)
}
