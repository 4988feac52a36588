// Package scheduler checks the runbook scheduler (C05, C06).
package scheduler

import (
	"context"

	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

type target struct{ limit int }

func (t *target) Analyze() error                                          { return nil }
func (t *target) ConcurrencyLimit() int                                   { return t.limit }
func (t *target) Handle(ctx context.Context, task types.TaskConfig) error { return nil }
func (t *target) NewTaskConfig(class string) (types.TaskConfig, error)    { return nil, nil }
func (t *target) Start() error                                            { return nil }
func (t *target) Stop() error                                             { return nil }

var taskNames = []string{"t1", "t2", "t3", "t4", "t5", "t6"}
var targetNames = []string{"qa", "qb", "qc"}

type world struct {
	n, q      int
	names     []string
	limits    []int
	on        []int
	before    [][]int
	dep       [][]bool
	out, done []bool
	load      []int
	given     int
	prompt    bool

	bounded, lifo bool // the order in which tasks end, but for some exceptions
	exceptions    int
}

// choose chooses the task that ends.
func (w *world) choose(n int) int {
	if !w.bounded {
		return sym.Choose("complete", n)
	}
	k := 0
	if w.lifo {
		k = n - 1
	}
	if w.exceptions > 0 && sym.Bool("exception") {
		w.exceptions--
		k = n / 2
	}
	return k
}

func setup(n, q, maxLimit int, perm bool) (*world, types.Targets, types.Tasks) {
	w := &world{n: n, q: q, limits: make([]int, q), on: make([]int, n), dep: make([][]bool, n),
		out: make([]bool, n), done: make([]bool, n), load: make([]int, q), names: taskNames[:n]}
	if perm {
		w.names = make([]string, n)
		for i := range w.names {
			w.names[i] = sym.StrNIn("name"+taskNames[i], 1, "abcd"[:n])
			for j := 0; j < i; j++ {
				sym.Assume(!sym.EqStr(w.names[i], w.names[j]))
			}
		}
	}
	targets := types.Targets{}
	for i := 0; i < q; i++ {
		w.limits[i] = sym.Int("limit"+targetNames[i], 1, maxLimit)
		targets[targetNames[i]] = &target{w.limits[i]}
	}
	tasks := types.Tasks{}
	for i := 0; i < n; i++ {
		w.on[i] = sym.Choose("target"+taskNames[i], q)
		w.dep[i] = make([]bool, n)
		var after []string
		for j := 0; j < i; j++ {
			if sym.Bool("after" + taskNames[i] + taskNames[j]) {
				w.dep[i][j] = true
				after = append(after, w.names[j])
			}
		}
		tasks[w.names[i]] = &types.Task{After: after, Target: targetNames[w.on[i]]}
	}
	return w, targets, tasks
}

func (w *world) accept(ready map[string][]string) {
	for q := 0; q < w.q; q++ {
		for _, id := range ready[targetNames[q]] {
			k := -1
			for i := range w.names {
				if w.names[i] == id {
					k = i
				}
			}
			sym.Assert(k >= 0, "only declared tasks are handed out")
			sym.Assert(!w.out[k], "no task is handed out twice")
			sym.Assert(w.on[k] == q, "a task is handed out to the target it names")
			for _, j := range w.before[k] {
				sym.Assert(w.done[j], "a task is handed out only after everything it depends on completed")
			}
			w.out[k] = true
			w.load[q]++
			w.given++
			sym.Assert(w.load[q] <= w.limits[q], "no more tasks are outstanding on a target than its limit")
		}
	}
	for id := range ready {
		known := false
		for q := 0; q < w.q; q++ {
			if targetNames[q] == id {
				known = true
			}
		}
		sym.Assert(known, "tasks are handed out only to declared targets")
	}
	if !w.prompt {
		return
	}
	for i := 0; i < w.n; i++ {
		if w.out[i] {
			continue
		}
		can := true
		for _, j := range w.before[i] {
			if !w.done[j] {
				can = false
				break
			}
		}
		if can {
			sym.Assert(w.load[w.on[i]] >= w.limits[w.on[i]], "no runnable task waits while its target has free capacity")
		}
	}
}

func (w *world) drive(targets types.Targets, tasks types.Tasks) {
	w.before = make([][]int, w.n)
	for i := range w.before {
		for j := range w.dep[i] {
			if w.dep[i][j] {
				w.before[i] = append(w.before[i], j)
			}
		}
	}
	s, ready, err := scheduler.New(targets, tasks)
	sym.Assert(err == nil && s != nil, "a valid set of tasks is accepted")
	w.accept(ready)
	for step := 0; step < w.n; step++ {
		var running []int
		for i := range w.out {
			if w.out[i] && !w.done[i] {
				running = append(running, i)
			}
		}
		if len(running) == 0 {
			break
		}
		k := running[w.choose(len(running))]
		w.done[k] = true
		w.load[w.on[k]]--
		all := w.given == w.n
		ready, err := s.Next(w.names[k])
		if w.prompt {
			if all {
				sym.Assert(err == scheduler.ErrNoPendingTasks, "the scheduler reports that nothing is left once every task is handed out")
			} else {
				sym.Assert(err == nil, "the scheduler reports that nothing is left only once every task is handed out")
			}
		}
		if err != nil {
			sym.Assert(len(ready) == 0, "an error hands out nothing")
			break
		}
		w.accept(ready)
	}
	if w.prompt {
		sym.Assert(w.given == w.n, "every task is handed out in the end")
	}
	sym.Reach("end")
}

// Limits checks limits, targets and dependencies.
//
//verif:harness C05 limits quick:n=3 thorough:n=4
//verif:bound up to n tasks (3 quick, 4 thorough) with any distinct one-letter names, two targets with any limit from 1 to 3, every acyclic dependency relation, every assignment to targets, every completion order
//verif:reach end
func Limits() {
	n := sym.Choose("n", sym.Param("n", 3)+1)
	w, tg, ts := setup(n, 2, 3, true)
	w.drive(tg, ts)
}

// LimitsOne has one target and more tasks.
//
//verif:harness C05 onetarget quick:n=5 thorough:n=6
//verif:bound n tasks (5 quick, 6 thorough) on one target with any limit from 1 to 4, every acyclic dependency relation and completion order
//verif:reach end
func LimitsOne() {
	w, tg, ts := setup(sym.Param("n", 4), 1, 4, false)
	w.drive(tg, ts)
}

// LimitsMaps repeats it with other map iteration orders.
//
//verif:harness C05 maporder n=2 mapdev=2 thorough:n=3
//verif:bound map iteration may start anywhere in up to mapdev iterations
func LimitsMaps() {
	w, tg, ts := setup(sym.Param("n", 2), 3, 2, false)
	w.drive(tg, ts)
}

// Prompt checks that capacity is used at once.
//
//verif:harness C06 prompt quick:n=3 thorough:n=4
//verif:bound up to n tasks (3 quick, 4 thorough) with any distinct one-letter names, two targets with any limit from 1 to 3, every acyclic dependency relation, every assignment to targets, every completion order
//verif:reach end
func Prompt() {
	n := sym.Choose("n", sym.Param("n", 3)+1)
	w, tg, ts := setup(n, 2, 3, true)
	w.prompt = true
	w.drive(tg, ts)
}

// PromptOne has one target and more tasks.
//
//verif:harness C06 onetarget quick:n=5 thorough:n=6
//verif:bound n tasks (5 quick, 6 thorough) on one target with any limit from 1 to 4, every acyclic dependency relation and completion order
//verif:reach end
func PromptOne() {
	w, tg, ts := setup(sym.Param("n", 4), 1, 4, false)
	w.prompt = true
	w.drive(tg, ts)
}

// PromptMaps repeats it with other map iteration orders.
//
//verif:harness C06 maporder n=2 mapdev=2 thorough:n=3
//verif:bound map iteration may start anywhere in up to mapdev iterations
func PromptMaps() {
	w, tg, ts := setup(sym.Param("n", 2), 3, 2, false)
	w.prompt = true
	w.drive(tg, ts)
}

// Errors checks that an invalid set is refused.
//
//verif:harness C05 invalid n=2
//verif:bound every relation over two tasks and an unknown one
//verif:reach refused accepted
func Errors() {
	n := sym.Param("n", 2)
	tasks := types.Tasks{}
	bad := false
	var dep [2][2]bool
	for i := 0; i < n; i++ {
		var after []string
		for j := 0; j < n; j++ {
			if sym.Bool("after" + taskNames[i] + taskNames[j]) {
				dep[i][j] = true
				after = append(after, taskNames[j])
			}
		}
		if sym.Bool("unknown" + taskNames[i]) {
			after = append(after, "zz")
			bad = true
		}
		tasks[taskNames[i]] = &types.Task{After: after, Target: "qa"}
	}
	bad = bad || dep[0][0] || dep[1][1] || dep[0][1] && dep[1][0]
	s, ready, err := scheduler.New(types.Targets{"qa": &target{2}}, tasks)
	if bad {
		sym.Assert(err != nil && s == nil && len(ready) == 0, "an unschedulable set is refused and nothing is handed out")
		sym.Reach("refused")
	} else {
		sym.Assert(err == nil && s != nil, "a valid set of tasks is accepted")
		sym.Reach("accepted")
	}
}

// shape is a relation over many tasks.
func shape(kind, n int, dep func(i, j int)) {
	for i := 1; i < n; i++ {
		switch kind {
		case 0: // all follow the first
			dep(i, 0)
		case 1: // a chain
			dep(i, i-1)
		case 2: // the last follows all
			if i == n-1 {
				for j := 0; j < i; j++ {
					dep(i, j)
				}
			}
		case 3: // a binary tree
			dep(i, (i-1)/2)
		case 4: // two chains
			if i > 1 {
				dep(i, i-2)
			}
		case 5: // layers of three
			for j := i/3*3 - 3; j >= 0 && j < i/3*3; j++ {
				dep(i, j)
			}
		}
	}
}

const shapes = 7

func many(name string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, name+string(rune('a'+i/26))+string(rune('a'+i%26)))
	}
	return out
}

var sizes = []int{8, 9, 16, 17, 33, 65}

// Many has many tasks.
//
//verif:harness C05 many switches=1 thorough:switches=2 sizes=5 thorough:sizes=6
//verif:harness C06 many switches=1 thorough:switches=2 sizes=5 thorough:sizes=6
//verif:bound (many) 8 to 33 (thorough: 65) tasks in seven shapes (star, chain, join, tree, two chains, layers, independent) on one, two or nine targets with limit 1, 2, 3, 4 or 10; tasks end in the order they started or the opposite, but for up to switches exceptions
//verif:reach end
func Many() {
	n, q := sizes[sym.Choose("size", sym.Param("sizes", 2))], []int{1, 2, 9}[sym.Choose("targets", 3)]
	taskNames, targetNames = many("t", n), many("q", 9)
	w := &world{n: n, q: q, limits: make([]int, q), on: make([]int, n), dep: make([][]bool, n),
		out: make([]bool, n), done: make([]bool, n), load: make([]int, q), names: taskNames, prompt: true}
	limit := []int{1, 2, 3, 4, 10}[sym.Choose("limit", 5)]
	targets := types.Targets{}
	for i := 0; i < q; i++ {
		w.limits[i] = limit
		targets[targetNames[i]] = &target{limit}
	}
	after := make([][]string, n)
	for i := range w.dep {
		w.dep[i] = make([]bool, n)
	}
	reverse := sym.Bool("reverse")
	shape(sym.Choose("shape", shapes), n, func(i, j int) {
		if reverse { // the names are in the opposite order
			i, j = n-1-i, n-1-j
		}
		w.dep[i][j] = true
		after[i] = append(after[i], taskNames[j])
	})
	tasks := types.Tasks{}
	for i := 0; i < n; i++ {
		w.on[i] = i % q
		tasks[taskNames[i]] = &types.Task{Target: targetNames[w.on[i]], After: after[i]}
	}
	w.lifo, w.exceptions = sym.Bool("lifo"), sym.Param("switches", 1)
	w.bounded = true
	w.drive(targets, tasks)
}

// Huge has hundreds of tasks.
//
//verif:harness C05 huge steps=100000000
//verif:harness C06 huge steps=100000000
//verif:bound (huge) 300 tasks in seven shapes on one or two targets with limit 1, 130 or 1000; tasks end in the order they started or the opposite
//verif:reach end
func Huge() {
	n, q := 300, 1+sym.Choose("targets", 2)
	taskNames, targetNames = many("t", n), many("q", 9)
	w := &world{n: n, q: q, limits: make([]int, q), on: make([]int, n), dep: make([][]bool, n),
		out: make([]bool, n), done: make([]bool, n), load: make([]int, q), names: taskNames, prompt: true}
	limit := []int{1, 130, 1000}[sym.Choose("limit", 3)]
	targets := types.Targets{}
	for i := 0; i < q; i++ {
		w.limits[i] = limit
		targets[targetNames[i]] = &target{limit}
	}
	after := make([][]string, n)
	for i := range w.dep {
		w.dep[i] = make([]bool, n)
	}
	shape(sym.Choose("shape", shapes), n, func(i, j int) {
		w.dep[i][j] = true
		after[i] = append(after[i], taskNames[j])
	})
	tasks := types.Tasks{}
	for i := 0; i < n; i++ {
		w.on[i] = i % q
		tasks[taskNames[i]] = &types.Task{Target: targetNames[w.on[i]], After: after[i]}
	}
	w.lifo, w.bounded = sym.Bool("lifo"), true
	w.drive(targets, tasks)
}
