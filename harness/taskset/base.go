// Package taskset checks how task-set targets run their tasks (C31).
//
//verif:needs internal/taskset/base
package taskset

import (
	"fmt"

	"github.com/sjansen/pgutil/internal/taskset/base"
	"github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

var names = func() []types.TaskID {
	var out []types.TaskID
	for i := 1; i <= 80; i++ {
		out = append(out, types.TaskID(fmt.Sprint("t", i)))
	}
	return out
}()

type failure struct{ what types.TaskID }

func (f *failure) Error() string { return string(f.what) }

type task struct{ i int }

func (t *task) Dependencies() []string { return nil }
func (t *task) Provides() []string     { return nil }
func (t *task) Ready() error           { return nil }

type world struct {
	limit   int
	fails   []bool
	started []bool
	ended   []bool
	results []int
	running int
	closed  bool
}

// run is a target's function for running one task.
func (w *world) run(id types.TaskID, t types.Task, results chan<- types.TaskResults) {
	i := t.(*task).i
	go func() {
		sym.EventOn("begin "+string(id), []string{"running"}, nil)
		sym.Atomic(func() {
			sym.Assert(names[i] == id, "a task is run under its own id")
			sym.Assert(!w.started[i], "no task is run twice")
			w.started[i] = true
			w.running++
			sym.Assert(w.running <= w.limit || w.running == 1, "no more tasks run at once than the target allows")
		})
		sym.EventOn("end "+string(id), []string{"running"}, nil)
		var err error
		sym.Atomic(func() {
			w.running--
			w.ended[i] = true
			if w.fails[i] {
				err = &failure{id}
			}
		})
		results <- types.TaskResults{id: err}
	}()
}

func (w *world) received(r types.TaskResults) {
	sym.Assert(len(r) == 1, "a result is about one task")
	for id, err := range r {
		for i := range w.results {
			if names[i] != id {
				continue
			}
			sym.Atomic(func() {
				w.results[i]++
				sym.Assert(w.ended[i], "a result is delivered for a task that has ended")
				sym.Assert(w.results[i] == 1, "one result is delivered for each task")
				if !w.fails[i] {
					sym.Assert(err == nil, "a task that succeeded is reported as such")
				} else {
					f, ok := err.(*failure)
					sym.Assert(ok && f.what == id, "a result carries the task's own error")
				}
			})
			return
		}
		sym.Fail("a result is about a queued task")
	}
}

// batches splits n tasks over batches of any sizes, empty ones included.
func batches(n, max int, make func(i int) types.Task) []types.TaskBatch {
	var out []types.TaskBatch
	for k, i := 0, 0; k < max; k++ {
		size := n - i
		if k < max-1 {
			size = sym.Choose(fmt.Sprint("batch", k), n-i+1)
		}
		b := types.TaskBatch{}
		for j := 0; j < size; j++ {
			b[names[i]] = make(i)
			i++
		}
		out = append(out, b)
	}
	return out
}

func newWorld(n, limit int) *world {
	w := &world{limit: limit, fails: make([]bool, n), started: make([]bool, n), ended: make([]bool, n), results: make([]int, n)}
	for i := range w.fails {
		w.fails[i] = sym.Bool("fails" + string(names[i]))
	}
	return w
}

func (w *world) settled() {
	left := sym.Quiesce()
	sym.Assert(left == 0, "no goroutine is left behind")
	sym.Atomic(func() {
		sym.Assert(w.closed, "the result channel is closed")
		for i := range w.results {
			sym.Assert(w.results[i] == 1, "one result is delivered for each task")
		}
	})
}

// After queues everything, closes the queue and then receives.
//
//verif:harness C31 after quick:n=2 thorough:n=3 quick:limit=3 thorough:limit=2 batches=2
//verif:bound up to n tasks (2 quick, 3 thorough), any set of which fails, over two batches of any sizes, limits -1 to 3 (2 thorough), the queue closed before anything is received, every interleaving
//verif:reach end
func After() {
	n := sym.Choose("n", sym.Param("n", 2)+1)
	limit := sym.Choose("limit", sym.Param("limit", 2)+2) - 1
	w := newWorld(n, limit)
	queue, results := base.RunTasks(w.run, limit)
	for _, b := range batches(n, sym.Param("batches", 2), func(i int) types.Task { return &task{i} }) {
		queue <- b
	}
	close(queue)
	for r := range results {
		w.received(r)
	}
	w.closed = true
	w.settled()
	sym.Reach("end")
}

// Bulk queues a single batch.
//
//verif:harness C31 bulk n=3 quick:limit=2 thorough:limit=3 batches=1
//verif:bound the same for up to three tasks in a single batch, limits -1 to 2 (3 thorough)
//verif:reach end
func Bulk() { After() }

// Beside receives in one goroutine while another one queues.
//
//verif:harness C31 beside quick:n=2 thorough:n=3 limit=2 batches=2
//verif:bound up to n tasks (2 quick, 3 thorough), any set of which fails, over two batches of any sizes, limits -1 to 2, results received while others are queued, every interleaving
//verif:reach end
func Beside() {
	n := sym.Choose("n", sym.Param("n", 2)+1)
	limit := sym.Choose("limit", sym.Param("limit", 2)+2) - 1
	w := newWorld(n, limit)
	queue, results := base.RunTasks(w.run, limit)
	bs := batches(n, sym.Param("batches", 2), func(i int) types.Task { return &task{i} })
	go func() {
		for _, b := range bs {
			queue <- b
		}
		close(queue)
	}()
	for r := range results {
		w.received(r)
	}
	w.closed = true
	w.settled()
	sym.Reach("end")
}

// Dialogue queues a batch once everything of the one before is answered.
//
//verif:harness C31 dialogue quick:n=3 thorough:n=4 limit=2 batches=2
//verif:bound up to n tasks (3 quick, 4 thorough), each batch queued when the one before is answered and the queue closed at the end, limits -1 to 2, every interleaving
//verif:reach end
func Dialogue() {
	n := sym.Choose("n", sym.Param("n", 2)+1)
	limit := sym.Choose("limit", sym.Param("limit", 2)+2) - 1
	w := newWorld(n, limit)
	queue, results := base.RunTasks(w.run, limit)
	for _, b := range batches(n, sym.Param("batches", 2), func(i int) types.Task { return &task{i} }) {
		queue <- b
		for range b {
			w.received(<-results)
		}
	}
	close(queue)
	_, ok := <-results
	sym.Assert(!ok, "nothing more is delivered when every task is answered")
	w.closed = true
	w.settled()
	sym.Reach("end")
}

// Many runs many tasks.
//
//verif:harness C31 many steps=100000000 switches=0 sizes=3 thorough:sizes=4 thorough:switches=1
//verif:bound (many) 9, 17, 33 or (thorough) 70 tasks, all, none, the first, one in the middle or the last of which fail, in one batch or batches of one, three or all but one, limits 0, 1, 2, 7, 16 and 100, received while others are queued or afterwards, a few fixed schedules
//verif:reach end
func Many() {
	n := []int{9, 17, 33, 70}[sym.Choose("size", sym.Param("sizes", 3))]
	limit := []int{0, 1, 2, 7, 16, 100}[sym.Choose("limit", 6)]
	w := &world{limit: limit, fails: make([]bool, n), started: make([]bool, n), ended: make([]bool, n), results: make([]int, n)}
	switch sym.Choose("fails", 5) {
	case 1:
		w.fails[0] = true
	case 2:
		w.fails[n/2] = true
	case 3:
		w.fails[n-1] = true
	case 4:
		for i := range w.fails {
			w.fails[i] = true
		}
	}
	size := []int{n, 1, 3, n - 1}[sym.Choose("batches", 4)]
	var bs []types.TaskBatch
	for i := 0; i < n; {
		b := types.TaskBatch{}
		for j := 0; j < size && i < n; j++ {
			b[names[i]] = &task{i}
			i++
		}
		bs = append(bs, b)
	}
	queue, results := base.RunTasks(w.run, limit)
	send := func() {
		for _, b := range bs {
			queue <- b
		}
		close(queue)
	}
	if sym.Bool("beside") {
		go send()
	} else {
		send()
	}
	for r := range results {
		w.received(r)
	}
	w.closed = true
	w.settled()
	sym.Reach("end")
}
