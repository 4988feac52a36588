package taskset

import (
	"errors"

	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/pg"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

var errOut = errors.New("cannot write")

type out struct {
	text string
	fail bool
}

func (o *out) Write(p []byte) (int, error) {
	if o.fail {
		return 0, errOut
	}
	o.text += string(p)
	return len(p), nil
}

// serve queues the tasks on a target as one batch and returns the results by task.
func serve(target types.Target, batch types.TaskBatch) map[types.TaskID]error {
	queue, results := target.Start()
	queue <- batch
	close(queue)
	got := map[types.TaskID]error{}
	for r := range results {
		for id, err := range r {
			_, known := batch[id]
			sym.Assert(known, "a result is about a queued task")
			_, again := got[id]
			sym.Assert(!again, "one result is delivered for each task")
			got[id] = err
		}
	}
	left := sym.Quiesce()
	sym.Assert(left == 0, "no goroutine is left behind")
	sym.Assert(len(got) == len(batch), "one result is delivered for each task")
	return got
}

// Demo runs tasks of every class on the demo target.
//
//verif:harness C31 demo quick:n=2 thorough:n=3 limit=2
//verif:bound up to n tasks (2 quick, 3 thorough) of the demo target's classes (but sleep) or of another target's, limits -1 to 2, output that may fail, every interleaving
//verif:reach end
func Demo() {
	o := &out{fail: sym.Bool("cannot write")}
	t := (&demo.TargetFactory{Stdout: o}).NewTarget().(*demo.Target)
	t.MaxConcurrency = sym.Choose("limit", sym.Param("limit", 2)+2) - 1
	t.String = "x"
	batch := types.TaskBatch{}
	want := map[types.TaskID]int{}
	n := sym.Choose("n", sym.Param("n", 2)+1)
	for i := 0; i < n; i++ {
		k := sym.Choose("class", 4)
		want[names[i]] = k
		switch k {
		case 0:
			batch[names[i]] = &demo.Echo{}
		case 1:
			batch[names[i]] = &demo.Fail{}
		case 2:
			batch[names[i]] = &demo.Rot13{}
		default:
			batch[names[i]] = &task{i}
		}
	}
	got := serve(t, batch)
	for i := 0; i < n; i++ {
		err := got[names[i]]
		switch want[names[i]] {
		case 0:
			sym.Assert(o.fail || err == nil, "a task that succeeded is reported as such")
			sym.Assert(!o.fail || err == errOut, "a result carries the task's own error")
		case 1:
			sym.Assert(err == demo.ErrFail, "a result carries the task's own error")
		case 2:
			sym.Assert(err == nil, "a task that succeeded is reported as such")
		default:
			sym.Assert(err != nil && err != errOut && err != demo.ErrFail, "a task of another target's is refused")
		}
	}
	sym.Reach("end")
}

// Others runs tasks on the pg and sh targets.
//
//verif:harness C31 others n=2
//verif:bound up to n tasks of the target's own or of another one on the pg and sh targets, every interleaving
//verif:reach end
func Others() {
	var t types.Target
	var own func() types.Task
	if sym.Choose("target", 2) == 0 {
		t = (&pg.TargetFactory{}).NewTarget()
		own = func() types.Task { return &pg.Task{SQL: "SELECT"} }
	} else {
		t = (&sh.TargetFactory{}).NewTarget()
		own = func() types.Task { return &sh.Task{Args: []string{"ls"}} }
	}
	batch := types.TaskBatch{}
	n := sym.Choose("n", sym.Param("n", 2)+1)
	foreign := make([]bool, n)
	for i := range foreign {
		foreign[i] = sym.Bool("foreign")
		batch[names[i]] = own()
		if foreign[i] {
			batch[names[i]] = &task{i}
		}
	}
	got := serve(t, batch)
	for i := range foreign {
		sym.Assert((got[names[i]] != nil) == foreign[i], "a task of another target's is refused and the target's own are run")
	}
	sym.Reach("end")
}
