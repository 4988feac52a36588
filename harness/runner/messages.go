package runner

import (
	"fmt"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// A journal is a log that watches for the tasks' messages.
type journal struct {
	nolog
	w        *world
	messages []string
	logged   []int
}

func (l *journal) Info(args ...interface{}) { l.message(fmt.Sprint(args...)) }
func (l *journal) Infof(t string, args ...interface{}) {
	if len(args) > 0 {
		t = fmt.Sprintf(t, args...)
	}
	l.message(t)
}
func (l *journal) Infow(msg string, kv ...interface{}) { l.message(msg) }

func (l *journal) message(text string) {
	w := l.w
	for i, m := range l.messages {
		if m == "" || l.logged[i] > 0 && i+1 < len(l.messages) && l.messages[i+1] == m || !sym.IsTrue(sym.EqStr(m, text)) {
			continue
		}
		sym.Atomic(func() {
			l.logged[i]++
			sym.Assert(l.logged[i] == 1, "a message is logged once")
			sym.Assert(w.ran[i] == 0, "a message is logged before its task is executed")
			for j := range w.dep[i] {
				if w.dep[i][j] {
					sym.Assert(w.ended[j] && !w.fails[j], "a message is logged only once everything its task depends on has finished")
				}
			}
			sym.Assert(w.starts[w.on[i]] == 1, "a message is logged only once its target is started")
		})
		return
	}
}

// Messages logs the tasks' messages.
//
//verif:harness C39 messages quick:n=3 thorough:n=4 q=2 limit=2 fail=1
//verif:harness C39 text quick:n=1 thorough:n=2 q=1 limit=1 fail=0 len=2 thorough:len=3
//verif:bound up to n tasks on one or two targets with limits 1 or 2, every acyclic dependency relation and assignment, each with a message of its own or none, any set of failing tasks, every interleaving of the runner's goroutines; (text) messages of up to len arbitrary bytes
//verif:reach logged
func Messages() {
	n := 1 + sym.Choose("n", sym.Param("n", 2))
	w, tg, ts := setup(n, sym.Param("q", 2), sym.Param("limit", 2))
	l := &journal{w: w, messages: make([]string, n), logged: make([]int, n)}
	for i := range l.messages {
		if k := sym.Param("len", 0); k > 0 {
			l.messages[i] = sym.Str("message"+taskNames[i], k)
			if i > 0 {
				sym.Assume(sym.Not(sym.EqStr(l.messages[i], l.messages[i-1])))
			}
		} else if sym.Bool("message" + taskNames[i]) {
			l.messages[i] = "100% of " + taskNames[i]
		}
		ts[taskNames[i]].Message = l.messages[i]
		if sym.Param("fail", 0) == 1 {
			w.fails[i] = sym.Bool("fails" + taskNames[i])
		}
	}
	runbook.VerifRun(l, tg, ts)
	w.settled()
	for i := range l.messages {
		if l.messages[i] == "" || w.ran[i] == 0 {
			sym.Assert(l.logged[i] == 0, "only the messages of executed tasks are logged")
			continue
		}
		sym.Assert(l.logged[i] == 1, "the message of every executed task is logged")
		sym.Reach("logged")
	}
}

// SameMessages logs messages that are the same for several tasks.
//
//verif:harness C39 same quick:n=2 thorough:n=3 q=2 limit=2
//verif:bound (same) up to n tasks with one of two messages or none, every acyclic dependency relation and assignment, every interleaving
//verif:reach several
func SameMessages() {
	n := 1 + sym.Choose("n", sym.Param("n", 2))
	w, tg, ts := setup(n, sym.Param("q", 2), sym.Param("limit", 2))
	l := &counter{logged: map[string]int{}}
	want := map[string]int{}
	for i := 0; i < n; i++ {
		ts[taskNames[i]].Message = []string{"", "x", "x "}[sym.Choose("message"+taskNames[i], 3)]
		want[ts[taskNames[i]].Message]++
	}
	runbook.VerifRun(l, tg, ts)
	w.settled()
	for _, m := range []string{"x", "x "} {
		sym.Assert(l.logged[m] == want[m], "a message is logged for each of its tasks")
		if want[m] > 1 {
			sym.Reach("several")
		}
	}
	sym.Assert(l.logged[""] == 0, "empty messages are not logged")
}

// A counter is a log that counts messages.
type counter struct {
	nolog
	logged map[string]int
}

func (l *counter) Info(args ...interface{}) { l.count(fmt.Sprint(args...)) }
func (l *counter) Infof(t string, args ...interface{}) {
	if len(args) > 0 {
		t = fmt.Sprintf(t, args...)
	}
	l.count(t)
}
func (l *counter) Infow(msg string, kv ...interface{}) { l.count(msg) }

func (l *counter) count(text string) {
	sym.Atomic(func() { l.logged[text]++ })
}
