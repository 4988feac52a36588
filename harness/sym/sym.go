// Package sym is the interface between harnesses and the symbolic executor.  The executor replaces
// these functions; compiled natively they replay recorded values.
package sym

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// RuntimeError is the type of run-time panics raised by the executor.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }

// RuntimeError marks the type as a run-time error.
func (e RuntimeError) RuntimeError() {}

// RType stands for a reflect.Type inside the executor.
type RType struct{}

// Comparable and the other methods are replaced by the executor.
func (r *RType) Comparable() bool { return false }

// String is replaced by the executor.
func (r *RType) String() string { return "" }

// Failure is what a failed native assertion panics with.
type Failure struct{ Msg string }

type skip struct{}

var (
	mu       sync.Mutex
	values   map[string]interface{}
	counts   map[string]int
	params   map[string]int
	failure  string
	obs      []string
	events   []string
	order    []string
	orderPos int
	gate     *sync.Cond
	baseline int
	jitter   *rand.Rand
	reached  map[string]bool
)

// Begin prepares a native replay.
func Begin(vals map[string]interface{}, prm map[string]int, steps []string, seed int64) {
	mu.Lock()
	defer mu.Unlock()
	values, counts, params = vals, map[string]int{}, prm
	failure, obs, events = "", nil, nil
	order, orderPos = steps, 0
	gate = sync.NewCond(&mu)
	baseline = runtime.NumGoroutine() + 1
	jitter = rand.New(rand.NewSource(seed))
	reached = map[string]bool{}
}

// Result reports the outcome of a native replay.
func Result() (fail string, observed []string, ev []string) {
	mu.Lock()
	defer mu.Unlock()
	return failure, obs, events
}

// IsSkip reports whether a recovered value means that an assumption failed.
func IsSkip(r interface{}) bool { _, ok := r.(skip); return ok }

func name(n string) string {
	mu.Lock()
	defer mu.Unlock()
	counts[n]++
	if c := counts[n]; c > 1 {
		n = fmt.Sprintf("%s#%d", n, c)
	}
	return n
}

func get(n string) interface{} {
	n = name(n)
	mu.Lock()
	defer mu.Unlock()
	return values[n]
}

// Native reports whether the code runs natively.
func Native() bool { return true }

// Bool is an arbitrary boolean.
func Bool(n string) bool {
	v, _ := get(n).(bool)
	return v
}

func num(v interface{}) int64 {
	s, _ := v.(string)
	i, _ := strconv.ParseInt(s, 10, 64)
	return i
}

// Byte is an arbitrary byte.
func Byte(n string) byte { return byte(num(get(n))) }

// Int is an arbitrary integer in [lo, hi].
func Int(n string, lo, hi int) int {
	v := get(n)
	if v == nil {
		return lo
	}
	return int(num(v))
}

// Int64 is an arbitrary 64-bit integer.
func Int64(n string) int64 { return num(get(n)) }

// Choose is an arbitrary integer in [0, k), concrete on every path.
func Choose(n string, k int) int { return int(num(get(n))) }

// Concrete makes a value concrete on every path.
func Concrete(v int) int { return v }

// IsTrue decides a condition on every path.
func IsTrue(b bool) bool { return b }

func str(n string) string {
	s, _ := get(n).(string)
	b, _ := hex.DecodeString(s)
	return string(b)
}

// Str is an arbitrary string of at most max bytes.
func Str(n string, max int) string { return str(n) }

// StrN is an arbitrary string of exactly k bytes.
func StrN(n string, k int) string { return str(n) }

// StrIn is an arbitrary string of at most max bytes from a set.
func StrIn(n string, max int, set string) string { return str(n) }

// StrNIn is an arbitrary string of exactly k bytes from a set.
func StrNIn(n string, k int, set string) string { return str(n) }

// Literal is one of the string constants of up to max bytes from a set (or of any bytes, if it is
// empty) in the current sources of packages, given by the ends of their paths.
func Literal(n, pkgs, set string, max int) string { return str(n) }

// Assume restricts the paths considered.
func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

// Fail reports a violation.
func Fail(msg string) {
	mu.Lock()
	if failure == "" {
		failure = msg
	}
	mu.Unlock()
	panic(Failure{msg})
}

// Reach marks a point that some path must reach.
func Reach(l string) {}

// Note records a remark.
func Note(s string) {}

// And, Or, Not and Implies do not branch.
func And(a, b bool) bool { return a && b }

// Or is a disjunction.
func Or(a, b bool) bool { return a || b }

// Not is a negation.
func Not(a bool) bool { return !a }

// Implies is an implication.
func Implies(a, b bool) bool { return !a || b }

// EqStr compares strings without branching.
func EqStr(a, b string) bool { return a == b }

// IteByte selects a byte without branching.
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// Param is a bound of the harness.
func Param(n string, def int) int {
	if v, ok := params[n]; ok {
		return v
	}
	return def
}

// Observe records a value that the executor and the native run must agree on.
func Observe(n string, v interface{}) {
	mu.Lock()
	defer mu.Unlock()
	obs = append(obs, n+"="+text(v))
}

func text(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(x)
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case byte:
		return strconv.Itoa(int(x))
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case []string:
		var p []string
		for _, s := range x {
			p = append(p, strconv.Quote(s))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("?%T", v)
}

// Event is a visible step of the harness.  A native replay tries to reproduce the recorded order.
func Event(label string) {
	mu.Lock()
	want := -1
	for i := orderPos; i < len(order); i++ {
		if order[i] == label {
			want = i
			break
		}
	}
	if want > orderPos {
		deadline := time.Now().Add(25 * time.Millisecond)
		for orderPos < want && time.Now().Before(deadline) {
			mu.Unlock()
			time.Sleep(200 * time.Microsecond)
			mu.Lock()
		}
	}
	if want >= orderPos && want >= 0 {
		orderPos = want + 1
	}
	events = append(events, label)
	j := 0
	if len(order) == 0 {
		j = jitter.Intn(4)
	}
	mu.Unlock()
	if j == 1 {
		runtime.Gosched()
	} else if j == 2 {
		time.Sleep(time.Duration(50) * time.Microsecond)
	}
}

// EventOn is a visible step that only depends on other such steps that touch the same things.
func EventOn(label string, writes, reads []string) { Event(label) }

var atomic sync.Mutex

// Atomic runs f without interference by other calls of Atomic; f takes no visible step.
func Atomic(f func()) {
	atomic.Lock()
	defer atomic.Unlock()
	f()
}

// Yield lets other goroutines run.
func Yield() { runtime.Gosched() }

// Events lists the events so far in order.
func Events() []string {
	mu.Lock()
	defer mu.Unlock()
	return append([]string(nil), events...)
}

// Quiesce waits until no other goroutine can make progress and returns how many are left.
func Quiesce() int {
	n := 0
	for i := 0; i < 60; i++ {
		n = runtime.NumGoroutine() - baseline
		if n <= 0 {
			return 0
		}
		time.Sleep(5 * time.Millisecond)
	}
	if os.Getenv("ZZ_STACKS") != "" {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		os.Stderr.Write(buf)
	}
	return n
}
