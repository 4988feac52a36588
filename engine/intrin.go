package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"
	"unicode"
)

type intrinsic func(m *M, g *G, args []Value, c *callInfo) (Value, bool)

var intrinsics map[string]intrinsic

var pureIntrinsics = map[string]bool{}

// packages whose initialisers are not run (their variables keep zero values)
var skipInit = map[string]bool{
	"runtime": true, "net": true, "crypto/tls": true, "crypto/x509": true, "syscall": true, "internal/poll": true,
	"os/signal": true, "internal/cpu": true, "golang.org/x/sys/unix": true, "os/user": true, "testing": true, "runtime/debug": true,
	"internal/godebug": true, "net/http": true, "log/slog": true, "crypto/rand": true, "crypto/internal/fips140": true,
}

func intrinsicByPrefix(name string) intrinsic {
	if in := reflectIntrinsic(name); in != nil {
		return in
	}
	switch {
	case strings.HasPrefix(name, "(*internal/godebug.Setting)."):
		return func(m *M, g *G, args []Value, c *callInfo) (Value, bool) {
			if strings.HasSuffix(name, ".Value") || strings.HasSuffix(name, ".Name") || strings.HasSuffix(name, ".String") {
				return "", false
			}
			return nil, false
		}
	case strings.HasPrefix(name, "internal/race."), strings.HasPrefix(name, "internal/msan."), strings.HasPrefix(name, "internal/asan."):
		return func(m *M, g *G, args []Value, c *callInfo) (Value, bool) { return nil, false }
	}
	return nil
}

func nop(m *M, g *G, args []Value, c *callInfo) (Value, bool) { return nil, false }

func simple(f func(m *M, a []Value) Value) intrinsic {
	return func(m *M, g *G, args []Value, c *callInfo) (Value, bool) { return f(m, args), false }
}

func errNil() Value { return Iface{} }

func (m *M) mutex(p Value) *mutexState {
	k := p.(Ptr)
	if k == nil {
		m.throwRT("invalid memory address or nil pointer dereference")
	}
	s := m.mutexes[k]
	if s == nil {
		s = &mutexState{}
		m.mutexes[k] = s
	}
	return s
}

func (m *M) wg(p Value) *wgState {
	k := p.(Ptr)
	if k == nil {
		m.throwRT("invalid memory address or nil pointer dereference")
	}
	s := m.wgs[k]
	if s == nil {
		s = &wgState{}
		m.wgs[k] = s
	}
	return s
}

func (m *M) wgAdd(s *wgState, d int) {
	s.n += d
	if s.n < 0 {
		m.throw(m.rtErrorPlain("sync: negative WaitGroup counter"))
	}
}

func init() {
	in := map[string]intrinsic{}
	intrinsics = in

	// sync
	in["(*sync.Mutex).Lock"] = func(m *M, g *G, args []Value, c *callInfo) (Value, bool) {
		s := m.mutex(args[0])
		m.block(&pendingOp{obj: s, what: "lock of a mutex", enabled: func() bool { return !s.locked && s.readers == 0 }, exec: func() { s.locked = true }})
		return nil, true
	}
	in["(*sync.Mutex).TryLock"] = simple(func(m *M, a []Value) Value {
		s := m.mutex(a[0])
		if s.locked {
			return false
		}
		m.sync(m.cur, s)
		s.locked = true
		return true
	})
	unlock := simple(func(m *M, a []Value) Value {
		s := m.mutex(a[0])
		if !s.locked {
			panic(pathFatal{"sync: unlock of unlocked mutex"})
		}
		s.locked = false
		m.sync(m.cur, s)
		return nil
	})
	in["(*sync.Mutex).Unlock"] = unlock
	in["(*sync.RWMutex).Lock"] = in["(*sync.Mutex).Lock"]
	in["(*sync.RWMutex).Unlock"] = unlock
	in["(*sync.RWMutex).RLock"] = func(m *M, g *G, args []Value, c *callInfo) (Value, bool) {
		s := m.mutex(args[0])
		m.block(&pendingOp{obj: s, what: "read lock of a mutex", enabled: func() bool { return !s.locked }, exec: func() { s.readers++ }})
		return nil, true
	}
	in["(*sync.RWMutex).RUnlock"] = simple(func(m *M, a []Value) Value {
		s := m.mutex(a[0])
		s.readers--
		m.sync(m.cur, s)
		return nil
	})
	in["(*sync.WaitGroup).Add"] = simple(func(m *M, a []Value) Value {
		m.sync(m.cur, m.wg(a[0]))
		m.wgAdd(m.wg(a[0]), m.toInt(a[1], "WaitGroup.Add"))
		return nil
	})
	in["(*sync.WaitGroup).Done"] = simple(func(m *M, a []Value) Value {
		m.sync(m.cur, m.wg(a[0]))
		m.wgAdd(m.wg(a[0]), -1)
		return nil
	})
	in["(*sync.WaitGroup).Wait"] = func(m *M, g *G, args []Value, c *callInfo) (Value, bool) {
		s := m.wg(args[0])
		m.block(&pendingOp{obj: s, what: "wait for a WaitGroup", enabled: func() bool { return s.n == 0 }, exec: func() {}, shared: true})
		return nil, true
	}
	in["(*sync.Pool).Get"] = simple(func(m *M, a []Value) Value {
		p := *(a[0].(Ptr))
		s := p.(Struct)
		fn := s[len(s)-1].(*Closure)
		if fn == nil {
			return Iface{}
		}
		return m.callSync(fn, nil)
	})
	in["(*sync.Pool).Put"] = nop
	in["sync.runtime_registerPoolCleanup"] = nop
	in["sync.throw"] = simple(func(m *M, a []Value) Value { panic(pathFatal{fmt.Sprint(a[0])}) })
	in["sync.fatal"] = in["sync.throw"]

	// sync/atomic
	for _, w := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 64}} {
		wid := w.w
		in["sync/atomic.Load"+w.n] = simple(func(m *M, a []Value) Value { return m.load(a[0], false) })
		in["sync/atomic.Store"+w.n] = simple(func(m *M, a []Value) Value { m.store(a[0], a[1], true, false); return nil })
		in["sync/atomic.Swap"+w.n] = simple(func(m *M, a []Value) Value {
			old := m.load(a[0], false)
			m.store(a[0], a[1], true, false)
			return old
		})
		in["sync/atomic.CompareAndSwap"+w.n] = simple(func(m *M, a []Value) Value {
			old := m.load(a[0], false)
			eq := m.eqTerm(old, a[1], nil)
			if m.branch(eq) {
				m.store(a[0], a[2], true, false)
				return true
			}
			return false
		})
		in["sync/atomic.Add"+w.n] = simple(func(m *M, a []Value) Value {
			old := m.load(a[0], false)
			v := m.norm(m.bank.Bin(OAdd, m.intTerm(old, wid), m.intTerm(a[1], wid)))
			m.store(a[0], v, true, false)
			return v
		})
		in["sync/atomic.And"+w.n] = simple(func(m *M, a []Value) Value {
			old := m.load(a[0], false)
			m.store(a[0], m.norm(m.bank.Bin(OAnd, m.intTerm(old, wid), m.intTerm(a[1], wid))), true, false)
			return old
		})
		in["sync/atomic.Or"+w.n] = simple(func(m *M, a []Value) Value {
			old := m.load(a[0], false)
			m.store(a[0], m.norm(m.bank.Bin(OOr, m.intTerm(old, wid), m.intTerm(a[1], wid))), true, false)
			return old
		})
	}
	for _, n := range sortedKeys(in) {
		if strings.HasPrefix(n, "sync/atomic.") {
			in[n] = atomicOp(in[n], strings.HasPrefix(n, "sync/atomic.Load"))
		}
	}
	in["(*sync/atomic.Value).Load"] = simple(func(m *M, a []Value) Value {
		m.sync(m.cur, a[0].(Ptr))
		return (*(a[0].(Ptr))).(Struct)[0]
	})
	in["(*sync/atomic.Value).Store"] = simple(func(m *M, a []Value) Value {
		m.sync(m.cur, a[0].(Ptr))
		s := (*(a[0].(Ptr))).(Struct)
		m.logStore(&s[0])
		s[0] = a[1]
		return nil
	})

	// runtime
	in["runtime.GOMAXPROCS"] = simple(func(m *M, a []Value) Value { return uint64(8) })
	in["runtime.NumCPU"] = in["runtime.GOMAXPROCS"]
	in["runtime.KeepAlive"] = nop
	in["runtime.SetFinalizer"] = nop
	in["runtime.GC"] = nop
	in["runtime.NumGoroutine"] = simple(func(m *M, a []Value) Value {
		n := 0
		for _, g := range m.gs {
			if !g.done {
				n++
			}
		}
		return uint64(n)
	})
	in["runtime.Callers"] = simple(func(m *M, a []Value) Value { return uint64(0) }) // no call stacks
	in["runtime.Gosched"] = yieldOp
	in["time.Sleep"] = yieldOp
	in["time.runtimeNano"] = simple(func(m *M, a []Value) Value { return uint64(1000) })
	in["time.Now"] = func(m *M, g *G, args []Value, c *callInfo) (Value, bool) {
		return zero(m.eng.typ("time", "Time")), false
	}
	in["time.Since"] = simple(func(m *M, a []Value) Value { return uint64(0) })
	in["time.runtimeNow"] = in["time.Now"]

	// strings and bytes
	in["internal/bytealg.IndexByte"] = simple(func(m *M, a []Value) Value { return m.indexByte(a[0].(Slice), a[1]) })
	in["internal/bytealg.IndexByteString"] = simple(func(m *M, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(uint64); ok {
				return uint64(int64(strings.IndexByte(s, byte(c))))
			}
		}
		return m.indexByte(bytesOf(a[0]), a[1])
	})
	in["strings.IndexByte"] = in["internal/bytealg.IndexByteString"]
	in["bytes.IndexByte"] = in["internal/bytealg.IndexByte"]
	in["internal/bytealg.LastIndexByteString"] = simple(func(m *M, a []Value) Value { return m.lastIndexByte(bytesOf(a[0]), a[1]) })
	in["internal/bytealg.LastIndexByte"] = simple(func(m *M, a []Value) Value { return m.lastIndexByte(a[0].(Slice), a[1]) })
	in["internal/bytealg.CountString"] = simple(func(m *M, a []Value) Value { return m.countByte(bytesOf(a[0]), a[1]) })
	in["internal/bytealg.Count"] = simple(func(m *M, a []Value) Value { return m.countByte(a[0].(Slice), a[1]) })
	in["internal/bytealg.Compare"] = simple(func(m *M, a []Value) Value { return m.compareBytes(a[0].(Slice), a[1].(Slice)) })
	in["internal/bytealg.CompareString"] = simple(func(m *M, a []Value) Value { return m.compareBytes(bytesOf(a[0]), bytesOf(a[1])) })
	in["internal/bytealg.Equal"] = simple(func(m *M, a []Value) Value {
		return m.norm(m.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice))))
	})
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	in["strings.Compare"] = in["internal/bytealg.CompareString"]
	in["strings.Index"] = simple(func(m *M, a []Value) Value { return m.indexStr(a[0], a[1]) })
	in["internal/bytealg.IndexString"] = in["strings.Index"]
	in["internal/stringslite.Index"] = in["strings.Index"]
	in["bytes.Index"] = simple(func(m *M, a []Value) Value {
		return m.indexStr(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	})
	in["internal/bytealg.Index"] = in["bytes.Index"]
	in["internal/bytealg.MakeNoZero"] = simple(func(m *M, a []Value) Value {
		n := m.toInt(a[0], "MakeNoZero")
		s := make(Slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	in["(*strings.Builder).String"] = simple(func(m *M, a []Value) Value {
		s := (*(a[0].(Ptr))).(Struct)
		b := s[1].(Slice)
		out := make([]Value, len(b))
		copy(out, b)
		return mkStr(out)
	})
	in["(*strings.Builder).copyCheck"] = nop
	in["internal/abi.NoEscape"] = simple(func(m *M, a []Value) Value { return a[0] })
	in["internal/abi.Escape"] = simple(func(m *M, a []Value) Value { return a[0] })
	in["internal/abi.FuncPCABIInternal"] = simple(func(m *M, a []Value) Value { return uint64(0) })
	in["internal/abi.FuncPCABI0"] = in["internal/abi.FuncPCABIInternal"]
	in["strings.Clone"] = simple(func(m *M, a []Value) Value { return a[0] })
	in["internal/stringslite.Clone"] = in["strings.Clone"]
	in["strings.ToUpper"] = nil
	delete(in, "strings.ToUpper")

	// math
	in["math.Float64bits"] = simple(func(m *M, a []Value) Value { return math.Float64bits(flt(a[0])) })
	in["math.Float64frombits"] = simple(func(m *M, a []Value) Value { return math.Float64frombits(a[0].(uint64)) })
	in["math.Float32bits"] = simple(func(m *M, a []Value) Value { return uint64(math.Float32bits(float32(flt(a[0])))) })
	in["math.Float32frombits"] = simple(func(m *M, a []Value) Value { return float64(math.Float32frombits(uint32(a[0].(uint64)))) })
	in["internal/strconv.float64bits"] = in["math.Float64bits"]
	in["internal/strconv.float64frombits"] = in["math.Float64frombits"]
	in["internal/strconv.float32bits"] = in["math.Float32bits"]
	in["internal/strconv.float32frombits"] = in["math.Float32frombits"]
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Log": math.Log, "Exp": math.Exp, "Log2": math.Log2, "Log10": math.Log10} {
		f := f
		in["math."+n] = simple(func(m *M, a []Value) Value { return f(flt(a[0])) })
	}
	in["math.Pow"] = simple(func(m *M, a []Value) Value { return math.Pow(flt(a[0]), flt(a[1])) })
	in["math/bits.Mul64"] = simple(func(m *M, a []Value) Value {
		hi, lo := bits.Mul64(a[0].(uint64), a[1].(uint64))
		return Tuple{hi, lo}
	})
	in["math/bits.Len64"] = simple(func(m *M, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			return uint64(bits.Len64(x))
		}
		return uint64(bits.Len64(m.concretize(a[0].(*Term), "bits.Len64")))
	})

	// reflectlite and errors
	in["internal/reflectlite.Swapper"] = simple(func(m *M, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		return &Closure{nat: func(m *M, b []Value) Value {
			i, j := m.toInt(b[0], "swap"), m.toInt(b[1], "swap")
			m.logStore(&s[i])
			m.logStore(&s[j])
			s[i], s[j] = s[j], s[i]
			return nil
		}}
	})
	in["reflect.Swapper"] = in["internal/reflectlite.Swapper"]
	in["internal/reflectlite.ValueOf"] = simple(func(m *M, a []Value) Value {
		return Struct{a[0], Ptr(nil), uint64(1)}
	})
	in["(internal/reflectlite.Value).Len"] = simple(func(m *M, a []Value) Value {
		return uint64(len(a[0].(Struct)[0].(Iface).v.(Slice)))
	})
	in["internal/reflectlite.TypeOf"] = simple(func(m *M, a []Value) Value { return m.typeOf(a[0]) })
	for _, n := range []string{"encoding/gob.Register", "encoding/gob.RegisterName"} {
		in[n] = simple(func(m *M, a []Value) Value { return nil })
	}
	in["reflect.TypeOf"] = in["internal/reflectlite.TypeOf"]
	in["errors.As"] = simple(func(m *M, a []Value) Value { return m.errorsAs(a[0], a[1]) })

	// os and environment (harnesses stub what matters)
	in["(*os.File).Write"] = simple(func(m *M, a []Value) Value { return Tuple{uint64(len(a[1].(Slice))), errNil()} })
	in["(*os.File).WriteString"] = simple(func(m *M, a []Value) Value { return Tuple{uint64(strLen(a[1])), errNil()} })
	in["(*os.File).Sync"] = simple(func(m *M, a []Value) Value { return errNil() })
	in["os.runtime_args"] = simple(func(m *M, a []Value) Value { return Slice{"pgutil"} })
	in["syscall.Getenv"] = simple(func(m *M, a []Value) Value { return Tuple{"", false} })
	in["syscall.runtime_envs"] = simple(func(m *M, a []Value) Value { return Slice{} })

	symIntrinsics(in)
	hookInit()
}

type pathFatal struct{ msg string }

func flt(v Value) float64 {
	f, ok := v.(float64)
	if !ok {
		panic(unsup("operation on a symbolic float"))
	}
	return f
}

func yieldOp(m *M, g *G, args []Value, c *callInfo) (Value, bool) {
	if len(m.gs) == 1 || m.initMode {
		return nil, false
	}
	m.block(&pendingOp{obj: new(int), what: "sleep", exec: func() {}})
	return nil, true
}

// pre hooks replace calls in special cases and otherwise let the real code run
var hooks = map[string]func(m *M, args []Value) (Value, bool){}

func hookInit() {
	caseMap := func(upper bool) func(m *M, a []Value) (Value, bool) {
		return func(m *M, a []Value) (Value, bool) {
			if s, ok := a[0].(string); ok {
				if upper {
					return strings.ToUpper(s), true
				}
				return strings.ToLower(s), true
			}
			b := a[0].(*SymStr).b
			for _, x := range b {
				if m.maybe(m.bank.Cmp(OUle, m.bank.Const(0x80, 8), m.intTerm(x, 8))) {
					// decide per byte whether it is ASCII
					if t, ok := x.(*Term); ok && m.branch(m.bank.Cmp(OUlt, t, m.bank.Const(0x80, 8))) {
						continue
					}
					return nil, false
				}
			}
			out := make([]Value, len(b))
			lo, hi := uint64('a'), uint64('z')
			if !upper {
				lo, hi = 'A', 'Z'
			}
			for i, x := range b {
				t := m.intTerm(x, 8)
				in := m.bank.And(m.bank.Cmp(OUle, m.bank.Const(lo, 8), t), m.bank.Cmp(OUle, t, m.bank.Const(hi, 8)))
				out[i] = m.norm(m.bank.Ite(in, m.bank.Bin(OXor, t, m.bank.Const(0x20, 8)), t))
			}
			return mkStr(out), true
		}
	}
	hooks["strings.ToUpper"] = caseMap(true)
	hooks["strings.ToLower"] = caseMap(false)
	// the fold of a symbolic letter: a table of ASCII is arithmetic, any other rune is enumerated
	hooks["unicode.SimpleFold"] = func(m *M, a []Value) (Value, bool) {
		t, ok := a[0].(*Term)
		if !ok || t.isConst() {
			return nil, false
		}
		b := m.bank
		c := func(v uint64) *Term { return b.Const(v, 32) }
		if !m.branch(b.Cmp(OUlt, t, c(0x80))) {
			r := unicode.SimpleFold(rune(int32(m.concretize(t, "rune"))))
			return m.norm(c(uint64(uint32(r)))), true
		}
		in := func(lo, hi uint64) *Term { return b.And(b.Cmp(OUle, c(lo), t), b.Cmp(OUle, t, c(hi))) }
		r := b.Ite(in('A', 'Z'), b.Bin(OXor, t, c(0x20)), b.Ite(in('a', 'z'), b.Bin(OXor, t, c(0x20)), t))
		r = b.Ite(b.Eq(t, c('k')), c(0x212a), b.Ite(b.Eq(t, c('s')), c(0x17f), r))
		return m.norm(r), true
	}
	hooks["strconv.ParseFloat"] = func(m *M, a []Value) (Value, bool) {
		if _, ok := a[0].(*SymStr); ok {
			return nil, false
		}
		return nil, false
	}
}

func (m *M) indexByte(b []Value, c Value) Value {
	ct := m.intTerm(c, 8)
	for i, x := range b {
		e := m.bank.Eq(m.intTerm(x, 8), ct)
		if m.branch(e) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (m *M) lastIndexByte(b []Value, c Value) Value {
	ct := m.intTerm(c, 8)
	for i := len(b) - 1; i >= 0; i-- {
		if m.branch(m.bank.Eq(m.intTerm(b[i], 8), ct)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (m *M) countByte(b []Value, c Value) Value {
	ct := m.intTerm(c, 8)
	n := m.bank.Const(0, 64)
	for _, x := range b {
		e := m.bank.Eq(m.intTerm(x, 8), ct)
		n = m.bank.Bin(OAdd, n, m.bank.Ite(e, m.bank.Const(1, 64), m.bank.Const(0, 64)))
	}
	return m.norm(n)
}

func (m *M) compareBytes(a, b []Value) Value {
	x, y := mkStr(append([]Value(nil), a...)), mkStr(append([]Value(nil), b...))
	lt, eq := m.strLess(x, y, false), m.strEq(x, y)
	return m.norm(m.bank.Ite(eq, m.bank.Const(0, 64), m.bank.Ite(lt, m.bank.Const(^uint64(0), 64), m.bank.Const(1, 64))))
}

func (m *M) indexStr(s, sub Value) Value {
	x, ok1 := s.(string)
	y, ok2 := sub.(string)
	if ok1 && ok2 {
		return uint64(int64(strings.Index(x, y)))
	}
	n, k := strLen(s), strLen(sub)
	for i := 0; i+k <= n; i++ {
		if m.branch(m.strEq(subStr(s, i, i+k), sub)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

// builtins --------------------------------------------------------------------------------------

type sliceHead struct{ s Slice }
type strHead struct{ v Value }

func (m *M) builtin(name string, args []Value, ci *callInfo) Value {
	switch name {
	case "Sizeof":
		if len(ci.argT) > 0 && ci.argT[0] != nil {
			return uint64(types.SizesFor("gc", "amd64").Sizeof(ci.argT[0]))
		}
	case "len":
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case *SymStr:
			return uint64(len(x.b))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case Ptr:
			if x == nil {
				return uint64(ci.argT[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			}
			return uint64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case Ptr:
			return uint64(len((*x).(Array)))
		}
	case "append":
		dst, ok := args[0].(Slice)
		if !ok {
			break
		}
		var src []Value
		if len(args) > 1 {
			switch s := args[1].(type) {
			case Slice:
				src = s
			case string, *SymStr:
				src = bytesOf(s)
			default:
				panic(unsup("append of %T", args[1]))
			}
		}
		if len(src) == 0 {
			return dst
		}
		et := ci.argT[0].Underlying().(*types.Slice).Elem()
		nc := needCopy(et)
		n := len(dst)
		var out Slice
		if n+len(src) <= cap(dst) {
			out = dst[:n+len(src)]
			for i := n; i < len(out); i++ {
				m.logStore(&out[i])
			}
		} else {
			k := growCap(cap(dst), n+len(src), elemSize(et))
			out = make(Slice, n+len(src), k)
			copy(out, dst)
			if nc {
				for i := 0; i < n; i++ {
					out[i] = copyVal(dst[i])
				}
			}
			full := out[:k]
			if k > len(out) {
				z := zero(et)
				for i := len(out); i < k; i++ {
					if nc {
						full[i] = copyVal(z)
					} else {
						full[i] = z
					}
				}
			}
		}
		for i, v := range src {
			if nc {
				v = copyVal(v)
			}
			out[n+i] = v
		}
		return out
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			src = s
		default:
			src = bytesOf(s)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.logStore(&dst[i])
			dst[i] = tmp[i]
		}
		return uint64(n)
	case "delete":
		if mp := args[0].(*Map); mp != nil {
			if m.racing() && m.cur.top != nil && raceChecked(m.cur.top.fi.fn) {
				m.access(mp, true, m.cur.top.fi.fn.Pos())
			}
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				m.touchMap(x)
				x.ents, x.idx, x.n, x.nsym = nil, map[any]int{}, 0, 0
			}
		case Slice:
			et := ci.argT[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				m.logStore(&x[i])
				x[i] = zero(et)
			}
		}
		return nil
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			m.throw(m.rtErrorPlain("close of nil channel"))
		}
		g := m.cur
		m.block(&pendingOp{obj: ch, what: "close", exec: func() {
			if ch.closed {
				m.panicIn(g, m.rtErrorPlain("close of closed channel"))
				return
			}
			ch.closed = true
		}})
		return nil
	case "print", "println":
		return nil
	case "recover":
		f := m.cur.top
		// f is the function that called recover
		if f.deferOf != nil && f.deferOf.panicking && !f.deferOf.recovered {
			f.deferOf.recovered = true
			f.deferOf.panicking = false
			v := f.deferOf.panicVal
			return v
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			r = m.minmax(name == "min", r, y, ci)
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			m.throwRT(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		return &sliceHead{s}
	case "StringData":
		return &strHead{args[0]}
	case "String":
		n := m.toInt(args[1], "unsafe.String")
		switch h := args[0].(type) {
		case *sliceHead:
			out := make([]Value, n)
			copy(out, h.s[:n])
			return mkStr(out)
		case *strHead:
			return subStr(h.v, 0, n)
		case Ptr:
			if n == 0 {
				return ""
			}
		}
	case "Slice":
		n := m.toInt(args[1], "unsafe.Slice")
		switch h := args[0].(type) {
		case *strHead:
			b := bytesOf(h.v)
			out := make(Slice, n)
			copy(out, b)
			return out
		case *sliceHead:
			return h.s[:n]
		}
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	}
	panic(unsup("builtin %s on %T", name, args[0]))
}

func (m *M) minmax(min bool, a, b Value, ci *callInfo) Value {
	switch x := a.(type) {
	case float64:
		if min {
			return math.Min(x, flt(b))
		}
		return math.Max(x, flt(b))
	case string, *SymStr:
		if m.branch(m.strLess(a, b, true)) == min {
			return a
		}
		return b
	}
	w, signed, _ := widthOf(ci.argT[0])
	op := OUle
	if signed {
		op = OSle
	}
	ta, tb := m.intTerm(a, w), m.intTerm(b, w)
	c := m.bank.Cmp(op, ta, tb)
	if !min {
		c = m.bank.Cmp(op, tb, ta)
	}
	return m.norm(m.bank.Ite(c, ta, tb))
}

func elemSize(t types.Type) int {
	s := types.SizesFor("gc", "amd64")
	n := int(s.Sizeof(t))
	if n < 1 {
		n = 1
	}
	return n
}

// growCap mirrors runtime.growslice for the capacities that programs can observe.
func growCap(oldCap, need, size int) int {
	nc := oldCap
	double := nc + nc
	if need > double {
		nc = need
	} else if oldCap < 256 {
		nc = double
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	// round up to size classes
	bytes := nc * size
	for _, c := range sizeClasses {
		if bytes <= c {
			return c / size
		}
	}
	return nc
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}
