package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

const symPkg = "github.com/sjansen/pgutil/internal/zzverif/sym"

func (m *M) symName(v Value) string {
	n := v.(string)
	m.counters[n]++
	if c := m.counters[n]; c > 1 {
		n = fmt.Sprintf("%s#%d", n, c)
	}
	return n
}

func (m *M) newVar(name string, w uint8) *Term {
	t := m.bank.Var(name, w)
	m.useVar(t)
	return t
}

func (m *M) symStr(name string, n int, charset string) Value {
	b := make([]Value, n)
	for i := range b {
		t := m.newVar(name+"["+strconv.Itoa(i)+"]", 8)
		b[i] = t
		if charset != "" {
			m.assume(m.norm(m.inSet(t, charset)))
		}
	}
	v := mkStr(b)
	return v
}

// literals lists the string constants in the sources of packages (the ends of their paths, separated by
// commas), of up to max bytes of the set.
func (e *Engine) literals(pkgs, set string, max int) []string {
	key := pkgs + "\x00" + set + "\x00" + strconv.Itoa(max)
	e.litMu.Lock()
	defer e.litMu.Unlock()
	if l, ok := e.lits[key]; ok {
		return l
	}
	found := map[string]bool{}
	packages.Visit(e.pkgs, nil, func(p *packages.Package) {
		wanted := false
		for _, s := range strings.Split(pkgs, ",") {
			wanted = wanted || p.PkgPath == s || strings.HasSuffix(p.PkgPath, "/"+s)
		}
		if !wanted {
			return
		}
		for x, tv := range p.TypesInfo.Types {
			if tv.Value == nil || tv.Value.Kind() != constant.String {
				continue
			}
			if _, ours := e.overlay[p.Fset.Position(x.Pos()).Filename]; ours {
				continue
			}
			s := constant.StringVal(tv.Value)
			ok := len(s) > 0 && len(s) <= max
			for i := 0; ok && i < len(s); i++ {
				ok = set == "" || setHas(set, s[i])
			}
			if ok {
				found[s] = true
			}
		}
	})
	l := make([]string, 0, len(found))
	for s := range found {
		l = append(l, s)
	}
	sort.Strings(l)
	if e.lits == nil {
		e.lits = map[string][]string{}
	}
	e.lits[key] = l
	return l
}

func setHas(set string, b byte) bool {
	for i := 0; i < len(set); i++ {
		if i+2 < len(set) && set[i+1] == '-' {
			if set[i] <= b && b <= set[i+2] {
				return true
			}
			i += 2
		} else if set[i] == b {
			return true
		}
	}
	return false
}

// inSet builds membership of t in a set of bytes; "a-z" ranges are allowed.
func (m *M) inSet(t *Term, set string) *Term {
	r := m.bank.False
	for i := 0; i < len(set); i++ {
		c := set[i]
		if i+2 < len(set) && set[i+1] == '-' {
			r = m.bank.Or(r, m.bank.And(m.bank.Cmp(OUle, m.bank.Const(uint64(c), 8), t), m.bank.Cmp(OUle, t, m.bank.Const(uint64(set[i+2]), 8))))
			i += 2
			continue
		}
		r = m.bank.Or(r, m.bank.Eq(t, m.bank.Const(uint64(c), 8)))
	}
	return r
}

func (m *M) recVar(name, kind string, vals ...Value) {
	m.p.vars = append(m.p.vars, varRec{name, kind, vals})
}

func symIntrinsics(in map[string]intrinsic) {
	reg := func(n string, f func(m *M, a []Value) Value) { in[symPkg+"."+n] = simple(f) }
	reg("Bool", func(m *M, a []Value) Value {
		n := m.symName(a[0])
		t := m.newVar(n, 0)
		m.recVar(n, "bool", t)
		return t
	})
	reg("Byte", func(m *M, a []Value) Value {
		n := m.symName(a[0])
		t := m.newVar(n, 8)
		m.recVar(n, "int", t)
		return t
	})
	reg("Int", func(m *M, a []Value) Value {
		n := m.symName(a[0])
		lo, hi := m.toInt(a[1], "lo"), m.toInt(a[2], "hi")
		if hi < lo {
			panic(pathEnd{"empty range"})
		}
		if hi == lo {
			m.recVar(n, "int", uint64(int64(lo)))
			return uint64(int64(lo))
		}
		var v Value
		if hi-lo <= 255 {
			t := m.newVar(n, 8)
			if hi-lo < 255 {
				m.assume(m.norm(m.bank.Cmp(OUle, t, m.bank.Const(uint64(hi-lo), 8))))
			}
			v = m.norm(m.bank.Bin(OAdd, m.bank.Zext(t, 64), m.bank.Const(uint64(int64(lo)), 64)))
		} else {
			t := m.newVar(n, 64)
			m.assume(m.norm(m.bank.And(m.bank.Cmp(OSle, m.bank.Const(uint64(int64(lo)), 64), t), m.bank.Cmp(OSle, t, m.bank.Const(uint64(int64(hi)), 64)))))
			v = t
		}
		m.recVar(n, "int", v)
		return v
	})
	reg("Int64", func(m *M, a []Value) Value {
		n := m.symName(a[0])
		t := m.newVar(n, 64)
		m.recVar(n, "int", t)
		return t
	})
	reg("Choose", func(m *M, a []Value) Value {
		n := m.symName(a[0])
		k := m.toInt(a[1], "n")
		if k < 1 {
			panic(pathEnd{"empty choice"})
		}
		if k == 1 {
			m.recVar(n, "int", uint64(0))
			return uint64(0)
		}
		t := m.newVar(n, 8)
		m.assume(m.norm(m.bank.Cmp(OUlt, t, m.bank.Const(uint64(k), 8))))
		v := m.concretize(t, n)
		m.recVar(n, "int", v)
		return v
	})
	reg("Concrete", func(m *M, a []Value) Value {
		return uint64(int64(m.toInt(a[0], "value")))
	})
	reg("IsTrue", func(m *M, a []Value) Value {
		return m.branch(m.boolTerm(a[0]))
	})
	str := func(lenKnown bool, charset bool) func(m *M, a []Value) Value {
		return func(m *M, a []Value) Value {
			n := m.symName(a[0])
			k := m.toInt(a[1], "length")
			if !lenKnown {
				t := m.newVar(n+".len", 8)
				m.assume(m.norm(m.bank.Cmp(OUle, t, m.bank.Const(uint64(k), 8))))
				k = int(m.concretize(t, "length of "+n))
			}
			cs := ""
			if charset {
				cs = a[2].(string)
			}
			v := m.symStr(n, k, cs)
			m.recVar(n, "string", v)
			return v
		}
	}
	reg("Literal", func(m *M, a []Value) Value {
		n := m.symName(a[0])
		lits := m.eng.literals(a[1].(string), a[2].(string), m.toInt(a[3], "length"))
		v := ""
		if len(lits) > 0 {
			i := 0
			for ; len(lits) > 200; i++ { // in parts, as a choice is a byte
				t := m.newVar(n+".part"+strconv.Itoa(i), 0)
				if m.branch(t) {
					lits = lits[:200]
				} else {
					lits = lits[200:]
				}
			}
			v = lits[m.choose(len(lits), n)]
		}
		m.recVar(n, "string", v)
		return v
	})
	reg("Str", str(false, false))
	reg("StrN", str(true, false))
	reg("StrIn", str(false, true))
	reg("StrNIn", str(true, true))
	reg("Assume", func(m *M, a []Value) Value { m.assume(a[0]); return nil })
	reg("Assert", func(m *M, a []Value) Value {
		msg, _ := a[1].(string)
		m.assertProp(a[0], msg)
		return nil
	})
	reg("Fail", func(m *M, a []Value) Value {
		msg, _ := a[0].(string)
		m.assertProp(false, msg)
		return nil
	})
	reg("Reach", func(m *M, a []Value) Value {
		m.hs.reach(a[0].(string))
		return nil
	})
	reg("Observe", func(m *M, a []Value) Value {
		m.p.obs = append(m.p.obs, obsRec{a[0].(string), copyVal(a[1])})
		return nil
	})
	reg("And", func(m *M, a []Value) Value { return m.norm(m.bank.And(m.boolTerm(a[0]), m.boolTerm(a[1]))) })
	reg("Or", func(m *M, a []Value) Value { return m.norm(m.bank.Or(m.boolTerm(a[0]), m.boolTerm(a[1]))) })
	reg("Not", func(m *M, a []Value) Value { return m.norm(m.bank.Not(m.boolTerm(a[0]))) })
	reg("Implies", func(m *M, a []Value) Value {
		return m.norm(m.bank.Or(m.bank.Not(m.boolTerm(a[0])), m.boolTerm(a[1])))
	})
	reg("EqStr", func(m *M, a []Value) Value { return m.norm(m.strEq(a[0], a[1])) })
	reg("IteByte", func(m *M, a []Value) Value {
		v, ok := m.mergeW(m.boolTerm(a[0]), a[1], a[2], 8)
		if !ok {
			panic(unsup("IteByte"))
		}
		return v
	})
	reg("Param", func(m *M, a []Value) Value {
		if v, ok := m.hs.params[a[0].(string)]; ok {
			return uint64(int64(v))
		}
		return a[1]
	})
	reg("Native", func(m *M, a []Value) Value { return false })
	reg("Note", func(m *M, a []Value) Value { m.note(a[0].(string)); return nil })
	in[symPkg+".Event"] = func(m *M, g *G, a []Value, c *callInfo) (Value, bool) {
		label := a[0].(string)
		if len(m.gs) == 1 {
			m.p.steps = append(m.p.steps, label)
			return nil, false
		}
		m.block(&pendingOp{obj: "event", what: "event " + label, exec: func() { m.p.steps = append(m.p.steps, label) }})
		return nil, true
	}
	in[symPkg+".EventOn"] = func(m *M, g *G, a []Value, c *callInfo) (Value, bool) {
		label := a[0].(string)
		if len(m.gs) == 1 {
			m.p.steps = append(m.p.steps, label)
			return nil, false
		}
		op := &pendingOp{what: "event " + label, exec: func() { m.p.steps = append(m.p.steps, label) }}
		for _, w := range a[1].(Slice) {
			op.evs = append(op.evs, evObj{w.(string), true})
		}
		for _, w := range a[2].(Slice) {
			op.evs = append(op.evs, evObj{w.(string), false})
		}
		m.block(op)
		return nil, true
	}
	in[symPkg+".Atomic"] = func(m *M, g *G, a []Value, c *callInfo) (Value, bool) {
		m.callSync(a[0].(*Closure), nil)
		return nil, false
	}
	in[symPkg+".Yield"] = func(m *M, g *G, a []Value, c *callInfo) (Value, bool) {
		m.block(&pendingOp{obj: "event", what: "yield", exec: func() {}})
		return nil, true
	}
	in[symPkg+".Events"] = simple(func(m *M, a []Value) Value {
		s := make(Slice, len(m.p.steps))
		for i, x := range m.p.steps {
			s[i] = x
		}
		return s
	})
	in[symPkg+".Quiesce"] = func(m *M, g *G, a []Value, c *callInfo) (Value, bool) {
		dst := -1
		if c != nil {
			dst = c.dst
		}
		f := g.top
		m.block(&pendingOp{what: "quiescence", last: true, exec: func() {
			n := 0
			var names []string
			for _, h := range m.gs {
				if h != g && !h.done {
					n++
					names = append(names, h.name)
				}
			}
			for _, h := range m.gs {
				g.vc.join(h.vc)
			}
			m.live["blocked"] = m.blockedText()
			if dst >= 0 {
				f.regs[dst] = uint64(n)
			}
		}})
		return nil, true
	}
}

// concrete values under a model ------------------------------------------------------------------

func (m *M) conc(v Value) Value {
	switch x := v.(type) {
	case *Term:
		r := m.evalModel(x)
		if x.w == 0 {
			return r != 0
		}
		return r
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			b[i] = byte(m.conc(e).(uint64))
		}
		return string(b)
	}
	return v
}

// obsText renders an observed value like the native implementation does.
func (m *M) obsText(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if w, signed, ok := widthOf(x.t.t); ok {
			c := m.conc(x.v).(uint64)
			if signed {
				return strconv.FormatInt(sext(c, w), 10)
			}
			return strconv.FormatUint(c, 10)
		}
		return m.obsText(x.v)
	case *Term:
		return m.obsText(m.conc(x))
	case *SymStr:
		return m.obsText(m.conc(x))
	case string:
		return strconv.Quote(x)
	case bool:
		return strconv.FormatBool(x)
	case uint64:
		return strconv.FormatInt(int64(x), 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case Slice:
		var p []string
		for _, e := range x {
			p = append(p, m.obsText(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("?%T", v)
}

// inputs lists the concrete values of the symbolic inputs of the current path.
func (m *M) inputs() map[string]any {
	out := map[string]any{}
	for _, v := range m.p.vars {
		switch v.Kind {
		case "bool":
			out[v.Name] = m.conc(v.Terms[0]).(bool)
		case "int":
			out[v.Name] = strconv.FormatInt(int64(m.conc(v.Terms[0]).(uint64)), 10)
		case "string":
			out[v.Name] = hexStr(m.conc(v.Terms[0]).(string))
		}
	}
	return out
}

func hexStr(s string) string { return fmt.Sprintf("%x", s) }

func sortedKeys[V any](mp map[string]V) []string {
	ks := make([]string, 0, len(mp))
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
