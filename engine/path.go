package main

import (
	"fmt"
	"sort"
	"strconv"
)

// A path is one execution of the harness: the sequence of decisions taken (symbolic branches, leaves of
// merged regions, concretised values, schedule choices, iteration orders) identifies it.

type decNode struct {
	parent *decNode
	val    uint64
	depth  int
}

type workItem struct {
	dec   *decNode
	model map[string]uint64
	depth int
}

type Path struct {
	prefix []uint64
	pos    int
	last   *decNode

	model     []uint64 // by variable id
	modelGen  int
	seed      map[string]uint64
	exported  map[string]uint64
	exportGen int
	used      []*Term // variables in order of creation on this path
	usedSet   map[int32]bool

	pcs     []*Term
	dom     map[int32]*[4]uint64
	varCons map[int32][]*Term // constraints mentioning the variable
	multi   map[int32]bool    // variable occurs in a constraint with other variables (or is wide)
	pcSet   map[*Term]bool
	ranges  map[*Term]rangeVal
	runes   map[*Term][]Value // the UTF-8 text of a decoded character

	asserts    int
	obs        []obsRec
	vars       []varRec
	steps      []string // sym.Step labels in order
	devs       int      // non-default iteration orders so far
	schedN     int
	choices    int
	preempt    int
	newItems   []*workItem
	assumeDead bool
}

type obsRec struct {
	Name string
	Val  Value
}

type varRec struct {
	Name  string
	Kind  string
	Terms []Value // the bytes of a string or the single value
}

// control-flow panics of the engine
type pathEnd struct{ why string }  // path is infeasible, pruned or assumption failed
type pathStop struct{ why string } // bounded: step limit etc.

func (m *M) newPath(it *workItem) {
	p := &Path{seed: it.model, dom: map[int32]*[4]uint64{}, varCons: map[int32][]*Term{}, multi: map[int32]bool{},
		usedSet: map[int32]bool{}, pcSet: map[*Term]bool{}}
	n := 0
	if it.dec != nil {
		n = it.dec.depth
	}
	p.prefix = make([]uint64, n)
	for d := it.dec; d != nil; d = d.parent {
		p.prefix[d.depth-1] = d.val
	}
	m.p = p
}

func (m *M) useVar(t *Term) {
	p := m.p
	id := int32(t.v)
	if p.usedSet[id] {
		return
	}
	p.usedSet[id] = true
	p.used = append(p.used, t)
	for len(p.model) <= int(id) {
		p.model = append(p.model, 0)
	}
	p.model[id] = p.seed[t.name] & maskB(t.w)
	if t.w <= 8 {
		d := fullDom(t.w)
		p.dom[id] = &d
	} else {
		p.multi[id] = true
	}
}

func (m *M) modelVal(id int32) uint64 {
	if int(id) < len(m.p.model) {
		return m.p.model[id]
	}
	return 0
}

func (m *M) evalModel(t *Term) uint64 {
	e := evalCtx{val: m.modelVal}
	return e.eval(t)
}

func (m *M) exportModel() map[string]uint64 {
	p := m.p
	if p.exported != nil && p.exportGen == p.modelGen && len(p.exported) >= 0 {
		return p.exported
	}
	out := make(map[string]uint64, len(p.used))
	for k, v := range p.seed {
		out[k] = v
	}
	for _, t := range p.used {
		v := p.model[int32(t.v)]
		if v != 0 {
			out[t.name] = v
		} else {
			delete(out, t.name)
		}
	}
	p.exported, p.exportGen = out, p.modelGen
	return out
}

// addPC adds a constraint known to hold under the current model.
func (m *M) addPC(t *Term) {
	if t == m.bank.True {
		return
	}
	if t.op == OBAnd {
		m.addPC(t.a)
		m.addPC(t.b)
		return
	}
	p := m.p
	if p.pcSet[t] {
		return
	}
	p.pcSet[t] = true
	p.pcs = append(p.pcs, t)
	single := len(t.vars) == 1 && m.bank.byID[t.vars[0]].w <= 8
	for _, v := range t.vars {
		m.useVar(m.bank.byID[v])
		p.varCons[v] = append(p.varCons[v], t)
		if !single {
			p.multi[v] = true
		}
	}
	if single {
		tt := m.bank.truthTable(t)
		d := *p.dom[t.vars[0]]
		for i := range d {
			d[i] &= tt[i]
		}
		p.dom[t.vars[0]] = &d
	}
}

// slice returns the constraints connected with the variables of t.
func (m *M) slice(t *Term) []*Term {
	p := m.p
	seenV := map[int32]bool{}
	seenC := map[*Term]bool{}
	var out []*Term
	stack := append([]int32(nil), t.vars...)
	for _, v := range stack {
		seenV[v] = true
	}
	for len(stack) > 0 {
		v := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, c := range p.varCons[v] {
			if seenC[c] {
				continue
			}
			seenC[c] = true
			out = append(out, c)
			for _, u := range c.vars {
				if !seenV[u] {
					seenV[u] = true
					stack = append(stack, u)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// feasible decides pc && t.  When it holds in the current model no model change is returned.
func (m *M) feasible(t *Term) (SatResult, map[int32]uint64) {
	if t == m.bank.False {
		return Unsat, nil
	}
	for _, v := range t.vars {
		m.useVar(m.bank.byID[v])
	}
	if m.evalModel(t) != 0 {
		m.st.ModelDecided++
		return Sat, nil
	}
	p := m.p
	if len(t.vars) == 1 {
		v := t.vars[0]
		if m.bank.byID[v].w <= 8 {
			tt := m.bank.truthTable(t)
			d := p.dom[v]
			var x [4]uint64
			for i := range x {
				x[i] = d[i] & tt[i]
			}
			first, ok := domFirst(&x)
			if !ok {
				m.st.DomainDecided++
				m.confirm(t)
				return Unsat, nil
			}
			if !p.multi[v] {
				m.st.DomainDecided++
				return Sat, map[int32]uint64{v: first}
			}
		}
	}
	if m.tri(t) == 0 {
		m.st.RangeDecided++
		if m.confirmed < 200 {
			m.confirmed++
			m.confirm(t)
		}
		return Unsat, nil
	}
	return m.solve(t)
}

// confirm asks the SMT solver for the refutation of t that the domains or ranges of the path gave.
func (m *M) confirm(t *Term) {
	var cs []*Term
	if len(t.vars) == 1 && m.bank.byID[t.vars[0]].w <= 8 {
		for _, c := range m.p.varCons[t.vars[0]] {
			if len(c.vars) == 1 {
				cs = append(cs, c)
			}
		}
	} else {
		cs = m.slice(t)
	}
	m.st.Confirmed++
	if r, _ := m.solver.check(append(cs, t)); r == Sat {
		panic("the solver does not confirm a refutation")
	}
}

// solve asks the SMT solver for pc && t, using only the constraints connected with t.
func (m *M) solve(t *Term) (SatResult, map[int32]uint64) {
	cs := append(m.slice(t), t)
	r, mod := m.solver.check(cs)
	return r, mod
}

func (m *M) setModel(delta map[int32]uint64) {
	if delta == nil {
		return
	}
	p := m.p
	for id, v := range delta {
		m.useVar(m.bank.byID[id])
		p.model[id] = v
	}
	p.modelGen++
}

// withModel exports the current model changed by delta.
func (m *M) withModel(delta map[int32]uint64) map[string]uint64 {
	base := m.exportModel()
	if delta == nil {
		return base
	}
	out := make(map[string]uint64, len(base)+len(delta))
	for k, v := range base {
		out[k] = v
	}
	for id, v := range delta {
		n := m.bank.byID[id].name
		if v != 0 {
			out[n] = v
		} else {
			delete(out, n)
		}
	}
	return out
}

func (m *M) replaying() bool { return m.p.pos < len(m.p.prefix) }

func (m *M) nextDec() uint64 {
	v := m.p.prefix[m.p.pos]
	m.p.pos++
	m.record(v)
	return v
}

func (m *M) record(v uint64) {
	d := 1
	if m.p.last != nil {
		d = m.p.last.depth + 1
	}
	m.p.last = &decNode{parent: m.p.last, val: v, depth: d}
}

func (m *M) enqueue(v uint64, model map[string]uint64) {
	d := 1
	if m.p.last != nil {
		d = m.p.last.depth + 1
	}
	m.p.newItems = append(m.p.newItems, &workItem{dec: &decNode{parent: m.p.last, val: v, depth: d}, model: model})
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (m *M) branch(c *Term) bool {
	if c == m.bank.True {
		return true
	}
	if c == m.bank.False {
		return false
	}
	if m.merging {
		panic(bailOut{})
	}
	if m.initMode {
		panic(unsup("symbolic branch during package initialisation"))
	}
	if m.replaying() {
		v := m.nextDec()
		if v&2 != 0 { // implied by the path condition
			return v == 3
		}
		if v == 1 {
			m.addPC(c)
			return true
		}
		m.addPC(m.bank.Not(c))
		return false
	}
	for _, v := range c.vars {
		m.useVar(m.bank.byID[v])
	}
	cur := m.evalModel(c) != 0
	other := c
	if cur {
		other = m.bank.Not(c)
	}
	r, delta := m.feasible(other)
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch r {
	case Sat:
		m.enqueue(b2(!cur), m.withModel(delta))
		m.st.Forks++
		m.profileFork("branch")
	case Unknown:
		m.note("solver gave no answer for a branch; that side was not explored")
		m.incomplete = true
	default:
		m.record(b2(cur) | 2)
		return cur
	}
	m.record(b2(cur))
	if cur {
		m.addPC(c)
	} else {
		m.addPC(m.bank.Not(c))
	}
	return cur
}

// branchN picks one of several mutually exclusive, exhaustive guards.
func (m *M) branchN(gs []*Term) int {
	if m.merging {
		panic(bailOut{})
	}
	if m.replaying() {
		v := int(m.nextDec())
		m.addPC(gs[v])
		return v
	}
	cur := -1
	for i, g := range gs {
		for _, v := range g.vars {
			m.useVar(m.bank.byID[v])
		}
		if m.evalModel(g) != 0 {
			cur = i
			break
		}
	}
	if cur < 0 {
		panic(fmt.Sprintf("branchN: no guard holds (%d guards)", len(gs)))
	}
	for i := len(gs) - 1; i >= 0; i-- {
		if i == cur {
			continue
		}
		r, delta := m.feasible(gs[i])
		switch r {
		case Sat:
			m.enqueue(uint64(i), m.withModel(delta))
			m.st.Forks++
			m.profileFork("branchN")
		case Unknown:
			m.note("solver gave no answer for a branch; that side was not explored")
			m.incomplete = true
		}
	}
	m.record(uint64(cur))
	m.addPC(gs[cur])
	return cur
}

// concretize picks a value for t, forking over all feasible values.
func (m *M) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.v
	}
	if m.merging {
		panic(bailOut{})
	}
	eq := func(v uint64) *Term {
		if t.w == 0 {
			if v == 1 {
				return t
			}
			return m.bank.Not(t)
		}
		return m.bank.Eq(t, m.bank.Const(v, t.w))
	}
	if m.replaying() {
		v := m.nextDec()
		m.addPC(eq(v))
		return v
	}
	for _, v := range t.vars {
		m.useVar(m.bank.byID[v])
	}
	cur := m.evalModel(t)
	seen := m.bank.Not(eq(cur))
	for n := 0; ; n++ {
		if n > 300 {
			m.note("more than 300 values for " + what + "; the rest were not explored")
			m.incomplete = true
			break
		}
		r, delta := m.feasible(seen)
		if r == Unsat {
			break
		}
		if r == Unknown {
			m.note("solver gave no answer while enumerating " + what)
			m.incomplete = true
			break
		}
		e := evalCtx{val: func(id int32) uint64 {
			if v, ok := delta[id]; ok {
				return v
			}
			return m.modelVal(id)
		}}
		v := e.eval(t)
		m.enqueue(v, m.withModel(delta))
		m.st.Forks++
		m.profileFork("concretize " + what)
		seen = m.bank.And(seen, m.bank.Not(eq(v)))
	}
	m.record(cur)
	m.addPC(eq(cur))
	return cur
}

// choose picks one of n alternatives, all possible: a fresh variable of the path.
func (m *M) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if n > 250 {
		panic(unsup("more than 250 alternatives"))
	}
	if m.merging {
		panic(bailOut{})
	}
	m.p.choices++
	t := m.newVar(label+"!"+strconv.Itoa(m.p.choices), 8)
	m.assume(m.bank.Cmp(OUlt, t, m.bank.Const(uint64(n), 8)))
	return int(m.concretize(t, label))
}

func (m *M) assume(v Value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathEnd{"assumption"})
		}
	case *Term:
		if m.replaying() {
			// holds on this path
			m.addPC(c)
			if m.nextDec() != 1 {
				panic("assume replay")
			}
			return
		}
		r, delta := m.feasible(c)
		switch r {
		case Unsat:
			panic(pathEnd{"assumption"})
		case Unknown:
			m.note("solver gave no answer for an assumption; the path was dropped")
			m.incomplete = true
			panic(pathEnd{"assumption unknown"})
		}
		m.setModel(delta)
		m.record(1)
		m.addPC(c)
	}
}

// assertProp checks an assertion; a violation is recorded with a model.
func (m *M) assertProp(v Value, msg string) {
	m.st.Asserts++
	switch c := v.(type) {
	case bool:
		if !c {
			m.violation("assert", msg, nil)
			panic(pathEnd{"violated"})
		}
	case *Term:
		if c == m.bank.True {
			return
		}
		if m.replaying() {
			// the assertion was decided when the prefix was first explored
			if m.nextDec() != 1 {
				panic("assert replay")
			}
			m.addPC(c)
			return
		}
		for _, v := range c.vars {
			m.useVar(m.bank.byID[v])
		}
		neg := m.bank.Not(c)
		m.st.AssertQueries++
		r, delta := m.solve(neg)
		switch r {
		case Sat:
			m.violation("assert", msg, delta)
			if m.evalModel(c) == 0 {
				r2, d2 := m.solve(c)
				if r2 != Sat {
					panic(pathEnd{"violated"})
				}
				m.setModel(d2)
			}
		case Unknown:
			m.note("solver gave no answer for an assertion")
			m.incomplete = true
			if m.evalModel(c) == 0 {
				panic(pathEnd{"unknown"})
			}
		}
		m.record(1)
		m.addPC(c)
	default:
		panic(unsup("assert of %T", v))
	}
}
