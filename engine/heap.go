package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// maps ------------------------------------------------------------------------------------------

type mapEntry struct {
	k, v  Value
	alive bool
}

type Map struct {
	t     *types.Map
	ents  []mapEntry
	idx   map[any]int
	n     int
	nsym  int // live entries with keys that cannot be hashed
	epoch int
}

type undoMap struct {
	m   *Map
	old Map
}

func (m *M) newMap(t *types.Map) *Map {
	e := m.epoch
	if m.initMode {
		e = 0
	}
	return &Map{t: t, idx: map[any]int{}, epoch: e}
}

func (m *M) touchMap(mp *Map) {
	if m.initMode || mp.epoch == m.epoch {
		return
	}
	old := *mp
	m.undoMaps = append(m.undoMaps, undoMap{mp, old})
	mp.ents = append([]mapEntry(nil), mp.ents...)
	idx := make(map[any]int, len(mp.idx))
	for k, v := range mp.idx {
		idx[k] = v
	}
	mp.idx = idx
	mp.epoch = m.epoch
}

// hashKey returns a comparable key for concrete values.
func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case uint64, bool, string, float64, Ptr, *Chan, *RType:
		return x, true
	case Iface:
		if x.t == nil {
			return "nil iface", true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t, k}, true
	case Struct, Array:
		var sb strings.Builder
		if !hashInto(&sb, v) {
			return nil, false
		}
		return "\x00struct" + sb.String(), true
	}
	return nil, false
}

func hashInto(sb *strings.Builder, v Value) bool {
	switch x := v.(type) {
	case Struct:
		for _, e := range x {
			if !hashInto(sb, e) {
				return false
			}
		}
		return true
	case Array:
		for _, e := range x {
			if !hashInto(sb, e) {
				return false
			}
		}
		return true
	}
	k, ok := hashKey(v)
	if !ok {
		return false
	}
	if i, isI := v.(Iface); isI && i.t != nil {
		fmt.Fprintf(sb, "|%p", i.t)
		return hashInto(sb, i.v)
	}
	if s, isS := k.(string); isS {
		fmt.Fprintf(sb, "|%d:%s", len(s), s)
	} else {
		fmt.Fprintf(sb, "|%T:%v", k, k)
	}
	return true
}

func (m *M) mapFind(mp *Map, k Value) int {
	if i, ok := k.(Iface); ok && i.t != nil {
		switch i.t.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			m.throwRT("hash of unhashable type " + i.t.t.String())
		}
	}
	if mp == nil {
		return -1
	}
	h, ok := hashKey(k)
	if ok && mp.nsym == 0 {
		if i, found := mp.idx[h]; found {
			return i
		}
		return -1
	}
	if m.merging {
		panic(bailOut{})
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if !e.alive {
			continue
		}
		if m.branch(m.eqTerm(e.k, k, nil)) {
			return i
		}
	}
	return -1
}

func (m *M) mapGet(mp *Map, k Value) (Value, bool) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return nil, false
	}
	return mp.ents[i].v, true
}

func (m *M) mapSet(mp *Map, k, v Value) {
	i := m.mapFind(mp, k)
	m.touchMap(mp)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	h, ok := hashKey(k)
	slot := -1
	for j := range mp.ents {
		if !mp.ents[j].alive {
			slot = j
			break
		}
	}
	if slot < 0 {
		mp.ents = append(mp.ents, mapEntry{})
		slot = len(mp.ents) - 1
	}
	mp.ents[slot] = mapEntry{k, v, true}
	mp.n++
	if ok {
		mp.idx[h] = slot
	} else {
		mp.nsym++
	}
}

func (m *M) mapDelete(mp *Map, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	m.touchMap(mp)
	if h, ok := hashKey(mp.ents[i].k); ok {
		delete(mp.idx, h)
	} else {
		mp.nsym--
	}
	mp.ents[i] = mapEntry{}
	mp.n--
}

type mapIter struct {
	mp    *Map
	order []int
	keys  []Value
	pos   int
}

// newMapIter starts an iteration.  The order is a rotation of the slot order (what the runtime does for
// small maps); the rotation is a symbolic choice, limited per path by the deviation bound.
func (m *M) newMapIter(mp *Map) *mapIter {
	it := &mapIter{mp: mp}
	if mp == nil {
		return it
	}
	for i := range mp.ents {
		if mp.ents[i].alive {
			it.order = append(it.order, i)
		}
	}
	n := len(it.order)
	if n >= 2 && !m.initMode && m.p != nil && m.p.devs < m.hs.mapDev() {
		r := m.choose(n, "maporder")
		if r != 0 {
			m.p.devs++
			rot := append([]int(nil), it.order[r:]...)
			it.order = append(rot, it.order[:r]...)
		}
	}
	for _, i := range it.order {
		it.keys = append(it.keys, mp.ents[i].k)
	}
	return it
}

func (m *M) mapNext(it *mapIter) (k, v Value, ok bool) {
	for it.pos < len(it.order) {
		i := it.order[it.pos]
		key := it.keys[it.pos]
		it.pos++
		if i < len(it.mp.ents) && it.mp.ents[i].alive {
			h1, ok1 := hashKey(key)
			h2, ok2 := hashKey(it.mp.ents[i].k)
			if ok1 && ok2 && h1 != h2 {
				continue // the slot was reused
			}
			return it.mp.ents[i].k, it.mp.ents[i].v, true
		}
	}
	return nil, nil, false
}

// channels and scheduling -----------------------------------------------------------------------

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	et     types.Type
	id     int
	pos    token.Pos
	vcs    []vclock // of the senders of buf
	recvVC vclock
}

type mutexState struct {
	locked  bool
	readers int
}

type wgState struct{ n int }

type selCase struct {
	ch   *Chan
	send bool
	val  Value
}

type pendingOp struct {
	cases      []selCase
	hasDefault bool
	isSelect   bool
	done       func(m *M, f *Frame, i int, v Value, ok bool)

	// other operations
	obj     any
	evs     []evObj
	enabled func() bool
	exec    func()
	last    bool // only enabled when nothing else is (quiescence)
	what    string
	shared  bool // commutes with other shared operations on the same object
	frame   *Frame
}

// block suspends the current goroutine at a visible operation.
func (m *M) block(op *pendingOp) {
	if m.merging {
		panic(bailOut{})
	}
	if m.initMode {
		g := m.cur
		op.frame = g.top
		g.pending = op
		if !m.tryImmediate(g) {
			panic(unsup("blocking operation during package initialisation"))
		}
		return
	}
	op.frame = m.cur.top
	m.cur.pending = op
}

// tryImmediate performs a pending operation that needs no partner.
func (m *M) tryImmediate(g *G) bool {
	for _, t := range m.transitionsOf(g, nil) {
		if t.g2 == nil {
			m.fire(t)
			return true
		}
	}
	return false
}

type tkey struct{ g, c, g2, c2 int }

type transition struct {
	g, g2  *G
	c, c2  int // case index; -1 default
	close  bool
	objs   []any
	kind   byte // 's' buffered send, 'r' buffered receive, 'x' rendezvous, 'c' receive on closed, 'p' send on closed, 'o' other, 'd' default
	ch     *Chan
	shared bool
	evs    []evObj
}

// evObj is something an event of the harness reads or writes.
type evObj struct {
	name  string
	write bool
}

func (t *transition) key() tkey {
	k := tkey{t.g.id, t.c, -1, -1}
	if t.g2 != nil {
		k.g2, k.c2 = t.g2.id, t.c2
	}
	return k
}

// transitionsOf lists what g can do now; rendezvous are listed at the sender.
func (m *M) transitionsOf(g *G, all []*G) []*transition {
	op := g.pending
	if op == nil {
		return nil
	}
	if op.exec != nil {
		if op.last {
			return nil
		}
		if op.enabled == nil || op.enabled() {
			return []*transition{{g: g, kind: 'o', objs: []any{op.obj}, shared: op.shared, evs: op.evs}}
		}
		return nil
	}
	var out []*transition
	ready := false
	for i, c := range op.cases {
		if c.ch == nil {
			continue
		}
		objs := []any{c.ch}
		if c.send {
			switch {
			case c.ch.closed:
				out = append(out, &transition{g: g, c: i, kind: 'p', ch: c.ch, objs: objs})
				ready = true
			case len(c.ch.buf) < c.ch.cap:
				out = append(out, &transition{g: g, c: i, kind: 's', ch: c.ch, objs: objs})
				ready = true
			default:
				if c.ch.cap > 0 {
					continue
				}
				for _, h := range all {
					if h == g || h.pending == nil || h.pending.exec != nil {
						continue
					}
					for j, d := range h.pending.cases {
						if d.ch == c.ch && !d.send {
							if op.hasDefault && h.pending.hasDefault {
								continue
							}
							out = append(out, &transition{g: g, c: i, g2: h, c2: j, kind: 'x', ch: c.ch, objs: objs})
							ready = true
						}
					}
				}
			}
		} else {
			switch {
			case len(c.ch.buf) > 0:
				out = append(out, &transition{g: g, c: i, kind: 'r', ch: c.ch, objs: objs})
				ready = true
			case c.ch.closed:
				out = append(out, &transition{g: g, c: i, kind: 'c', ch: c.ch, objs: objs})
				ready = true
			default:
				// listed at the sender, but it makes a default impossible
				for _, h := range all {
					if h == g || h.pending == nil || h.pending.exec != nil {
						continue
					}
					for _, d := range h.pending.cases {
						if d.ch == c.ch && d.send && c.ch.cap == 0 && !h.pending.hasDefault {
							ready = true
						}
					}
				}
			}
		}
	}
	if op.hasDefault && !ready {
		var objs []any
		for _, c := range op.cases {
			if c.ch != nil {
				objs = append(objs, c.ch)
			}
		}
		out = append(out, &transition{g: g, c: -1, kind: 'd', objs: objs})
	}
	return out
}

func (m *M) independent(a, b *transition) bool {
	if a.g == b.g || a.g == b.g2 || (a.g2 != nil && (a.g2 == b.g || a.g2 == b.g2)) {
		return false
	}
	for _, x := range a.evs {
		for _, y := range b.evs {
			if x.name == y.name && (x.write || y.write) {
				return false
			}
		}
	}
	for _, x := range a.objs {
		for _, y := range b.objs {
			if x == nil || x != y {
				continue
			}
			if a.kind == 'x' && b.kind == 'x' {
				continue
			}
			if a.kind == 'c' && b.kind == 'c' {
				continue
			}
			if a.kind == 'o' && b.kind == 'o' && a.shared && b.shared {
				continue
			}
			if (a.kind == 's' && b.kind == 'r') || (a.kind == 'r' && b.kind == 's') {
				continue // both enabled: 0 < len < cap
			}
			return false
		}
	}
	return true
}

// fire performs a transition.
func (m *M) fire(t *transition) {
	g := t.g
	op := g.pending
	g.pending = nil
	if op.exec != nil {
		save := m.cur
		m.cur = g
		if _, harness := op.obj.(string); !harness {
			m.sync(g, op.obj)
		}
		op.exec()
		m.cur = save
		return
	}
	if t.kind == 'd' {
		op.done(m, op.frame, -1, nil, false)
		return
	}
	c := op.cases[t.c]
	switch t.kind {
	case 's':
		c.ch.buf = append(c.ch.buf, c.val)
		g.vc.join(c.ch.recvVC)
		c.ch.vcs = append(c.ch.vcs, g.snap())
		g.tick()
		op.done(m, op.frame, t.c, nil, false)
	case 'r':
		v := c.ch.buf[0]
		c.ch.buf = append([]Value(nil), c.ch.buf[1:]...)
		g.vc.join(c.ch.vcs[0])
		c.ch.vcs = append([]vclock(nil), c.ch.vcs[1:]...)
		c.ch.recvVC.join(g.vc)
		g.tick()
		op.done(m, op.frame, t.c, v, true)
	case 'c':
		m.sync(g, c.ch)
		op.done(m, op.frame, t.c, nil, false)
	case 'p':
		op.done(m, op.frame, t.c, nil, false)
		save := m.cur
		m.cur = g
		m.panicIn(g, m.rtErrorPlain("send on closed channel"))
		m.cur = save
	case 'x':
		h := t.g2
		g.vc.join(h.vc)
		h.vc.join(g.vc)
		g.tick()
		h.tick()
		op2 := h.pending
		h.pending = nil
		op.done(m, op.frame, t.c, nil, false)
		op2.done(m, op2.frame, t.c2, c.val, true)
	}
}

func (m *M) rtErrorPlain(s string) Value {
	v := m.rtError("").(Iface)
	return Iface{v.t, s}
}

// panicIn starts a panic in goroutine g outside of its instruction loop.
func (m *M) panicIn(g *G, v Value) {
	f := g.top
	if f == nil {
		g.done = true
		m.goPanicked(g, v)
		return
	}
	f.panicking, f.recovered, f.unwinding = true, false, true
	f.panicVal = v
	m.continuePanic(g, f)
}

func (m *M) spawn(cl *Closure, args []Value, ci *callInfo) {
	if m.merging {
		panic(bailOut{})
	}
	if m.initMode {
		m.note("goroutine started during package initialisation ignored: " + clName(cl))
		return
	}
	par := m.cur
	par.spawned++
	g := &G{id: len(m.gs), name: clName(cl)}
	m.gs = append(m.gs, g)
	if par.id >= 0 {
		par.tick()
		g.vc = par.snap()
		par.tick()
		g.tick()
	}
	if len(m.gs) > 64 {
		panic(pathStop{"goroutine limit"})
	}
	if cl.nat != nil {
		panic(unsup("go statement with a builtin"))
	}
	fi := m.info(cl.fn)
	if fi.intr != nil {
		panic(unsup("go statement with %s", fi.name))
	}
	save := m.cur
	m.pushCall(g, cl, args, -1)
	m.cur = save
}

func clName(cl *Closure) string {
	if cl != nil && cl.fn != nil {
		return shortName(cl.fn.String())
	}
	return "?"
}

// runAll is the scheduler: it runs the harness goroutine and everything it starts.
func (m *M) runAll() {
	main := m.gs[0]
	m.sleep = map[tkey]*transition{}
	m.strategy, m.turn, m.deviations = 0, 0, 0
	for {
		// run everything up to its next visible operation
		for i := 0; i < len(m.gs); i++ {
			g := m.gs[i]
			if !g.done && g.pending == nil {
				m.run(g)
			}
			if main.done {
				return
			}
		}
		var ts []*transition
		for _, g := range m.gs {
			if g.pending != nil {
				ts = append(ts, m.transitionsOf(g, m.gs)...)
			}
		}
		if len(ts) == 0 {
			// quiescence
			var q *G
			for _, g := range m.gs {
				if g.pending != nil && g.pending.last {
					q = g
					break
				}
			}
			if q != nil {
				op := q.pending
				q.pending = nil
				m.cur = q
				op.exec()
				continue
			}
			m.violation("deadlock", "all goroutines are blocked: "+m.blockedText(), nil)
			panic(pathEnd{"deadlock"})
		}
		if max, bounded := m.hs.params["switches"]; bounded {
			m.st.Transitions++
			m.fire(ts[m.boundedChoice(len(ts), max)])
			continue
		}
		var cand []*transition
		for _, t := range ts {
			if _, asleep := m.sleep[t.key()]; !asleep {
				cand = append(cand, t)
			}
		}
		if len(cand) == 0 {
			m.st.SleepPruned++
			panic(pathEnd{"redundant interleaving"})
		}
		k := 0
		if len(cand) > 1 {
			k = m.choose(len(cand), "sched")
			m.p.schedN++
		}
		t := cand[k]
		ns := map[tkey]*transition{}
		for key, s := range m.sleep {
			if m.independent(s, t) {
				ns[key] = s
			}
		}
		for _, s := range cand[:k] {
			if m.independent(s, t) {
				ns[s.key()] = s
			}
		}
		m.sleep = ns
		m.st.Transitions++
		m.fire(t)
	}
}

// boundedChoice chooses the next transition when schedules differ from one of three fixed strategies in at
// most max places: the first or the last transition that is enabled, or each of them in turn.
func (m *M) boundedChoice(n, max int) int {
	if m.strategy == 0 {
		m.strategy = 1 + m.choose(3, "strategy")
	}
	m.turn++
	if n == 1 {
		return 0
	}
	k := 0
	if m.deviations < max {
		if k = m.choose(n, "sched"); k > 0 {
			m.deviations++
		}
		m.p.schedN++
	}
	switch m.strategy {
	case 2:
		k += n - 1
	case 3:
		k += m.turn
	}
	return k % n
}

func (m *M) blockedText() string {
	var out []string
	for _, g := range m.gs {
		if g.pending == nil {
			continue
		}
		op := g.pending
		what := op.what
		if op.exec == nil {
			var cs []string
			for _, c := range op.cases {
				s := "receive"
				if c.send {
					s = "send"
				}
				if c.ch == nil {
					s += " on nil channel"
				} else {
					p := m.eng.prog.Fset.Position(c.ch.pos)
					fn := p.Filename
					if i := strings.LastIndexByte(fn, '/'); i >= 0 {
						fn = fn[i+1:]
					}
					s += fmt.Sprintf(" on channel made at %s:%d", fn, p.Line)
				}
				cs = append(cs, s)
			}
			what = strings.Join(cs, " or ")
		}
		out = append(out, fmt.Sprintf("goroutine %d (%s): %s", g.id, g.name, what))
	}
	return strings.Join(out, "; ")
}
