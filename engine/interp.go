package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type deferred struct {
	cl   *Closure
	args []Value
	ci   *callInfo
}

type Frame struct {
	fi     *FuncInfo
	regs   []Value
	blk    *Block
	pc     int
	caller *Frame
	dst    int
	defers []*deferred

	deferOf   *Frame
	unwinding bool // running deferred calls because of a panic
	panicking bool
	recovered bool
	panicVal  Value

	depth int
	onRet func(Value)
	base  bool // bottom frame of a nested synchronous call
}

type G struct {
	id      int
	top     *Frame
	pending *pendingOp
	done    bool
	name    string
	spawned int
	native  func() // pending native start
	vc      vclock
}

type undoRec struct {
	p   Ptr
	old Value
}

type M struct {
	eng    *Engine
	id     int
	bank   *Bank
	solver *Solver
	st     *Stats

	infos    map[*ssa.Function]*FuncInfo
	closures map[*ssa.Function]*Closure
	globals  map[*ssa.Global]Ptr
	pkgDone  map[*ssa.Package]bool
	pureFns  map[*ssa.Function]bool
	tis      map[types.Type]*TI
	tmap     typeutil.Map
	tiSeq    int
	usedFns  map[string]bool
	rtErr    *TI
	rtypes   map[*TI]*RType

	undo      []undoRec
	undoMaps  []undoMap
	epoch     int
	initMode  bool
	compiling int
	needInit  []*ssa.Package

	p     *Path
	gs    []*G
	cur   *G
	sleep map[tkey]*transition

	strategy, turn, deviations int // of bounded schedules
	steps                      int
	maxSteps                   int
	merging                    bool
	mergeDepth                 int
	chanSeq                    int
	incomplete                 bool
	confirmed                  int
	mutexes                    map[Ptr]*mutexState
	wgs                        map[Ptr]*wgState
	notes                      map[string]int
	hs                         *Harness
	stop                       bool
	counters                   map[string]int
	shadow                     map[any]*shadow
	objVC                      map[any]*vclock
	live                       map[string]Value
}

type targetPanic struct{ val Value }

func (m *M) note(s string) {
	m.notes[s]++
}

func (m *M) canon(t types.Type) *TI {
	if ti, ok := m.tis[t]; ok {
		return ti
	}
	if v := m.tmap.At(t); v != nil {
		ti := v.(*TI)
		m.tis[t] = ti
		return ti
	}
	m.tiSeq++
	ti := &TI{t: t, methods: map[string]*ssa.Function{}, id: m.tiSeq}
	m.tmap.Set(t, ti)
	m.tis[t] = ti
	return ti
}

func (m *M) global(g *ssa.Global) Ptr {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = p
	if g.Pkg != nil && !m.pkgDone[g.Pkg] {
		if m.compiling > 0 {
			m.needInit = append(m.needInit, g.Pkg)
		} else {
			m.initPkg(g.Pkg)
		}
	}
	return p
}

// runInits initialises the packages whose variables were first met during a compilation.
func (m *M) runInits() {
	for m.compiling == 0 && len(m.needInit) > 0 {
		p := m.needInit[0]
		m.needInit = m.needInit[1:]
		m.initPkg(p)
	}
}

// initPkg runs the initialiser of a package (but not those of its imports, which run when they are
// first needed) outside of the current path.
func (m *M) initPkg(pkg *ssa.Package) {
	if m.pkgDone[pkg] {
		return
	}
	m.pkgDone[pkg] = true
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	sCur, sInit, sMerging, sSteps, sP, sGs := m.cur, m.initMode, m.merging, m.steps, m.p, m.gs
	m.initMode, m.merging = true, false
	g := &G{id: -1, name: "init " + pkg.Pkg.Path()}
	m.gs = []*G{g}
	m.cur = g
	m.steps = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupported:
					m.note("package " + pkg.Pkg.Path() + " initialised incompletely: " + x.msg)
				case targetPanic:
					m.note("package " + pkg.Pkg.Path() + " initialised incompletely: panic " + describe(x.val, 0))
				case pathStop:
					m.note("package " + pkg.Pkg.Path() + " initialised incompletely: " + x.why)
				default:
					panic(r)
				}
				if os.Getenv("GOSYM_TRACE") != "" {
					fmt.Fprintln(os.Stderr, "init", pkg.Pkg.Path(), r, m.stackTrace())
				}
			}
		}()
		m.pushCall(g, m.fnClosure(init), nil, -1)
		g.top.fi = m.info(init)
		m.run(g)
	}()
	m.cur, m.initMode, m.merging, m.steps, m.p, m.gs = sCur, sInit, sMerging, sSteps, sP, sGs
}

func (m *M) logStore(p Ptr) {
	if !m.initMode {
		m.undo = append(m.undo, undoRec{p, *p})
	}
}

func (m *M) restore() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		*m.undo[i].p = m.undo[i].old
	}
	m.undo = m.undo[:0]
	for i := len(m.undoMaps) - 1; i >= 0; i-- {
		u := m.undoMaps[i]
		*u.m = u.old
	}
	m.undoMaps = m.undoMaps[:0]
}

func (m *M) pushCall(g *G, cl *Closure, args []Value, dst int) *Frame {
	fi := m.info(cl.fn)
	f := &Frame{fi: fi, regs: make([]Value, fi.nregs), caller: g.top, dst: dst}
	if len(args) != len(fi.params) {
		panic(unsup("call of %s with %d arguments", fi.name, len(args)))
	}
	for i, r := range fi.params {
		f.regs[r] = args[i]
	}
	for i, r := range fi.frees {
		f.regs[r] = cl.env[i]
	}
	if len(fi.blocks) == 0 {
		panic(unsup("call of %s without body", fi.name))
	}
	f.blk = fi.blocks[0]
	if g.top != nil {
		f.depth = g.top.depth + 1
	}
	g.top = f
	return f
}

func (m *M) call(f *Frame, cl *Closure, args []Value, ci *callInfo) {
	if m.merging {
		f.regs[ci.dst] = m.pureCall(cl, args)
		return
	}
	if cl.nat != nil {
		f.pc++
		v := cl.nat(m, args)
		if v != Value(blockedV) && ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		return
	}
	if m.initMode && cl.fn.Name() == "init" && cl.fn.Synthetic == "package initializer" {
		if cl.fn.Pkg != nil && inModule(cl.fn.Pkg.Pkg.Path()) {
			m.initPkg(cl.fn.Pkg)
		}
		f.pc++
		return
	}
	fi := m.info(cl.fn)
	if fi.intr != nil {
		f.pc++
		v, blocked := fi.intr(m, m.cur, args, ci)
		if !blocked && ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		return
	}
	if fi.hook != nil {
		if v, ok := fi.hook(m, args); ok {
			f.pc++
			if ci.dst >= 0 {
				f.regs[ci.dst] = v
			}
			return
		}
	}
	if f.depth > 2000 {
		panic(pathStop{"call depth limit"})
	}
	// merge pure functions called with symbolic arguments
	if hasSym(args) && m.pureCallee(cl.fn, 0) {
		if v, ok := m.tryPure(cl, args); ok {
			f.pc++
			if ci.dst >= 0 {
				f.regs[ci.dst] = v
			}
			return
		}
	}
	f.pc++
	m.pushCall(m.cur, cl, args, ci.dst)
}

func hasSym(args []Value) bool {
	for _, a := range args {
		switch a.(type) {
		case *Term, *SymStr:
			return true
		}
	}
	return false
}

type blockedT struct{}

var blockedV = &blockedT{}

func (m *M) ret(f *Frame, v Value) {
	g := m.cur
	g.top = f.caller
	if f.onRet != nil {
		f.onRet(v)
	} else if f.caller != nil && f.dst >= 0 {
		f.caller.regs[f.dst] = v
	}
	if f.base {
		return
	}
	if f.deferOf != nil && f.deferOf.unwinding {
		m.continuePanic(g, f.deferOf)
		return
	}
	if g.top == nil {
		g.done = true
	}
}

func (m *M) pushDeferred(f *Frame, d *deferred) {
	g := m.cur
	if d.cl.nat != nil {
		// builtins such as close and recover run as if called by the deferring function
		d.cl.nat(m, d.args)
		return
	}
	fi := m.info(d.cl.fn)
	if fi.intr != nil {
		fi.intr(m, g, d.args, d.ci)
		return
	}
	nf := m.pushCall(g, d.cl, d.args, -1)
	nf.deferOf = f
}

// throw starts a panic in the current goroutine with an interface value.
func (m *M) throw(v Value) {
	if m.merging {
		panic(bailOut{})
	}
	panic(targetPanic{v})
}

func (m *M) throwRT(msg string) {
	if m.merging {
		panic(bailOut{})
	}
	panic(targetPanic{m.rtError(msg)})
}

func (m *M) rtError(msg string) Value {
	if m.rtErr == nil {
		m.rtErr = m.canon(m.eng.rtErrType)
	}
	return Iface{m.rtErr, "runtime error: " + msg}
}

func (m *M) continuePanic(g *G, f *Frame) {
	for {
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.unwinding = true
			top := g.top
			m.pushDeferred(f, d)
			if g.top != top || g.pending != nil {
				return
			}
			continue
		}
		if f.recovered {
			f.unwinding = false
			f.recovered = false
			if f.fi.recover != nil {
				f.blk, f.pc = f.fi.recover, 0
				return
			}
			var v Value
			switch f.fi.results.Len() {
			case 0:
			case 1:
				v = zero(f.fi.results.At(0).Type())
			default:
				v = zero(f.fi.results)
			}
			m.ret(f, v)
			return
		}
		g.top = f.caller
		if f.base {
			panic(nestedPanic{f.panicVal})
		}
		if g.top == nil {
			g.done = true
			m.goPanicked(g, f.panicVal)
			return
		}
		if f.deferOf != nil && f.deferOf == g.top {
			// a deferred call panicked: replaces the current panic
		}
		n := g.top
		n.panicking, n.recovered, n.unwinding = true, false, true
		n.panicVal = f.panicVal
		f = n
	}
}

type nestedPanic struct{ val Value }

func (m *M) goPanicked(g *G, v Value) {
	if m.initMode {
		panic(targetPanic{v})
	}
	m.violation("panic", "panic: "+m.panicText(v), nil)
	panic(pathEnd{"panic"})
}

func (m *M) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		if s, ok := i.v.(string); ok {
			return s
		}
		if fn := m.findMethod(i.t.t, "Error"); fn != nil {
			func() {
				defer func() { recover() }()
				if s, ok := m.callSync(m.fnClosure(fn), []Value{i.v}).(string); ok {
					v = s
				}
			}()
			if s, ok := v.(string); ok {
				return s
			}
		}
	}
	return describe(v, 0)
}

// run executes g until it blocks at a visible operation or ends.
func (m *M) run(g *G) {
	m.cur = g
	for g.top != nil && g.pending == nil && !g.done {
		m.runChunk(g, nil)
	}
}

// runChunk runs instructions, converting target panics into unwinding.
func (m *M) runChunk(g *G, until *Frame) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				if np, ok2 := r.(nestedPanic); ok2 {
					tp, ok = targetPanic{np.val}, true
				}
			}
			if !ok {
				panic(r)
			}
			m.merging = false
			f := g.top
			if f == nil {
				g.done = true
				m.goPanicked(g, tp.val)
				return
			}
			if os.Getenv("GOSYM_TRACE") != "" {
				fmt.Fprintln(os.Stderr, "target panic", describe(tp.val, 0), m.stackTrace())
			}
			f.panicking, f.recovered, f.unwinding = true, false, true
			f.panicVal = tp.val
			m.continuePanic(g, f)
		}
	}()
	for {
		f := g.top
		if f == nil || g.pending != nil || g.done || f == until {
			return
		}
		code := f.blk.code
		m.steps++
		if m.steps > m.maxSteps {
			panic(pathStop{"step limit"})
		}
		code[f.pc](m, f)
	}
}

// callSync runs a function to completion on the current goroutine (for use by intrinsics).
func (m *M) callSync(cl *Closure, args []Value) Value {
	if m.merging {
		return m.pureCall(cl, args)
	}
	if cl.nat != nil {
		return cl.nat(m, args)
	}
	fi := m.info(cl.fn)
	g := m.cur
	if fi.intr != nil {
		v, blocked := fi.intr(m, g, args, nil)
		if blocked {
			panic(unsup("blocking call in a nested context: %s", fi.name))
		}
		return v
	}
	save := g.top
	f := m.pushCall(g, cl, args, -1)
	f.base = true
	var res Value
	f.onRet = func(v Value) { res = v }
	for g.top != save {
		m.runChunk(g, save)
		if g.pending != nil {
			if !m.tryImmediate(g) {
				panic(unsup("blocking operation in a nested call"))
			}
		}
	}
	return res
}

func (m *M) stackTrace() string {
	var sb strings.Builder
	if m.cur == nil {
		return ""
	}
	n := 0
	for f := m.cur.top; f != nil && n < 12; f = f.caller {
		pos := token.NoPos
		if f.blk != nil {
			for i := f.pc; i >= 0; i-- {
				if i < len(f.blk.pos) && f.blk.pos[i].IsValid() {
					pos = f.blk.pos[i]
					break
				}
			}
		}
		fmt.Fprintf(&sb, "\n    %s %s", f.fi.name, m.eng.prog.Fset.Position(pos))
		n++
	}
	return sb.String()
}

// region merging --------------------------------------------------------------------------------

type region struct {
	in    map[int]bool // region blocks by index
	order []int        // in reverse post-order
	any   bool
}

func (m *M) regionOf(fi *FuncInfo, b *Block) *region {
	if b.region != nil {
		return b.region
	}
	r := &region{in: map[int]bool{}}
	var walk func(x *Block)
	walk = func(x *Block) {
		for _, e := range x.succ {
			s := e.blk
			if r.in[s.idx] || len(r.in) > 400 {
				continue
			}
			if !s.pure || s.term == nil || s.bb == b.bb || !b.bb.Dominates(s.bb) {
				continue
			}
			switch s.term.(type) {
			case *ssa.If, *ssa.Jump:
			default:
				continue
			}
			loop := false
			for _, p := range s.bb.Preds {
				if s.bb.Dominates(p) {
					loop = true
				}
			}
			if loop {
				continue
			}
			r.in[s.idx] = true
			walk(s)
		}
	}
	walk(b)
	for i := range r.in {
		r.order = append(r.order, i)
	}
	sortBy(r.order, func(i, j int) bool { return fi.rpo[i] < fi.rpo[j] })
	r.any = len(r.in) > 0
	b.region = r
	return r
}

func sortBy(a []int, less func(x, y int) bool) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && less(a[j], a[j-1]); j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

type inEdge struct {
	e edge
	g *Term
}

type leafT struct {
	blk  *Block
	ins  []inEdge
	g    *Term
	phis []Value
}

// symIf executes a branch on a symbolic condition, merging the pure code behind it.
func (m *M) symIf(f *Frame, fi *FuncInfo, b *Block, c *Term) {
	r := m.regionOf(fi, b)
	if !r.any {
		// is the join directly behind?  (both successors leave the region)
		if b.succ[0].blk == b.succ[1].blk {
			ins := []inEdge{{b.succ[0], c}, {b.succ[1], m.bank.Not(c)}}
			if ph, ok := m.mergePhis(f, b.succ[0].blk, ins); ok {
				m.enterMerged(f, b.succ[0].blk, ph)
				return
			}
		}
		if m.branch(c) {
			f.enter(b.succ[0])
		} else {
			f.enter(b.succ[1])
		}
		return
	}
	leaves := m.evalRegion(f, fi, r, []inEdge{{b.succ[0], c}, {b.succ[1], m.bank.Not(c)}})
	// merge phis of the leaves
	var fin []leafT
	for _, l := range leaves {
		ph, ok := m.mergePhis(f, l.blk, l.ins)
		if ok {
			g := m.bank.False
			for _, in := range l.ins {
				g = m.bank.Or(g, in.g)
			}
			fin = append(fin, leafT{blk: l.blk, g: g, phis: ph})
			continue
		}
		// group edges whose phi values agree
		for _, in := range l.ins {
			ph1, _ := m.mergePhis(f, l.blk, []inEdge{in})
			merged := false
			for i := range fin {
				if fin[i].blk != l.blk {
					continue
				}
				out := make([]Value, len(ph1))
				good := true
				for k := range ph1 {
					v, ok := m.mergeW(in.g, ph1[k], fin[i].phis[k], l.blk.phis[k].width(fi))
					if !ok {
						good = false
						break
					}
					out[k] = v
				}
				if good {
					fin[i].phis = out
					fin[i].g = m.bank.Or(fin[i].g, in.g)
					merged = true
					break
				}
			}
			if !merged {
				fin = append(fin, leafT{blk: l.blk, g: in.g, phis: ph1})
			}
		}
	}
	k := 0
	if len(fin) == 0 {
		panic(pathEnd{"no feasible leaf"})
	}
	if len(fin) > 1 {
		gs := make([]*Term, len(fin))
		for i := range fin {
			gs[i] = fin[i].g
		}
		k = m.branchN(gs)
		m.st.RegionForks++
	} else {
		m.st.Merges++
	}
	m.enterMerged(f, fin[k].blk, fin[k].phis)
}

func (p *phiInfo) width(fi *FuncInfo) uint8 { return p.w() }
func (p *phiInfo) w() uint8                 { return p.wid }

func (m *M) enterMerged(f *Frame, b *Block, phis []Value) {
	for i := range b.phis {
		f.regs[b.phis[i].reg] = phis[i]
	}
	f.blk, f.pc = b, 0
}

// mergePhis computes the phi values of b for the given incoming edges.
func (m *M) mergePhis(f *Frame, b *Block, ins []inEdge) ([]Value, bool) {
	if len(b.phis) == 0 {
		return nil, true
	}
	out := make([]Value, len(b.phis))
	for k := range b.phis {
		ph := &b.phis[k]
		v := ph.edges[ins[len(ins)-1].e.pred].get(f)
		for i := len(ins) - 2; i >= 0; i-- {
			nv, ok := m.mergeW(ins[i].g, ph.edges[ins[i].e.pred].get(f), v, ph.wid)
			if !ok {
				return nil, false
			}
			v = nv
		}
		out[k] = v
	}
	return out, true
}

// evalRegion evaluates the blocks of a region under guards; it returns the edges that leave it.
func (m *M) evalRegion(f *Frame, fi *FuncInfo, r *region, start []inEdge) []leafT {
	pend := map[int][]inEdge{}
	var leaves []leafT
	addLeaf := func(in inEdge) {
		for i := range leaves {
			if leaves[i].blk == in.e.blk {
				leaves[i].ins = append(leaves[i].ins, in)
				return
			}
		}
		leaves = append(leaves, leafT{blk: in.e.blk, ins: []inEdge{in}})
	}
	send := func(in inEdge) {
		if !m.maybe(in.g) {
			return
		}
		if r.in[in.e.blk.idx] {
			pend[in.e.blk.idx] = append(pend[in.e.blk.idx], in)
		} else {
			addLeaf(in)
		}
	}
	for _, s := range start {
		send(s)
	}
	for _, bi := range r.order {
		ins := pend[bi]
		if len(ins) == 0 {
			continue
		}
		b := fi.blocks[bi]
		ph, ok := m.mergePhis(f, b, ins)
		if !ok {
			for _, in := range ins {
				addLeaf(in)
			}
			continue
		}
		for i := range b.phis {
			f.regs[b.phis[i].reg] = ph[i]
		}
		if !m.evalPure(f, b) {
			for _, in := range ins {
				addLeaf(in)
			}
			continue
		}
		g := m.bank.False
		for _, in := range ins {
			g = m.bank.Or(g, in.g)
		}
		switch b.term.(type) {
		case *ssa.Jump:
			send(inEdge{b.succ[0], g})
		case *ssa.If:
			switch c := b.cond.get(f).(type) {
			case bool:
				if c {
					send(inEdge{b.succ[0], g})
				} else {
					send(inEdge{b.succ[1], g})
				}
			case *Term:
				send(inEdge{b.succ[0], m.bank.And(g, c)})
				send(inEdge{b.succ[1], m.bank.And(g, m.bank.Not(c))})
			}
		}
	}
	return leaves
}

// evalPure evaluates the pure instructions of b; false when one of them cannot be evaluated without
// forking or faulting.
func (m *M) evalPure(f *Frame, b *Block) (ok bool) {
	if b.ninst == 0 {
		return true
	}
	save := m.merging
	m.merging = true
	sblk, spc := f.blk, f.pc
	defer func() {
		m.merging = save
		f.blk, f.pc = sblk, spc
		if r := recover(); r != nil {
			switch r.(type) {
			case bailOut, unsupported:
				ok = false
			default:
				panic(r)
			}
		}
	}()
	for i := 0; i < b.ninst; i++ {
		b.code[i](m, f)
		m.steps++
	}
	return true
}

// tryPure evaluates a pure function by merging all its paths.
func (m *M) tryPure(cl *Closure, args []Value) (v Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case bailOut, unsupported:
				ok = false
			default:
				panic(r)
			}
		}
	}()
	save := m.merging
	defer func() { m.merging = save }()
	return m.pureCall(cl, args), true
}

func (m *M) pureCall(cl *Closure, args []Value) Value {
	if cl.fn == nil {
		panic(bailOut{})
	}
	fi := m.info(cl.fn)
	if fi.intr != nil {
		if !pureIntrinsics[fi.name] {
			panic(bailOut{})
		}
		save := m.merging
		m.merging = true
		defer func() { m.merging = save }()
		v, _ := fi.intr(m, m.cur, args, nil)
		return v
	}
	if m.mergeDepth > 8 || !m.pureCallee(cl.fn, 0) {
		panic(bailOut{})
	}
	m.mergeDepth++
	defer func() { m.mergeDepth-- }()
	f := &Frame{fi: fi, regs: make([]Value, fi.nregs)}
	for i, r := range fi.params {
		f.regs[r] = args[i]
	}
	for i, r := range fi.frees {
		f.regs[r] = cl.env[i]
	}
	m.usedFns[fi.name] = true
	order := make([]int, len(fi.blocks))
	for i := range order {
		order[i] = i
	}
	sortBy(order, func(i, j int) bool { return fi.rpo[i] < fi.rpo[j] })
	pend := map[int][]inEdge{0: {{edge{fi.blocks[0], 0}, m.bank.True}}}
	type rv struct {
		g  *Term
		vs []Value
	}
	var rets []rv
	for _, bi := range order {
		ins := pend[bi]
		if len(ins) == 0 {
			continue
		}
		b := fi.blocks[bi]
		ph, ok := m.mergePhis(f, b, ins)
		if !ok {
			panic(bailOut{})
		}
		for i := range b.phis {
			f.regs[b.phis[i].reg] = ph[i]
		}
		if !m.evalPure(f, b) {
			panic(bailOut{})
		}
		g := m.bank.False
		for _, in := range ins {
			g = m.bank.Or(g, in.g)
		}
		send := func(in inEdge) {
			if m.maybe(in.g) {
				pend[in.e.blk.idx] = append(pend[in.e.blk.idx], in)
			}
		}
		switch b.term.(type) {
		case *ssa.Jump:
			send(inEdge{b.succ[0], g})
		case *ssa.If:
			switch c := b.cond.get(f).(type) {
			case bool:
				if c {
					send(inEdge{b.succ[0], g})
				} else {
					send(inEdge{b.succ[1], g})
				}
			case *Term:
				send(inEdge{b.succ[0], m.bank.And(g, c)})
				send(inEdge{b.succ[1], m.bank.And(g, m.bank.Not(c))})
			}
		case *ssa.Return:
			var vs []Value
			for _, o := range b.rets {
				vs = append(vs, o.get(f))
			}
			rets = append(rets, rv{g, vs})
		default:
			panic(bailOut{})
		}
	}
	if len(rets) == 0 {
		panic(bailOut{})
	}
	n := fi.results.Len()
	out := make([]Value, n)
	for k := 0; k < n; k++ {
		w, _, _ := widthOf(fi.results.At(k).Type())
		v := rets[len(rets)-1].vs[k]
		for i := len(rets) - 2; i >= 0; i-- {
			nv, ok := m.mergeW(rets[i].g, rets[i].vs[k], v, w)
			if !ok {
				panic(bailOut{})
			}
			v = nv
		}
		out[k] = v
	}
	m.st.PureCalls++
	switch n {
	case 0:
		return nil
	case 1:
		return out[0]
	}
	return Tuple(out)
}

// strings ---------------------------------------------------------------------------------------

type strIter struct {
	s Value
	i int
}

func (m *M) strNext(it *strIter) Value {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{false, uint64(0), uint64(0)}
	}
	at := it.i
	if s, ok := it.s.(string); ok {
		r, w := utf8.DecodeRuneInString(s[at:])
		it.i += w
		return Tuple{true, uint64(at), uint64(uint32(r))}
	}
	b := it.s.(*SymStr).b
	if c, ok := b[at].(uint64); ok && c < 0x80 {
		it.i++
		return Tuple{true, uint64(at), c}
	}
	if t, ok := b[at].(*Term); ok {
		if m.branch(m.bank.Cmp(OUlt, t, m.bank.Const(0x80, 8))) {
			it.i++
			return Tuple{true, uint64(at), m.norm(m.bank.Zext(t, 32))}
		}
	}
	r, w := m.decodeRune(b[at:])
	it.i += w
	return Tuple{true, uint64(at), r}
}

// decodeRune decodes the first character of a non-empty text as the language specifies it.
func (m *M) decodeRune(b []Value) (Value, int) {
	k := m.bank
	in := func(v Value, lo, hi uint64) bool {
		switch x := v.(type) {
		case uint64:
			return lo <= x && x <= hi
		case *Term:
			return m.branch(k.And(k.Cmp(OUle, k.Const(lo, 8), x), k.Cmp(OUle, x, k.Const(hi, 8))))
		}
		panic(unsup("decoding %T", v))
	}
	lo, hi, size := uint64(0x80), uint64(0xBF), 0
	switch {
	case in(b[0], 0xC2, 0xDF):
		size = 2
	case in(b[0], 0xE0, 0xE0):
		size, lo = 3, 0xA0
	case in(b[0], 0xED, 0xED):
		size, hi = 3, 0x9F
	case in(b[0], 0xE0, 0xEF):
		size = 3
	case in(b[0], 0xF0, 0xF0):
		size, lo = 4, 0x90
	case in(b[0], 0xF4, 0xF4):
		size, hi = 4, 0x8F
	case in(b[0], 0xF0, 0xF4):
		size = 4
	}
	if size == 0 || size > len(b) {
		return uint64(utf8.RuneError), 1
	}
	for i := 1; i < size; i++ {
		if i > 1 {
			lo, hi = 0x80, 0xBF
		}
		if !in(b[i], lo, hi) {
			return uint64(utf8.RuneError), 1
		}
	}
	t := k.Bin(OAnd, k.Zext(byteTerm(k, b[0]), 32), k.Const(1<<(7-uint(size))-1, 32))
	for i := 1; i < size; i++ {
		low := k.Bin(OAnd, k.Zext(byteTerm(k, b[i]), 32), k.Const(0x3F, 32))
		t = k.Bin(OOr, k.Bin(OShl, t, k.Const(6, 32)), low)
	}
	v := m.norm(t)
	if t, ok := v.(*Term); ok {
		if m.p.runes == nil {
			m.p.runes = map[*Term][]Value{}
		}
		m.p.runes[t] = append([]Value(nil), b[:size]...)
	}
	return v, size
}

func byteTerm(k *Bank, v Value) *Term {
	if c, ok := v.(uint64); ok {
		return k.Const(c, 8)
	}
	return v.(*Term)
}

func (m *M) callUTF8Encode(r *Term) Value {
	if b, ok := m.p.runes[r]; ok {
		return mkStr(append([]Value(nil), b...))
	}
	res := m.callSync(m.fnClosure(m.eng.fn("unicode/utf8", "AppendRune")), []Value{Slice(nil), m.norm(r)})
	s := res.(Slice)
	out := make([]Value, len(s))
	copy(out, s)
	return mkStr(out)
}
