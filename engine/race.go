package main

import (
	"fmt"
	"go/token"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exploring only the interleavings of visible operations is sound for code without data races, so
// memory accesses of the repository's code are checked with vector clocks while several goroutines
// exist.  Equivalent interleavings order the same accesses, so one of each class suffices.

type vclock []int32

func (v *vclock) at(g int) int32 {
	if g < len(*v) {
		return (*v)[g]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (g *G) snap() vclock { return append(vclock(nil), g.vc...) }

// sync makes g synchronise with everything that synchronised on obj before.
func (m *M) sync(g *G, obj any) {
	if obj == nil || g.id < 0 {
		return
	}
	c := m.objVC[obj]
	if c == nil {
		c = new(vclock)
		m.objVC[obj] = c
	}
	g.vc.join(*c)
	c.join(g.vc)
	g.tick()
}

type raceEpoch struct {
	g   int
	c   int32
	pos token.Pos
}

type shadow struct {
	w     raceEpoch
	reads []raceEpoch
}

func (m *M) posText(p token.Pos) string {
	q := m.eng.prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(m.eng.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// access records an access of the current goroutine to a memory cell or a map.
func (m *M) access(key any, write bool, pos token.Pos) {
	g := m.cur
	if g == nil || g.id < 0 {
		return
	}
	s := m.shadow[key]
	if s == nil {
		s = &shadow{w: raceEpoch{g: -1}}
		m.shadow[key] = s
	}
	if s.w.g >= 0 && s.w.g != g.id && s.w.c > g.vc.at(s.w.g) {
		m.race(s.w.pos, pos)
	}
	me := raceEpoch{g.id, g.vc.at(g.id), pos}
	if write {
		for _, r := range s.reads {
			if r.g != g.id && r.c > g.vc.at(r.g) {
				m.race(r.pos, pos)
			}
		}
		s.w = me
		s.reads = s.reads[:0]
		return
	}
	for i, r := range s.reads {
		if r.g == g.id {
			s.reads[i] = me
			return
		}
	}
	s.reads = append(s.reads, me)
}

func (m *M) race(a, b token.Pos) {
	x, y := m.posText(a), m.posText(b)
	if x > y {
		x, y = y, x
	}
	m.violation("race", "unsynchronised accesses to the same data at "+x+" and "+y, nil)
	panic(pathEnd{"violated"})
}

func (m *M) racing() bool { return len(m.gs) > 1 && !m.initMode && !m.merging }

// accessCell records an access to a variable and, if it is a struct or an array, to its parts.
func (m *M) accessCell(p Ptr, write bool, pos token.Pos) {
	m.access(p, write, pos)
	var parts []Value
	switch x := (*p).(type) {
	case Struct:
		parts = x
	case Array:
		if len(x) > 64 {
			return
		}
		parts = x
	}
	for i := range parts {
		m.accessCell(&parts[i], write, pos)
	}
}

func (m *M) accessAddr(a Value, write bool, pos token.Pos) {
	if p, ok := a.(Ptr); ok && p != nil {
		m.accessCell(p, write, pos)
	}
}

// raceChecked: accesses made by this function are checked.
func raceChecked(fn *ssa.Function) bool {
	for fn != nil && fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn == nil || fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	return inModule(p) && !strings.Contains(p, "/zzverif/")
}

// private: the address is of a variable no other goroutine can reach.
func private(a ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := a.(type) {
		case *ssa.Alloc:
			return !x.Heap
		case *ssa.FieldAddr:
			a = x.X
		default:
			return false
		}
	}
	return false
}

// atomicOp makes an atomic operation a visible step when several goroutines exist.
func atomicOp(f intrinsic, read bool) intrinsic {
	return func(m *M, g *G, args []Value, c *callInfo) (Value, bool) {
		p, isPtr := args[0].(Ptr)
		if !m.racing() || !isPtr || !m.moduleCall(g) {
			if isPtr && len(m.gs) > 1 && !m.initMode && !m.merging {
				m.sync(g, p)
			}
			return f(m, g, args, c)
		}
		dst := -1
		if c != nil {
			dst = c.dst
		}
		fr := g.top
		m.block(&pendingOp{obj: p, what: "atomic operation", shared: read, exec: func() {
			v, _ := f(m, g, args, c)
			if dst >= 0 {
				fr.regs[dst] = v
			}
		}})
		return nil, true
	}
}

// moduleCall: the innermost function that is not the atomic package's is one of the repository.
func (m *M) moduleCall(g *G) bool {
	for f := g.top; f != nil; f = f.caller {
		fn := f.fi.fn
		if fn == nil {
			return false
		}
		if o := fn.Origin(); o != nil {
			fn = o
		}
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "sync/atomic" {
			continue
		}
		return raceChecked(fn)
	}
	return false
}
