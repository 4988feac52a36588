package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bailOut struct{}

type instrFn func(m *M, f *Frame)

type operand struct {
	reg int
	val Value
}

func (o operand) get(f *Frame) Value {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	return o.val
}

type phiInfo struct {
	reg   int
	wid   uint8 // width of an integer phi
	edges []operand
}

type edge struct {
	blk  *Block
	pred int // index of the edge among blk's predecessors
}

type Block struct {
	idx   int
	phis  []phiInfo
	code  []instrFn
	pos   []token.Pos
	pure  bool // every instruction before the terminator is pure
	term  ssa.Instruction
	cond  operand
	succ  []edge
	rets  []operand
	bb    *ssa.BasicBlock
	npred int
	ninst int

	region *region
}

type FuncInfo struct {
	fn       *ssa.Function
	name     string
	blocks   []*Block
	nregs    int
	params   []int
	frees    []int
	intr     intrinsic
	hook     func(m *M, args []Value) (Value, bool)
	recover  *Block
	pureFn   int // 0 unknown, 1 pure, 2 not
	rpo      []int
	hasDefer bool
	results  *types.Tuple
}

type compiler struct {
	m    *M
	fi   *FuncInfo
	regs map[ssa.Value]int
}

func (m *M) info(fn *ssa.Function) *FuncInfo {
	if fi, ok := m.infos[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, name: fnName(fn), results: fn.Signature.Results()}
	m.infos[fn] = fi
	if st, ok := m.eng.stubs[fi.name]; ok && st != fn {
		fi2 := m.info(st)
		*fi = *fi2
		m.usedFns[fi.name] = true
		return fi
	}
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
		return fi
	}
	if in := intrinsicByPrefix(fi.name); in != nil {
		fi.intr = in
		return fi
	}
	fi.hook = hooks[fi.name]
	if fn.Blocks == nil {
		name := fi.name
		fi.intr = func(m *M, g *G, args []Value, c *callInfo) (Value, bool) {
			if m.initMode {
				switch fi.results.Len() {
				case 0:
					return nil, false
				case 1:
					return zero(fi.results.At(0).Type()), false
				}
				return zero(fi.results), false
			}
			panic(unsup("function without body: %s", name))
		}
		return fi
	}
	if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
		panic(unsup("uninstantiated generic %s", fi.name))
	}
	c := &compiler{m: m, fi: fi, regs: map[ssa.Value]int{}}
	m.compiling++
	func() {
		defer func() {
			m.compiling--
			if r := recover(); r != nil {
				u, ok := r.(unsupported)
				if !ok {
					panic(r)
				}
				fi.intr = func(*M, *G, []Value, *callInfo) (Value, bool) { panic(u) }
			}
		}()
		c.compile()
	}()
	m.runInits()
	if fn.Pkg != nil {
		m.usedFns[fi.name] = true
	}
	return fi
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.fi.nregs
	c.fi.nregs++
	c.regs[v] = r
	return r
}

func (c *compiler) compile() {
	fn := c.fi.fn
	for _, p := range fn.Params {
		c.fi.params = append(c.fi.params, c.reg(p))
	}
	for _, p := range fn.FreeVars {
		c.fi.frees = append(c.fi.frees, c.reg(p))
	}
	for i, b := range fn.Blocks {
		c.fi.blocks = append(c.fi.blocks, &Block{idx: i, bb: b, npred: len(b.Preds)})
	}
	for i, b := range fn.Blocks {
		c.block(b, c.fi.blocks[i])
	}
	if fn.Recover != nil {
		c.fi.recover = c.fi.blocks[fn.Recover.Index]
	}
	// reverse post-order numbering
	c.fi.rpo = make([]int, len(fn.Blocks))
	seen := make([]bool, len(fn.Blocks))
	n := len(fn.Blocks)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i].Index] {
				dfs(b.Succs[i])
			}
		}
		n--
		c.fi.rpo[b.Index] = n
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
}

func (c *compiler) op(v ssa.Value) operand {
	switch x := v.(type) {
	case *ssa.Const:
		return operand{-1, c.m.constVal(x)}
	case *ssa.Global:
		return operand{-1, c.m.global(x)}
	case *ssa.Function:
		return operand{-1, c.m.fnClosure(x)}
	case *ssa.Builtin:
		name := x.Name()
		return operand{-1, &Closure{nat: func(m *M, args []Value) Value { panic(unsup("builtin %s as value", name)) }}}
	}
	return operand{c.reg(v), nil}
}

func (m *M) fnClosure(fn *ssa.Function) *Closure {
	if cl, ok := m.closures[fn]; ok {
		return cl
	}
	cl := &Closure{fn: fn}
	m.closures[fn] = cl
	return cl
}

func (m *M) constVal(x *ssa.Const) Value {
	if x.Value == nil {
		return zero(x.Type())
	}
	t := x.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(x.Value)
		case b.Info()&types.IsInteger != 0:
			w, _, _ := widthOf(b)
			v := constant.ToInt(x.Value)
			if u, ok := constant.Uint64Val(v); ok {
				return u & mask(w)
			}
			i, _ := constant.Int64Val(v)
			return uint64(i) & mask(w)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(x.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsString != 0:
			if x.Value.Kind() == constant.String {
				return constant.StringVal(x.Value)
			}
			i, _ := constant.Int64Val(x.Value)
			return string(rune(i))
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(x.Value))
			im, _ := constant.Float64Val(constant.Imag(x.Value))
			return complex(re, im)
		case b.Kind() == types.UnsafePointer:
			return Ptr(nil)
		}
	}
	panic(unsup("constant %s", x))
}

func (c *compiler) block(b *ssa.BasicBlock, out *Block) {
	out.pure = true
	for _, in := range b.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			pi := phiInfo{reg: c.reg(phi)}
			pi.wid, _, _ = widthOf(phi.Type())
			for _, e := range phi.Edges {
				pi.edges = append(pi.edges, c.op(e))
			}
			out.phis = append(out.phis, pi)
			continue
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		fn := c.instr(in, b, out)
		if fn == nil {
			continue
		}
		switch in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
			out.term = in
		default:
			out.ninst++
			if !c.isPure(in) {
				out.pure = false
			}
		}
		out.code = append(out.code, fn)
		out.pos = append(out.pos, in.Pos())
	}
}

func (c *compiler) edge(b *ssa.BasicBlock, i int) edge {
	s := b.Succs[i]
	// which occurrence of b among the successor's predecessors
	occ := 0
	for j := 0; j < i; j++ {
		if b.Succs[j] == s {
			occ++
		}
	}
	for k, p := range s.Preds {
		if p == b {
			if occ == 0 {
				return edge{c.fi.blocks[s.Index], k}
			}
			occ--
		}
	}
	panic("edge")
}

func (c *compiler) isPure(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		return true // division by zero and the like bail out dynamically
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.MakeInterface,
		*ssa.ChangeInterface, *ssa.Slice, *ssa.TypeAssert:
		return true
	case *ssa.Lookup:
		return true
	case *ssa.Convert:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		// calls are attempted as pure calls at run time
		if fn := x.Call.StaticCallee(); fn != nil {
			return c.m.pureCallee(fn, 0)
		}
	}
	return false
}

// pureCallee reports whether a call of fn can be evaluated by merging its paths.
func (m *M) pureCallee(fn *ssa.Function, depth int) bool {
	if v, ok := m.pureFns[fn]; ok {
		return v
	}
	if depth > 4 || fn.Blocks == nil || len(fn.Blocks) > 60 || fn.Recover != nil {
		return false
	}
	if _, ok := m.eng.stubs[fnName(fn)]; ok {
		return false
	}
	if pureIntrinsics[fnName(fn)] {
		m.pureFns[fn] = true
		return true
	}
	if _, ok := intrinsics[fnName(fn)]; ok || intrinsicByPrefix(fnName(fn)) != nil {
		m.pureFns[fn] = false
		return false
	}
	m.pureFns[fn] = false // recursion
	ok := true
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // loop
				ok = false
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.BinOp, *ssa.ChangeType, *ssa.Extract, *ssa.Field,
				*ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Slice, *ssa.TypeAssert,
				*ssa.Lookup, *ssa.Convert:
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					ok = false
				}
			case *ssa.Call:
				if b, isb := x.Call.Value.(*ssa.Builtin); isb {
					switch b.Name() {
					case "len", "cap", "min", "max":
					default:
						ok = false
					}
				} else if cal := x.Call.StaticCallee(); cal == nil || !m.pureCallee(cal, depth+1) {
					ok = false
				}
			default:
				ok = false
			}
			if !ok {
				return false
			}
		}
	}
	m.pureFns[fn] = true
	return true
}

func (f *Frame) enter(e edge) {
	b := e.blk
	if n := len(b.phis); n > 0 {
		if n == 1 {
			f.regs[b.phis[0].reg] = b.phis[0].edges[e.pred].get(f)
		} else {
			var tmp [8]Value
			vals := tmp[:0]
			for i := range b.phis {
				vals = append(vals, b.phis[i].edges[e.pred].get(f))
			}
			for i := range b.phis {
				f.regs[b.phis[i].reg] = vals[i]
			}
		}
	}
	f.blk = b
	f.pc = 0
}

func (c *compiler) instr(in ssa.Instruction, b *ssa.BasicBlock, blk *Block) instrFn {
	switch x := in.(type) {
	case *ssa.Jump:
		e := c.edge(b, 0)
		blk.succ = []edge{e}
		return func(m *M, f *Frame) { f.enter(e) }
	case *ssa.If:
		cond := c.op(x.Cond)
		e0, e1 := c.edge(b, 0), c.edge(b, 1)
		blk.succ = []edge{e0, e1}
		blk.cond = cond
		fi := c.fi
		return func(m *M, f *Frame) {
			switch v := cond.get(f).(type) {
			case bool:
				if v {
					f.enter(e0)
				} else {
					f.enter(e1)
				}
			case *Term:
				m.symIf(f, fi, blk, v)
			default:
				panic(fmt.Sprintf("if on %T", v))
			}
		}
	case *ssa.Return:
		var rs []operand
		for _, r := range x.Results {
			rs = append(rs, c.op(r))
		}
		blk.rets = rs
		switch len(rs) {
		case 0:
			return func(m *M, f *Frame) { m.ret(f, nil) }
		case 1:
			r := rs[0]
			return func(m *M, f *Frame) { m.ret(f, r.get(f)) }
		}
		return func(m *M, f *Frame) {
			t := make(Tuple, len(rs))
			for i, r := range rs {
				t[i] = r.get(f)
			}
			m.ret(f, t)
		}
	case *ssa.Panic:
		o := c.op(x.X)
		return func(m *M, f *Frame) {
			f.pc++
			m.throw(o.get(f))
		}
	case *ssa.RunDefers:
		return func(m *M, f *Frame) {
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				m.pushDeferred(f, d)
				return
			}
			f.pc++
		}
	case *ssa.Call:
		return c.call(x)
	case *ssa.Go:
		ci := c.callInfo(&x.Call, nil)
		return func(m *M, f *Frame) {
			f.pc++
			cl, args := ci.resolve(m, f)
			m.spawn(cl, args, ci)
		}
	case *ssa.Defer:
		ci := c.callInfo(&x.Call, nil)
		return func(m *M, f *Frame) {
			f.pc++
			cl, args := ci.resolve(m, f)
			f.defers = append(f.defers, &deferred{cl, args, ci})
		}
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(m *M, f *Frame) {
			if m.merging {
				panic(bailOut{})
			}
			cc := ch.get(f).(*Chan)
			m.block(&pendingOp{cases: []selCase{{ch: cc, send: true, val: v.get(f)}}, done: func(m *M, f *Frame, i int, v Value, ok bool) {
				f.pc++
			}})
		}
	case *ssa.Select:
		type st struct {
			send bool
			ch   operand
			val  operand
			et   types.Type
		}
		var sts []st
		for _, s := range x.States {
			e := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if s.Send != nil {
				e.val = c.op(s.Send)
			}
			sts = append(sts, e)
		}
		dst := c.reg(x)
		blocking := x.Blocking
		return func(m *M, f *Frame) {
			if m.merging {
				panic(bailOut{})
			}
			op := &pendingOp{hasDefault: !blocking, isSelect: true}
			for _, s := range sts {
				sc := selCase{ch: s.ch.get(f).(*Chan), send: s.send}
				if s.send {
					sc.val = s.val.get(f)
				}
				op.cases = append(op.cases, sc)
			}
			op.done = func(m *M, f *Frame, i int, v Value, ok bool) {
				res := Tuple{uint64(i), ok}
				for k, s := range sts {
					if !s.send {
						if k == i {
							if v == nil {
								v = zero(s.et)
							}
							res = append(res, v)
						} else {
							res = append(res, zero(s.et))
						}
					}
				}
				f.regs[dst] = res
				f.pc++
			}
			m.block(op)
		}
	case *ssa.Store:
		addr, val := c.op(x.Addr), c.op(x.Val)
		nocopy := !needCopy(x.Val.Type())
		fresh := c.freshAddr(x.Addr)
		if pos := x.Pos(); raceChecked(x.Parent()) && !private(x.Addr) {
			return func(m *M, f *Frame) {
				f.pc++
				a := addr.get(f)
				if m.racing() {
					m.accessAddr(a, true, pos)
				}
				m.store(a, val.get(f), nocopy, fresh)
			}
		}
		return func(m *M, f *Frame) {
			f.pc++
			m.store(addr.get(f), val.get(f), nocopy, fresh)
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			ch := c.op(x.X)
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			dst := c.reg(x)
			commaOk := x.CommaOk
			return func(m *M, f *Frame) {
				if m.merging {
					panic(bailOut{})
				}
				m.block(&pendingOp{cases: []selCase{{ch: ch.get(f).(*Chan)}}, done: func(m *M, f *Frame, i int, v Value, ok bool) {
					if v == nil {
						v = zero(et)
					}
					if commaOk {
						f.regs[dst] = Tuple{v, ok}
					} else {
						f.regs[dst] = v
					}
					f.pc++
				}})
			}
		}
	case *ssa.MapUpdate:
		mp, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		checked, pos := raceChecked(x.Parent()), x.Pos()
		return func(m *M, f *Frame) {
			mm := mp.get(f).(*Map)
			if mm == nil {
				f.pc++
				m.throwRT("assignment to entry in nil map")
				return
			}
			if checked && m.racing() {
				m.access(mm, true, pos)
			}
			m.mapSet(mm, k.get(f), v.get(f))
			f.pc++
		}
	}
	if v, ok := in.(ssa.Value); ok {
		ev := c.value(v)
		dst := c.reg(v)
		return func(m *M, f *Frame) {
			f.pc++
			r := ev(m, f)
			f.regs[dst] = r
		}
	}
	s := fmt.Sprintf("instruction %T", in)
	return func(m *M, f *Frame) { panic(unsupported{s}) }
}

// freshAddr: the address is inside an object allocated by this activation.
func (c *compiler) freshAddr(a ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := a.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			a = x.X
		default:
			return false
		}
	}
	return false
}

type evalFn func(m *M, f *Frame) Value

// value compiles a value-producing instruction.  Faults throw target panics (m.throwRT panics with
// targetPanic, which the run loop turns into unwinding).
func (c *compiler) value(v ssa.Value) evalFn {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return func(m *M, f *Frame) Value {
			p := new(Value)
			*p = zero(t)
			return p
		}
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.ChangeType:
		o := c.op(x.X)
		return func(m *M, f *Frame) Value { return o.get(f) }
	case *ssa.ChangeInterface:
		o := c.op(x.X)
		return func(m *M, f *Frame) Value { return o.get(f) }
	case *ssa.Convert:
		return c.convert(x.X, x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return c.convert(x.X, x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		o := c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(m *M, f *Frame) Value {
			s := o.get(f).(Slice)
			if len(s) < n {
				m.throwRT("cannot convert slice to array pointer: length too short")
			}
			panic(unsup("slice to array pointer conversion"))
		}
	case *ssa.MakeInterface:
		o := c.op(x.X)
		ti := c.m.canon(x.X.Type())
		return func(m *M, f *Frame) Value { return Iface{ti, o.get(f)} }
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []operand
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(m *M, f *Frame) Value {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = b.get(f)
			}
			return &Closure{fn: fn, env: env}
		}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return func(m *M, f *Frame) Value { return m.newMap(mt) }
	case *ssa.MakeChan:
		o := c.op(x.Size)
		et := x.Type().Underlying().(*types.Chan).Elem()
		pos := x.Pos()
		return func(m *M, f *Frame) Value {
			n := m.toInt(o.get(f), "channel capacity")
			if n < 0 {
				m.throwRT("makechan: size out of range")
			}
			m.chanSeq++
			return &Chan{cap: n, et: et, id: m.chanSeq, pos: pos}
		}
	case *ssa.MakeSlice:
		ln, cp := c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		nc := needCopy(et)
		return func(m *M, f *Frame) Value {
			n, k := m.toInt(ln.get(f), "slice length"), m.toInt(cp.get(f), "slice capacity")
			if n < 0 || n > k {
				m.throwRT("makeslice: len out of range")
			}
			if k > 1<<22 {
				panic(unsup("makeslice of %d", k))
			}
			s := make(Slice, n, k)
			z := zero(et)
			full := s[:k]
			for i := range full {
				if nc {
					full[i] = copyVal(z)
				} else {
					full[i] = z
				}
			}
			return s
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.FieldAddr:
		o := c.op(x.X)
		i := x.Field
		return func(m *M, f *Frame) Value {
			p, ok := o.get(f).(Ptr)
			if !ok {
				panic(unsup("field address of %T in %s", o.get(f), f.fi.name))
			}
			if p == nil {
				m.throwRT("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsup("field address in %T in %s", *p, f.fi.name))
			}
			return &s[i]
		}
	case *ssa.Field:
		o := c.op(x.X)
		i := x.Field
		return func(m *M, f *Frame) Value { return o.get(f).(Struct)[i] }
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Index:
		o, idx := c.op(x.X), c.op(x.Index)
		iw, isg, _ := widthOf(x.Index.Type())
		return func(m *M, f *Frame) Value {
			var base []Value
			var n int
			var str Value
			switch b := o.get(f).(type) {
			case Array:
				base, n = b, len(b)
			case string:
				str, n = b, len(b)
			case *SymStr:
				base, n = b.b, len(b.b)
			default:
				panic(unsup("index of %T", b))
			}
			i, sym := m.checkIndex(idx.get(f), iw, isg, n)
			if sym != nil {
				if str != nil {
					base = bytesOf(str)
				}
				return m.selectIte(base, sym)
			}
			if str != nil {
				return uint64(str.(string)[i])
			}
			return base[i]
		}
	case *ssa.Lookup:
		o, k := c.op(x.X), c.op(x.Index)
		if isStringT(x.X.Type()) {
			iw, isg, _ := widthOf(x.Index.Type())
			return func(m *M, f *Frame) Value {
				s := o.get(f)
				i, sym := m.checkIndex(k.get(f), iw, isg, strLen(s))
				if sym != nil {
					return m.selectIte(bytesOf(s), sym)
				}
				if str, ok := s.(string); ok {
					return uint64(str[i])
				}
				return s.(*SymStr).b[i]
			}
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		commaOk := x.CommaOk
		checked, pos := raceChecked(x.Parent()), x.Pos()
		return func(m *M, f *Frame) Value {
			if mp := o.get(f).(*Map); checked && mp != nil && m.racing() {
				m.access(mp, false, pos)
			}
			v, ok := m.mapGet(o.get(f).(*Map), k.get(f))
			if !ok {
				v = zero(et)
			}
			if commaOk {
				return Tuple{v, ok}
			}
			return v
		}
	case *ssa.Extract:
		o := c.op(x.Tuple)
		i := x.Index
		return func(m *M, f *Frame) Value { return o.get(f).(Tuple)[i] }
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Range:
		o := c.op(x.X)
		return func(m *M, f *Frame) Value {
			switch s := o.get(f).(type) {
			case *Map:
				return m.newMapIter(s)
			default:
				return &strIter{s: s}
			}
		}
	case *ssa.Next:
		o := c.op(x.Iter)
		checked, pos := raceChecked(x.Parent()), x.Pos()
		if r, ok := x.Iter.(*ssa.Range); ok && pos == token.NoPos {
			pos = r.Pos()
		}
		tt := x.Type().(*types.Tuple)
		return func(m *M, f *Frame) Value {
			switch it := o.get(f).(type) {
			case *mapIter:
				if checked && it.mp != nil && m.racing() {
					m.access(it.mp, false, pos)
				}
				k, v, ok := m.mapNext(it)
				if !ok {
					kz, vz := Value(nil), Value(nil)
					if b, isb := tt.At(1).Type().(*types.Basic); !isb || b.Kind() != types.Invalid {
						kz = zero(tt.At(1).Type())
					}
					if b, isb := tt.At(2).Type().(*types.Basic); !isb || b.Kind() != types.Invalid {
						vz = zero(tt.At(2).Type())
					}
					return Tuple{false, kz, vz}
				}
				return Tuple{true, k, v}
			case *strIter:
				return m.strNext(it)
			}
			panic("next")
		}
	}
	s := fmt.Sprintf("value %T", v)
	return func(m *M, f *Frame) Value { panic(unsupported{s}) }
}

func (m *M) toInt(v Value, what string) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		return int(sext(m.concretize(x, what), x.w))
	}
	panic(unsup("integer %T", v))
}

// checkIndex bounds-checks an index; the result is concrete or a 64-bit term.
func (m *M) checkIndex(v Value, w uint8, signed bool, n int) (int, *Term) {
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if signed {
			i = sext(x, w)
		}
		if i < 0 || i >= int64(n) {
			m.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *Term:
		t := x
		if t.w < 64 {
			if signed {
				t = m.bank.Sext(t, 64)
			} else {
				t = m.bank.Zext(t, 64)
			}
		}
		in := m.bank.Cmp(OUlt, t, m.bank.Const(uint64(n), 64))
		if m.merging {
			if in != m.bank.True {
				panic(bailOut{})
			}
		} else if !m.branch(in) {
			m.throwRT("index out of range [?] with length " + fmt.Sprint(n))
		}
		if t.isConst() {
			return int(t.v), nil
		}
		if n == 1 {
			return 0, nil
		}
		return 0, t
	}
	panic(unsup("index %T", v))
}

// selectIte builds the value at a symbolic index.
func (m *M) selectIte(base []Value, idx *Term) Value {
	// restrict to indices possible in the current domain when the index is a single small variable
	cand := make([]int, 0, len(base))
	for i := range base {
		if m.maybe(m.bank.Eq(idx, m.bank.Const(uint64(i), 64))) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		panic(pathEnd{"no index"})
	}
	// group equal values to keep the term small
	r := base[cand[len(cand)-1]]
	for k := len(cand) - 2; k >= 0; k-- {
		i := cand[k]
		c := m.bank.Eq(idx, m.bank.Const(uint64(i), 64))
		nv, ok := m.mergeVal(c, base[i], r)
		if !ok {
			// concretise instead
			j := m.concretize(idx, "index")
			return base[j]
		}
		r = nv
	}
	return r
}

// loadSym is the value of an integer, or any other value, at a symbolic index.
func (m *M) loadSym(p *SymAddr, w uint8) Value {
	if w == 0 || len(p.base) > 256 {
		return m.selectIte(p.base, p.idx)
	}
	// the indices of each distinct value
	var vals []uint64
	conds := map[uint64]*Term{}
	sizes := map[uint64]int{}
	for i, v := range p.base {
		x, ok := v.(uint64)
		if !ok {
			return m.selectIte(p.base, p.idx)
		}
		c := m.bank.Eq(p.idx, m.bank.Const(uint64(i), 64))
		if !m.maybe(c) {
			continue
		}
		if conds[x] == nil {
			vals = append(vals, x)
			conds[x] = m.bank.False
		}
		conds[x] = m.bank.Or(conds[x], c)
		sizes[x]++
	}
	if len(vals) == 0 {
		panic(pathEnd{"no index"})
	}
	most := vals[0]
	for _, x := range vals {
		if sizes[x] > sizes[most] {
			most = x
		}
	}
	r := m.bank.Const(most, w)
	for _, x := range vals {
		if x != most {
			r = m.bank.Ite(conds[x], m.bank.Const(x, w), r)
		}
	}
	return m.norm(r)
}

// maybe is a cheap over-approximation of feasibility.
func (m *M) maybe(t *Term) bool {
	if t == m.bank.False {
		return false
	}
	if t == m.bank.True || m.p == nil {
		return true
	}
	if len(t.vars) == 1 && m.bank.byID[t.vars[0]].w <= 8 {
		if d, ok := m.p.dom[t.vars[0]]; ok {
			tt := m.bank.truthTable(t)
			for i := range d {
				if d[i]&tt[i] != 0 {
					return true
				}
			}
			return false
		}
	}
	return true
}

// mergeVal returns ite(c, a, b) when the two values can be merged.
func (m *M) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case uint64:
		switch y := b.(type) {
		case uint64:
			if x == y {
				return a, true
			}
			return nil, false // width unknown; the caller knows better
		case *Term:
			if y.w == 0 {
				return nil, false
			}
			return m.norm(m.bank.Ite(c, m.bank.Const(x, y.w), y)), true
		}
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return a, true
			}
			return m.norm(m.bank.Ite(c, m.bank.Bool(x), m.bank.Bool(y))), true
		case *Term:
			return m.norm(m.bank.Ite(c, m.bank.Bool(x), y)), true
		}
	case *Term:
		switch y := b.(type) {
		case uint64:
			return m.norm(m.bank.Ite(c, x, m.bank.Const(y, x.w))), true
		case bool:
			return m.norm(m.bank.Ite(c, x, m.bank.Bool(y))), true
		case *Term:
			if x.w == y.w {
				return m.norm(m.bank.Ite(c, x, y)), true
			}
		}
	case string, *SymStr:
		switch b.(type) {
		case string, *SymStr:
			if s, ok := a.(string); ok {
				if t, ok := b.(string); ok && s == t {
					return a, true
				}
			}
			if strLen(a) != strLen(b) {
				return nil, false
			}
			xb, yb := bytesOf(a), bytesOf(b)
			out := make([]Value, len(xb))
			for i := range xb {
				v, ok := m.mergeW(c, xb[i], yb[i], 8)
				if !ok {
					return nil, false
				}
				out[i] = v
			}
			return mkStr(out), true
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x == y {
			return a, true
		}
	case *Map:
		if y, ok := b.(*Map); ok && x == y {
			return a, true
		}
	case *Chan:
		if y, ok := b.(*Chan); ok && x == y {
			return a, true
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return a, true
		}
	case float64:
		if y, ok := b.(float64); ok && (x == y || (math.IsNaN(x) && math.IsNaN(y))) {
			return a, true
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.t == y.t {
			if x.t == nil {
				return a, true
			}
			if w, _, isInt := widthOf(x.t.t); isInt {
				v, ok := m.mergeW(c, x.v, y.v, w)
				return Iface{x.t, v}, ok
			}
			v, ok := m.mergeVal(c, x.v, y.v)
			if ok {
				return Iface{x.t, v}, true
			}
		}
	case Slice:
		if y, ok := b.(Slice); ok && len(x) == len(y) && cap(x) == cap(y) {
			if x == nil && y == nil {
				return a, true
			}
			if x != nil && y != nil && cap(x) > 0 && &x[:1][0] == &y[:1][0] {
				return a, true
			}
		}
	}
	return nil, false
}

func (m *M) mergeW(c *Term, a, b Value, w uint8) (Value, bool) {
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok {
			if x == y {
				return a, true
			}
			return m.norm(m.bank.Ite(c, m.bank.Const(x, w), m.bank.Const(y, w))), true
		}
	}
	return m.mergeVal(c, a, b)
}

// norm turns constant terms into concrete values.
func (m *M) norm(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.v == 1
		}
		return t.v
	}
	return t
}

func (m *M) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return m.bank.Bool(x)
	case *Term:
		return x
	}
	panic(unsup("boolean %T", v))
}

func (m *M) intTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case uint64:
		return m.bank.Const(x, w)
	case *Term:
		return x
	}
	panic(unsup("integer %T", v))
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) evalFn {
	o, idx := c.op(x.X), c.op(x.Index)
	iw, isg, _ := widthOf(x.Index.Type())
	direct := true // only loaded from and stored to
	for _, r := range *x.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			if r.Val == ssa.Value(x) {
				direct = false
			}
		case *ssa.DebugRef:
		default:
			direct = false
		}
	}
	return func(m *M, f *Frame) Value {
		var base []Value
		switch b := o.get(f).(type) {
		case Slice:
			base = b
		case Ptr:
			if b == nil {
				m.throwRT("invalid memory address or nil pointer dereference")
			}
			base = (*b).(Array)
		default:
			panic(unsup("index address of %T", b))
		}
		if i, ok := idx.get(f).(uint64); ok && iw == 64 && i < uint64(len(base)) {
			return &base[i]
		}
		i, sym := m.checkIndex(idx.get(f), iw, isg, len(base))
		if sym != nil {
			if !direct {
				return &base[m.concretize(sym, "address of an element")]
			}
			return &SymAddr{base, sym}
		}
		return &base[i]
	}
}

func (m *M) store(addr, val Value, nocopy, fresh bool) {
	switch p := addr.(type) {
	case Ptr:
		if p == nil {
			m.throwRT("invalid memory address or nil pointer dereference")
		}
		m.storeCell(p, val, nocopy, fresh)
	case *SymAddr:
		// conditional stores; fall back to concretising the index
		for i := range p.base {
			c := m.bank.Eq(p.idx, m.bank.Const(uint64(i), 64))
			if !m.maybe(c) {
				continue
			}
			w := uint8(0)
			if t, ok := val.(*Term); ok {
				w = t.w
			} else if t, ok := p.base[i].(*Term); ok {
				w = t.w
			}
			if _, isInt := val.(uint64); isInt && w == 0 {
				goto conc
			}
			if _, ok := m.mergeVal(c, val, p.base[i]); !ok && w == 0 {
				goto conc
			}
		}
		for i := range p.base {
			c := m.bank.Eq(p.idx, m.bank.Const(uint64(i), 64))
			if !m.maybe(c) {
				continue
			}
			w := uint8(0)
			if t, ok := val.(*Term); ok {
				w = t.w
			} else if t, ok := p.base[i].(*Term); ok {
				w = t.w
			}
			v, ok := m.mergeW(c, val, p.base[i], w)
			if !ok {
				panic(unsup("store at a symbolic index"))
			}
			m.storeCell(&p.base[i], v, nocopy, false)
		}
		return
	conc:
		i := m.concretize(p.idx, "store index")
		m.storeCell(&p.base[i], val, nocopy, false)
	default:
		panic(unsup("store through %T", addr))
	}
}

func (m *M) storeCell(p Ptr, val Value, nocopy, fresh bool) {
	if nocopy {
		if !fresh {
			m.logStore(p)
		}
		*p = val
		return
	}
	switch v := val.(type) {
	case Struct:
		d, ok := (*p).(Struct)
		if !ok || len(d) != len(v) {
			panic(unsup("store of a struct over %T", *p))
		}
		for i := range v {
			switch v[i].(type) {
			case Struct, Array:
				m.storeCell(&d[i], v[i], false, fresh)
			default:
				if !fresh {
					m.logStore(&d[i])
				}
				d[i] = v[i]
			}
		}
	case Array:
		d, ok := (*p).(Array)
		if !ok || len(d) != len(v) {
			panic(unsup("store of an array over %T", *p))
		}
		for i := range v {
			switch v[i].(type) {
			case Struct, Array:
				m.storeCell(&d[i], v[i], false, fresh)
			default:
				if !fresh {
					m.logStore(&d[i])
				}
				d[i] = v[i]
			}
		}
	default:
		if !fresh {
			m.logStore(p)
		}
		*p = val
	}
}

func (m *M) load(addr Value, cp bool) Value {
	switch p := addr.(type) {
	case Ptr:
		if p == nil {
			m.throwRT("invalid memory address or nil pointer dereference")
		}
		if cp {
			return copyVal(*p)
		}
		return *p
	case *SymAddr:
		return m.selectIte(p.base, p.idx)
	}
	panic(unsup("load through %T", addr))
}

func (c *compiler) slice(x *ssa.Slice) evalFn {
	o := c.op(x.X)
	opt := func(v ssa.Value) (operand, bool) {
		if v == nil {
			return operand{}, false
		}
		return c.op(v), true
	}
	lo, hasLo := opt(x.Low)
	hi, hasHi := opt(x.High)
	mx, hasMax := opt(x.Max)
	return func(m *M, f *Frame) Value {
		v := o.get(f)
		var n, k int
		switch s := v.(type) {
		case string:
			n, k = len(s), len(s)
		case *SymStr:
			n, k = len(s.b), len(s.b)
		case Slice:
			n, k = len(s), cap(s)
		case Ptr:
			if s == nil {
				m.throwRT("invalid memory address or nil pointer dereference")
			}
			a := (*s).(Array)
			n, k = len(a), len(a)
			v = Slice(a)
		default:
			panic(unsup("slice of %T", v))
		}
		l, h, mm := 0, n, k
		if hasLo {
			l = m.toInt(lo.get(f), "slice bound")
		}
		if hasHi {
			h = m.toInt(hi.get(f), "slice bound")
		}
		if hasMax {
			mm = m.toInt(mx.get(f), "slice bound")
		}
		if l < 0 || h < l || mm < h || mm > k {
			m.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, k))
		}
		switch s := v.(type) {
		case string:
			return s[l:h]
		case *SymStr:
			return subStr(s, l, h)
		case Slice:
			if s == nil {
				return s
			}
			return s[l:h:mm]
		}
		panic("slice")
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) evalFn {
	o := c.op(x.X)
	at := x.AssertedType
	commaOk := x.CommaOk
	var z Value
	isIface := types.IsInterface(at)
	if !isIface {
		z = zero(at)
	} else {
		z = Iface{}
	}
	var ti *TI
	if !isIface {
		ti = c.m.canon(at)
	}
	it, _ := at.Underlying().(*types.Interface)
	cache := map[*TI]bool{}
	return func(m *M, f *Frame) Value {
		v, isI := o.get(f).(Iface)
		if !isI {
			panic(unsup("type assertion on %T", o.get(f)))
		}
		ok := false
		if v.t != nil {
			if isIface {
				r, hit := cache[v.t]
				if !hit {
					r = types.Implements(v.t.t, it)
					cache[v.t] = r
				}
				ok = r
			} else {
				ok = v.t == ti
			}
		}
		var res Value = z
		if ok {
			if isIface {
				res = v
			} else {
				res = v.v
			}
		} else if !isIface && needCopy(at) {
			res = copyVal(z)
		}
		if commaOk {
			return Tuple{res, ok}
		}
		if !ok {
			d := "nil"
			if v.t != nil {
				d = v.t.t.String()
			}
			m.throwRT("interface conversion: interface is " + d + ", not " + at.String())
		}
		return res
	}
}

func (c *compiler) unop(x *ssa.UnOp) evalFn {
	o := c.op(x.X)
	switch x.Op {
	case token.MUL:
		t := x.Type()
		var lw uint8 // of integers
		if w, _, ok := widthOf(t); ok && !isBoolT(t) {
			lw = w
		}
		if pos := x.Pos(); raceChecked(x.Parent()) && !private(x.X) {
			copies := needCopy(t)
			return func(m *M, f *Frame) Value {
				a := o.get(f)
				if m.racing() {
					m.accessAddr(a, false, pos)
				}
				if p, ok := a.(Ptr); ok && p != nil && !copies {
					return *p
				}
				if p, ok := a.(*SymAddr); ok {
					return m.loadSym(p, lw)
				}
				return m.load(a, copies)
			}
		}
		if needCopy(t) {
			return func(m *M, f *Frame) Value { return m.load(o.get(f), true) }
		}
		return func(m *M, f *Frame) Value {
			if p, ok := o.get(f).(Ptr); ok && p != nil {
				return *p
			}
			a := o.get(f)
			if p, ok := a.(*SymAddr); ok {
				return m.loadSym(p, lw)
			}
			return m.load(a, false)
		}
	case token.NOT:
		return func(m *M, f *Frame) Value {
			switch v := o.get(f).(type) {
			case bool:
				return !v
			case *Term:
				return m.norm(m.bank.Not(v))
			}
			panic("not")
		}
	case token.SUB:
		w, _, isInt := widthOf(x.Type())
		return func(m *M, f *Frame) Value {
			switch v := o.get(f).(type) {
			case uint64:
				return -v & mask(w)
			case *Term:
				return m.norm(m.bank.BvNeg(v))
			case float64:
				return -v
			case complex128:
				return -v
			}
			_ = isInt
			panic(unsup("negation"))
		}
	case token.XOR:
		w, _, _ := widthOf(x.Type())
		return func(m *M, f *Frame) Value {
			switch v := o.get(f).(type) {
			case uint64:
				return ^v & mask(w)
			case *Term:
				return m.norm(m.bank.BvNot(v))
			}
			panic(unsup("complement"))
		}
	case token.ARROW:
		return func(m *M, f *Frame) Value { panic("receive must be compiled as an instruction") }
	}
	return func(m *M, f *Frame) Value { panic(unsup("unary %s", x.Op)) }
}

func (c *compiler) binop(x *ssa.BinOp) evalFn {
	a, b := c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return func(m *M, f *Frame) Value { return m.norm(m.eqTerm(a.get(f), b.get(f), t)) }
	case token.NEQ:
		return func(m *M, f *Frame) Value { return m.norm(m.bank.Not(m.eqTerm(a.get(f), b.get(f), t))) }
	}
	if isStringT(t) {
		switch x.Op {
		case token.ADD:
			return func(m *M, f *Frame) Value { return concatStr(a.get(f), b.get(f)) }
		case token.LSS:
			return func(m *M, f *Frame) Value { return m.norm(m.strLess(a.get(f), b.get(f), false)) }
		case token.LEQ:
			return func(m *M, f *Frame) Value { return m.norm(m.strLess(a.get(f), b.get(f), true)) }
		case token.GTR:
			return func(m *M, f *Frame) Value { return m.norm(m.strLess(b.get(f), a.get(f), false)) }
		case token.GEQ:
			return func(m *M, f *Frame) Value { return m.norm(m.strLess(b.get(f), a.get(f), true)) }
		}
	}
	if isFloatT(t) {
		op := x.Op
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		return func(m *M, f *Frame) Value {
			p, ok1 := a.get(f).(float64)
			q, ok2 := b.get(f).(float64)
			if !ok1 || !ok2 {
				panic(unsup("arithmetic on symbolic floats"))
			}
			r := func(v float64) Value {
				if f32 {
					return float64(float32(v))
				}
				return v
			}
			switch op {
			case token.ADD:
				return r(p + q)
			case token.SUB:
				return r(p - q)
			case token.MUL:
				return r(p * q)
			case token.QUO:
				return r(p / q)
			case token.LSS:
				return p < q
			case token.LEQ:
				return p <= q
			case token.GTR:
				return p > q
			case token.GEQ:
				return p >= q
			}
			panic(unsup("float %s", op))
		}
	}
	if w, signed, ok := widthOf(t); ok {
		return c.intop(x, a, b, w, signed)
	}
	op := x.Op
	return func(m *M, f *Frame) Value { panic(unsup("binary %s on %s", op, t)) }
}

func (c *compiler) intop(x *ssa.BinOp, a, b operand, w uint8, signed bool) evalFn {
	mk := mask(w)
	op := x.Op
	pick := func(u, s Op) Op {
		if signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return func(m *M, f *Frame) Value {
			p, ok1 := a.get(f).(uint64)
			q, ok2 := b.get(f).(uint64)
			if ok1 && ok2 {
				return (p + q) & mk
			}
			return m.norm(m.bank.Bin(OAdd, m.intTerm(a.get(f), w), m.intTerm(b.get(f), w)))
		}
	case token.SUB:
		return func(m *M, f *Frame) Value {
			p, ok1 := a.get(f).(uint64)
			q, ok2 := b.get(f).(uint64)
			if ok1 && ok2 {
				return (p - q) & mk
			}
			return m.norm(m.bank.Bin(OSub, m.intTerm(a.get(f), w), m.intTerm(b.get(f), w)))
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		top := map[token.Token]Op{token.MUL: OMul, token.AND: OAnd, token.OR: OOr, token.XOR: OXor}[op]
		return func(m *M, f *Frame) Value {
			p, ok1 := a.get(f).(uint64)
			q, ok2 := b.get(f).(uint64)
			if ok1 && ok2 {
				return evalOp(top, w, p, q, w)
			}
			return m.norm(m.bank.Bin(top, m.intTerm(a.get(f), w), m.intTerm(b.get(f), w)))
		}
	case token.AND_NOT:
		return func(m *M, f *Frame) Value {
			p, ok1 := a.get(f).(uint64)
			q, ok2 := b.get(f).(uint64)
			if ok1 && ok2 {
				return p &^ q
			}
			return m.norm(m.bank.Bin(OAnd, m.intTerm(a.get(f), w), m.bank.BvNot(m.intTerm(b.get(f), w))))
		}
	case token.QUO, token.REM:
		top := pick(OUdiv, OSdiv)
		if op == token.REM {
			top = pick(OUrem, OSrem)
		}
		return func(m *M, f *Frame) Value {
			p, ok1 := a.get(f).(uint64)
			q, ok2 := b.get(f).(uint64)
			if ok2 && q == 0 {
				m.throwRT("integer divide by zero")
			}
			if ok1 && ok2 {
				return evalOp(top, w, p, q, w)
			}
			qt := m.intTerm(b.get(f), w)
			if !ok2 {
				if m.branch(m.bank.Eq(qt, m.bank.Const(0, w))) {
					m.throwRT("integer divide by zero")
				}
			}
			return m.norm(m.bank.Bin(top, m.intTerm(a.get(f), w), qt))
		}
	case token.SHL, token.SHR:
		cw, csigned, _ := widthOf(x.Y.Type())
		return func(m *M, f *Frame) Value {
			q, ok2 := b.get(f).(uint64)
			if !ok2 {
				ct := b.get(f).(*Term)
				if csigned {
					if m.branch(m.bank.Cmp(OSlt, ct, m.bank.Const(0, cw))) {
						m.throwRT("negative shift amount")
					}
				}
				q = m.concretize(ct, "shift count")
			}
			if csigned && sext(q, cw) < 0 {
				m.throwRT("negative shift amount")
			}
			top := OShl
			if op == token.SHR {
				top = OLshr
				if signed {
					top = OAshr
				}
			}
			if q > 255 {
				q = 255
			}
			if p, ok := a.get(f).(uint64); ok {
				return evalOp(top, w, p, q, w)
			}
			if q >= uint64(w) {
				if top == OAshr {
					q = uint64(w) - 1
				} else {
					return uint64(0)
				}
			}
			return m.norm(m.bank.Bin(top, m.intTerm(a.get(f), w), m.bank.Const(q, w)))
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := pick(OUlt, OSlt), pick(OUle, OSle)
		return func(m *M, f *Frame) Value {
			va, vb := a.get(f), b.get(f)
			p, ok1 := va.(uint64)
			q, ok2 := vb.(uint64)
			if ok1 && ok2 {
				if signed {
					ps, qs := sext(p, w), sext(q, w)
					switch op {
					case token.LSS:
						return ps < qs
					case token.LEQ:
						return ps <= qs
					case token.GTR:
						return ps > qs
					}
					return ps >= qs
				}
				switch op {
				case token.LSS:
					return p < q
				case token.LEQ:
					return p <= q
				case token.GTR:
					return p > q
				}
				return p >= q
			}
			ta, tb := m.intTerm(va, w), m.intTerm(vb, w)
			switch op {
			case token.LSS:
				return m.norm(m.bank.Cmp(lt, ta, tb))
			case token.LEQ:
				return m.norm(m.bank.Cmp(le, ta, tb))
			case token.GTR:
				return m.norm(m.bank.Cmp(lt, tb, ta))
			}
			return m.norm(m.bank.Cmp(le, tb, ta))
		}
	}
	return func(m *M, f *Frame) Value { panic(unsup("integer %s", op)) }
}

func (m *M) strLess(a, b Value, orEq bool) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		if orEq {
			return m.bank.Bool(x <= y)
		}
		return m.bank.Bool(x < y)
	}
	xb, yb := bytesOf(a), bytesOf(b)
	n := len(xb)
	if len(yb) < n {
		n = len(yb)
	}
	var tail *Term
	if len(xb) == len(yb) {
		tail = m.bank.Bool(orEq)
	} else {
		tail = m.bank.Bool(len(xb) < len(yb))
	}
	for i := n - 1; i >= 0; i-- {
		p, q := m.intTerm(xb[i], 8), m.intTerm(yb[i], 8)
		tail = m.bank.Or(m.bank.Cmp(OUlt, p, q), m.bank.And(m.bank.Eq(p, q), tail))
	}
	return tail
}

func (m *M) strEq(a, b Value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return m.bank.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return m.bank.False
	}
	xb, yb := bytesOf(a), bytesOf(b)
	r := m.bank.True
	for i := range xb {
		r = m.bank.And(r, m.bank.Eq(m.intTerm(xb[i], 8), m.intTerm(yb[i], 8)))
		if r == m.bank.False {
			break
		}
	}
	return r
}

// eqTerm compares two values of static type t (which may be nil when unknown).
func (m *M) eqTerm(a, b Value, t types.Type) *Term {
	switch x := a.(type) {
	case uint64:
		switch y := b.(type) {
		case uint64:
			return m.bank.Bool(x == y)
		case *Term:
			return m.bank.Eq(y, m.bank.Const(x, y.w))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return m.bank.Bool(x == y)
		case *Term:
			return m.bank.Eq(y, m.bank.Bool(x))
		}
	case *Term:
		switch y := b.(type) {
		case uint64:
			return m.bank.Eq(x, m.bank.Const(y, x.w))
		case bool:
			return m.bank.Eq(x, m.bank.Bool(y))
		case *Term:
			return m.bank.Eq(x, y)
		}
	case string, *SymStr:
		return m.strEq(a, b)
	case float64:
		if y, ok := b.(float64); ok {
			return m.bank.Bool(x == y)
		}
		panic(unsup("comparison of symbolic floats"))
	case *OpaqueFloat:
		if y, ok := b.(*OpaqueFloat); ok && x.fn == y.fn {
			// equal arguments give equal results; unequal arguments are undetermined
			e := m.strEq(x.arg, y.arg)
			if e == m.bank.True {
				return e
			}
		}
		panic(unsup("comparison of symbolic floats"))
	case complex128:
		return m.bank.Bool(x == b.(complex128))
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return m.bank.Bool(x == y)
		}
		if _, ok := b.(*SymAddr); ok {
			if x == nil {
				return m.bank.False
			}
		}
		if _, ok := b.(*RVal); ok { // with the zero reflect.Value
			return m.bank.False
		}
	case *RVal:
		if y, ok := b.(Ptr); ok && y == nil {
			return m.bank.False
		}
	case *SymAddr:
		if y, ok := b.(Ptr); ok && y == nil {
			return m.bank.False
		}
	case Slice:
		y := b.(Slice)
		if x == nil || y == nil {
			return m.bank.Bool(x == nil && y == nil)
		}
	case *Map:
		return m.bank.Bool(x == b.(*Map))
	case *Chan:
		return m.bank.Bool(x == b.(*Chan))
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return m.bank.Bool(x == y)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t != y.t {
			return m.bank.False
		}
		if x.t == nil {
			return m.bank.True
		}
		switch x.t.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			m.throwRT("comparing uncomparable type " + x.t.t.String())
		}
		return m.eqTerm(x.v, y.v, x.t.t)
	case Struct:
		y := b.(Struct)
		r := m.bank.True
		for i := range x {
			r = m.bank.And(r, m.eqTerm(x[i], y[i], nil))
		}
		return r
	case Array:
		y := b.(Array)
		r := m.bank.True
		for i := range x {
			r = m.bank.And(r, m.eqTerm(x[i], y[i], nil))
		}
		return r
	case *RType:
		if y, ok := b.(*RType); ok {
			return m.bank.Bool(x == y)
		}
		return m.bank.False
	}
	panic(unsup("comparison of %T and %T", a, b))
}

func (c *compiler) convert(xv ssa.Value, from, to types.Type) evalFn {
	o := c.op(xv)
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs, fInt := widthOf(from)
	tw, _, tInt := widthOf(to)
	switch {
	case fInt && tInt:
		return func(m *M, f *Frame) Value {
			switch v := o.get(f).(type) {
			case uint64:
				if fs {
					return uint64(sext(v, fw)) & mask(tw)
				}
				return v & mask(tw)
			case *Term:
				switch {
				case tw < fw:
					return m.norm(m.bank.Extract(v, 0, tw))
				case tw == fw:
					return v
				case fs:
					return m.norm(m.bank.Sext(v, tw))
				default:
					return m.norm(m.bank.Zext(v, tw))
				}
			}
			panic(unsup("integer conversion of %T", o.get(f)))
		}
	case fInt && isFloatT(to):
		return func(m *M, f *Frame) Value {
			v, ok := o.get(f).(uint64)
			if !ok {
				v = m.concretize(o.get(f).(*Term), "integer converted to float")
			}
			var r float64
			if fs {
				r = float64(sext(v, fw))
			} else {
				r = float64(v)
			}
			if tu.(*types.Basic).Kind() == types.Float32 {
				r = float64(float32(r))
			}
			return r
		}
	case isFloatT(from) && tInt:
		_, ts, _ := widthOf(to)
		return func(m *M, f *Frame) Value {
			v, ok := o.get(f).(float64)
			if !ok {
				panic(unsup("conversion of a symbolic float"))
			}
			if ts {
				return uint64(int64(v)) & mask(tw)
			}
			return uint64(v) & mask(tw)
		}
	case isFloatT(from) && isFloatT(to):
		return func(m *M, f *Frame) Value {
			v := o.get(f)
			if x, ok := v.(float64); ok && tu.(*types.Basic).Kind() == types.Float32 {
				return float64(float32(x))
			}
			return v
		}
	case isStringT(to) && fInt:
		return func(m *M, f *Frame) Value {
			switch v := o.get(f).(type) {
			case uint64:
				r := sext(v, fw)
				if !fs {
					r = int64(v)
				}
				if r < 0 || r > 0x10ffff {
					return "\uFFFD"
				}
				return string(rune(r))
			case *Term:
				t := v
				if m.branch(m.bank.Cmp(OUlt, t, m.bank.Const(128, t.w))) {
					return mkStr([]Value{m.norm(m.bank.Extract(t, 0, 8))})
				}
				t32 := t
				if t.w > 32 {
					t32 = m.bank.Extract(t, 0, 32)
				} else if t.w < 32 {
					t32 = m.bank.Zext(t, 32)
				}
				return m.callUTF8Encode(t32)
			}
			panic("string(int)")
		}
	case isStringT(from) && isStringT(to):
		return func(m *M, f *Frame) Value { return o.get(f) }
	case isStringT(from):
		if s, ok := tu.(*types.Slice); ok {
			ew, _, _ := widthOf(s.Elem())
			if ew == 8 {
				return func(m *M, f *Frame) Value {
					b := bytesOf(o.get(f))
					out := make(Slice, len(b))
					copy(out, b)
					return out
				}
			}
			return func(m *M, f *Frame) Value {
				it := &strIter{s: o.get(f)}
				out := Slice{}
				for {
					t := m.strNext(it).(Tuple)
					if t[0] == false {
						return out
					}
					out = append(out, t[2])
				}
			}
		}
	case isStringT(to):
		if s, ok := fu.(*types.Slice); ok {
			ew, _, _ := widthOf(s.Elem())
			if ew == 8 {
				return func(m *M, f *Frame) Value {
					v := o.get(f).(Slice)
					out := make([]Value, len(v))
					copy(out, v)
					return mkStr(out)
				}
			}
			return func(m *M, f *Frame) Value {
				v := o.get(f).(Slice)
				var out Value = ""
				for _, r := range v {
					switch x := r.(type) {
					case uint64:
						out = concatStr(out, string(rune(int32(x))))
					case *Term:
						if m.branch(m.bank.Cmp(OUlt, x, m.bank.Const(128, 32))) {
							out = concatStr(out, mkStr([]Value{m.norm(m.bank.Extract(x, 0, 8))}))
						} else {
							out = concatStr(out, m.callUTF8Encode(x))
						}
					}
				}
				return out
			}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return func(m *M, f *Frame) Value { return o.get(f) }
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(m *M, f *Frame) Value { return o.get(f) }
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(m *M, f *Frame) Value {
			v := o.get(f)
			if tInt {
				if p, ok := v.(Ptr); ok && p == nil {
					return uint64(0)
				}
				panic(unsup("pointer to integer conversion"))
			}
			return v
		}
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsComplex != 0 {
		return func(m *M, f *Frame) Value { return o.get(f) }
	}
	if types.Identical(fu, tu) {
		return func(m *M, f *Frame) Value { return o.get(f) }
	}
	return func(m *M, f *Frame) Value { panic(unsup("conversion from %s to %s", from, to)) }
}

// calls ------------------------------------------------------------------------------------------

type callInfo struct {
	cc      *ssa.CallCommon
	fn      operand
	static  *ssa.Function
	builtin string
	args    []operand
	method  *types.Func
	dst     int
	call    *ssa.Call
	argT    []types.Type
	fnT     types.Type
	mkey    string
	pos     token.Pos
}

func (c *compiler) callInfo(cc *ssa.CallCommon, call *ssa.Call) *callInfo {
	ci := &callInfo{cc: cc, dst: -1, call: call, pos: cc.Pos()}
	for _, a := range cc.Args {
		ci.args = append(ci.args, c.op(a))
		ci.argT = append(ci.argT, a.Type())
	}
	if cc.IsInvoke() {
		ci.fn = c.op(cc.Value)
		ci.method = cc.Method
		ci.mkey = cc.Method.Id()
	} else {
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			ci.builtin = v.Name()
		case *ssa.Function:
			ci.static = v
		default:
			ci.fn = c.op(v)
		}
	}
	if call != nil {
		ci.dst = c.reg(call)
	}
	return ci
}

// resolve evaluates the callee and the arguments.
func (ci *callInfo) resolve(m *M, f *Frame) (*Closure, []Value) {
	args := make([]Value, 0, len(ci.args)+1)
	var cl *Closure
	switch {
	case ci.method != nil:
		iv, ok := ci.fn.get(f).(Iface)
		if !ok {
			panic(unsup("invoke on %T", ci.fn.get(f)))
		}
		if iv.t == nil {
			m.throwRT("invalid memory address or nil pointer dereference")
		}
		if nm, ok := iv.v.(nativeMethods); ok {
			name := ci.method.Name()
			cl = &Closure{nat: func(m *M, args []Value) Value { return nm.callMethod(m, name, args[1:]) }}
		} else {
			cl = m.fnClosure(m.lookupMethod(iv.t, ci.method))
		}
		args = append(args, iv.v)
	case ci.builtin != "":
		bi := ci.builtin
		cl = &Closure{nat: func(m *M, args []Value) Value { return m.builtin(bi, args, ci) }}
	case ci.static != nil:
		cl = m.fnClosure(ci.static)
	default:
		fv, ok := ci.fn.get(f).(*Closure)
		if !ok {
			panic(unsup("call of %T", ci.fn.get(f)))
		}
		if fv == nil {
			m.throwRT("invalid memory address or nil pointer dereference")
		}
		cl = fv
	}
	for _, a := range ci.args {
		args = append(args, a.get(f))
	}
	return cl, args
}

type nativeMethods interface {
	callMethod(m *M, name string, args []Value) Value
}

func (m *M) lookupMethod(ti *TI, meth *types.Func) *ssa.Function {
	key := meth.Id()
	if fn, ok := ti.methods[key]; ok {
		return fn
	}
	fn := m.eng.prog.LookupMethod(ti.t, meth.Pkg(), meth.Name())
	if fn == nil {
		panic(unsup("no method %s on %s", meth.Name(), ti.t))
	}
	ti.methods[key] = fn
	return fn
}

func (c *compiler) call(x *ssa.Call) instrFn {
	ci := c.callInfo(&x.Call, x)
	dst := ci.dst
	if ci.builtin != "" {
		name := ci.builtin
		args := ci.args
		return func(m *M, f *Frame) {
			f.pc++
			var buf [4]Value
			vals := buf[:0]
			for _, a := range args {
				vals = append(vals, a.get(f))
			}
			f.regs[dst] = m.builtin(name, vals, ci)
		}
	}
	return func(m *M, f *Frame) {
		cl, args := ci.resolve(m, f)
		m.call(f, cl, args, ci)
	}
}

func isRecv(in ssa.Instruction) bool {
	u, ok := in.(*ssa.UnOp)
	return ok && u.Op == token.ARROW
}

func shortName(s string) string {
	return strings.ReplaceAll(s, "github.com/sjansen/pgutil/internal/", "")
}
