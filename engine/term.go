package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed SMT terms over booleans (w == 0) and bit-vectors (1 <= w <= 64).

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OBvnot
	OBvneg
	OExtract // v = low bit
	OZext
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv",
	OUrem: "bvurem", OSrem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OBvnot: "bvnot", OBvneg: "bvneg", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not"}

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	v       uint64
	id      int32
	name    string  // variables
	vars    []int32 // sorted ids of the variables below
	tt      *[4]uint64
	size    int32
	defined bool // define-fun already sent to the solver
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	v       uint64
}

type Bank struct {
	tab   map[termKey]*Term
	vars  map[string]*Term
	byID  []*Term // variables by variable id (Term.v)
	next  int32
	True  *Term
	False *Term
}

func newBank() *Bank {
	b := &Bank{tab: map[termKey]*Term{}, vars: map[string]*Term{}}
	b.True = b.mk(OConst, 0, nil, nil, nil, 1)
	b.False = b.mk(OConst, 0, nil, nil, nil, 0)
	return b
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(xs ...[]int32) []int32 {
	var out []int32
	for _, x := range xs {
		if len(x) == 0 {
			continue
		}
		if out == nil {
			out = x
			continue
		}
		// merge two sorted lists; reuse when one contains the other
		i, j, n := 0, 0, 0
		for i < len(out) && j < len(x) {
			switch {
			case out[i] < x[j]:
				i++
			case out[i] > x[j]:
				j++
			default:
				i++
				j++
				n++
			}
		}
		if n == len(x) {
			continue
		}
		if n == len(out) {
			out = x
			continue
		}
		m := make([]int32, 0, len(out)+len(x)-n)
		i, j = 0, 0
		for i < len(out) || j < len(x) {
			switch {
			case j >= len(x) || (i < len(out) && out[i] < x[j]):
				m = append(m, out[i])
				i++
			case i >= len(out) || out[i] > x[j]:
				m = append(m, x[j])
				j++
			default:
				m = append(m, out[i])
				i++
				j++
			}
		}
		out = m
	}
	return out
}

func (k *Bank) mk(op Op, w uint8, a, b, c *Term, v uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), v}
	if t, ok := k.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, v: v, id: k.next, size: 1}
	k.next++
	if a != nil {
		t.size += a.size
		t.vars = a.vars
		if b != nil {
			t.size += b.size
			if c != nil {
				t.size += c.size
				t.vars = mergeVars(a.vars, b.vars, c.vars)
			} else {
				t.vars = mergeVars(a.vars, b.vars)
			}
		}
	}
	if t.size < 0 || t.size > 1<<28 {
		t.size = 1 << 28
	}
	k.tab[key] = t
	return t
}

func (k *Bank) Var(name string, w uint8) *Term {
	if t, ok := k.vars[name]; ok {
		if t.w != w {
			panic("variable redeclared at another width: " + name)
		}
		return t
	}
	t := k.mk(OVar, w, nil, nil, nil, uint64(len(k.byID)))
	t.name = name
	t.vars = []int32{int32(t.v)}
	k.vars[name] = t
	k.byID = append(k.byID, t)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v>>(w-1)&1 == 1 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func (k *Bank) Const(v uint64, w uint8) *Term { return k.mk(OConst, w, nil, nil, nil, v&mask(w)) }
func (k *Bank) Bool(b bool) *Term {
	if b {
		return k.True
	}
	return k.False
}

func (t *Term) isConst() bool { return t.op == OConst }

func (k *Bank) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return k.Bool(a.v == 0)
	case OBNot:
		return a.a
	}
	return k.mk(OBNot, 0, a, nil, nil, 0)
}

func (k *Bank) And(a, b *Term) *Term {
	if a == k.False || b == k.False {
		return k.False
	}
	if a == k.True || a == b {
		return b
	}
	if b == k.True {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return k.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return k.mk(OBAnd, 0, a, b, nil, 0)
}

func (k *Bank) Or(a, b *Term) *Term {
	if a == k.True || b == k.True {
		return k.True
	}
	if a == k.False || a == b {
		return b
	}
	if b == k.False {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return k.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return k.mk(OBOr, 0, a, b, nil, 0)
}

func (k *Bank) Ite(c, a, b *Term) *Term {
	if a == b || c == k.True {
		return a
	}
	if c == k.False {
		return b
	}
	if a.w == 0 {
		switch {
		case a == k.True:
			return k.Or(c, b)
		case a == k.False:
			return k.And(k.Not(c), b)
		case b == k.True:
			return k.Or(k.Not(c), a)
		case b == k.False:
			return k.And(c, a)
		}
	}
	if c.op == OBNot {
		return k.Ite(c.a, b, a)
	}
	// ite(c, x, ite(c, y, z)) = ite(c, x, z)
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if a == b {
		return a
	}
	return k.mk(OIte, a.w, c, a, b, 0)
}

func (k *Bank) Eq(a, b *Term) *Term {
	if a == b {
		return k.True
	}
	if a.isConst() && b.isConst() {
		return k.Bool(a.v == b.v)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b == k.True {
			return a
		}
		if b == k.False {
			return k.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.v&^mask(a.a.w) != 0 {
				return k.False
			}
			return k.Eq(a.a, k.Const(b.v, a.a.w))
		case OSext:
			if uint64(sext(b.v&mask(a.a.w), a.a.w))&mask(a.w) != b.v {
				return k.False
			}
			return k.Eq(a.a, k.Const(b.v, a.a.w))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				return k.Ite(a.a, k.Bool(a.b.v == b.v), k.Bool(a.c.v == b.v))
			}
			if a.b.isConst() && a.b.v != b.v {
				return k.And(k.Not(a.a), k.Eq(a.c, b))
			}
			if a.c.isConst() && a.c.v != b.v {
				return k.And(a.a, k.Eq(a.b, b))
			}
		case OAdd:
			if a.b.isConst() {
				return k.Eq(a.a, k.Const(b.v-a.b.v, a.w))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return k.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return k.mk(OEq, 0, a, b, nil, 0)
}

func evalOp(op Op, w uint8, x, y uint64, aw uint8) uint64 {
	m := mask(w)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := sext(x, aw), sext(y, aw)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := sext(x, aw), sext(y, aw)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case OBvnot:
		return ^x & m
	case OBvneg:
		return (-x) & m
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, aw) < sext(y, aw))
	case OSle:
		return b2u(sext(x, aw) <= sext(y, aw))
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBNot:
		return x ^ 1
	}
	panic("evalOp")
}

// Bin builds a binary bit-vector operation (not comparison).
func (k *Bank) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch in %s: %d %d", opName[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return k.Const(evalOp(op, a.w, a.v, b.v, a.w), a.w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OAdd:
			if b.v == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return k.Bin(OAdd, a.a, k.Const(a.b.v+b.v, a.w))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return k.Ite(a.a, k.Const(a.b.v+b.v, a.w), k.Const(a.c.v+b.v, a.w))
			}
		case OSub:
			return k.Bin(OAdd, a, k.Const(-b.v, a.w))
		case OMul:
			if b.v == 0 {
				return b
			}
			if b.v == 1 {
				return a
			}
		case OAnd:
			if b.v == 0 {
				return b
			}
			if b.v == mask(a.w) {
				return a
			}
			if a.op == OZext && b.v&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		case OOr, OXor:
			if b.v == 0 {
				return a
			}
		case OShl, OLshr, OAshr:
			if b.v == 0 {
				return a
			}
			if op != OAshr && b.v >= uint64(a.w) {
				return k.Const(0, a.w)
			}
			if op == OLshr && a.op == OZext && b.v >= uint64(a.a.w) {
				return k.Const(0, a.w)
			}
		case OUdiv:
			if b.v == 1 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OXor:
			return k.Const(0, a.w)
		case OAnd, OOr:
			return a
		}
	}
	return k.mk(op, a.w, a, b, nil, 0)
}

func (k *Bank) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("width mismatch in comparison")
	}
	if op == OEq {
		return k.Eq(a, b)
	}
	if a.isConst() && b.isConst() {
		return k.Bool(evalOp(op, 0, a.v, b.v, a.w) == 1)
	}
	if a == b {
		return k.Bool(op == OUle || op == OSle)
	}
	// comparisons of zero-extended values against constants: narrow
	if a.op == OZext && b.isConst() {
		n := a.a.w
		bs := sext(b.v, b.w)
		switch op {
		case OUlt, OUle:
			if b.v > mask(n) {
				return k.True
			}
			return k.Cmp(op, a.a, k.Const(b.v, n))
		case OSlt, OSle:
			if bs < 0 {
				return k.False
			}
			if b.v > mask(n) {
				return k.True
			}
			uop := OUlt
			if op == OSle {
				uop = OUle
			}
			return k.Cmp(uop, a.a, k.Const(b.v, n))
		}
	}
	if b.op == OZext && a.isConst() {
		n := b.a.w
		as := sext(a.v, a.w)
		switch op {
		case OUlt, OUle:
			if a.v > mask(n) {
				return k.False
			}
			return k.Cmp(op, k.Const(a.v, n), b.a)
		case OSlt, OSle:
			if as < 0 {
				return k.True
			}
			if a.v > mask(n) {
				return k.False
			}
			uop := OUlt
			if op == OSle {
				uop = OUle
			}
			return k.Cmp(uop, k.Const(a.v, n), b.a)
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		return k.Cmp(uop, a.a, b.a)
	}
	switch op {
	case OUlt:
		if b.isConst() && b.v == 0 {
			return k.False
		}
	case OUle:
		if (b.isConst() && b.v == mask(b.w)) || (a.isConst() && a.v == 0) {
			return k.True
		}
	}
	return k.mk(op, 0, a, b, nil, 0)
}

func (k *Bank) BvNot(a *Term) *Term {
	if a.isConst() {
		return k.Const(^a.v, a.w)
	}
	return k.mk(OBvnot, a.w, a, nil, nil, 0)
}

func (k *Bank) BvNeg(a *Term) *Term {
	if a.isConst() {
		return k.Const(-a.v, a.w)
	}
	return k.mk(OBvneg, a.w, a, nil, nil, 0)
}

func (k *Bank) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return k.Const(a.v>>lo, w)
	}
	if lo == 0 {
		switch a.op {
		case OZext, OSext:
			if a.a.w >= w {
				return k.Extract(a.a, 0, w)
			}
			if a.op == OZext {
				return k.Zext(a.a, w)
			}
			return k.Sext(a.a, w)
		case OAdd, OSub, OAnd, OOr, OXor, OMul:
			return k.Bin(a.op, k.Extract(a.a, 0, w), k.Extract(a.b, 0, w))
		case OIte:
			return k.Ite(a.a, k.Extract(a.b, 0, w), k.Extract(a.c, 0, w))
		}
	}
	return k.mk(OExtract, w, a, nil, nil, uint64(lo))
}

func (k *Bank) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return k.Const(a.v, w)
	}
	if a.op == OZext {
		return k.Zext(a.a, w)
	}
	if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return k.Ite(a.a, k.Zext(a.b, w), k.Zext(a.c, w))
	}
	return k.mk(OZext, w, a, nil, nil, 0)
}

func (k *Bank) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return k.Const(uint64(sext(a.v, a.w)), w)
	}
	if a.op == OZext {
		return k.Zext(a.a, w)
	}
	if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return k.Ite(a.a, k.Sext(a.b, w), k.Sext(a.c, w))
	}
	return k.mk(OSext, w, a, nil, nil, 0)
}

// eval evaluates t under a model (values by variable id; missing = 0).
type evalCtx struct {
	val  func(id int32) uint64
	memo map[int32]uint64
}

func (e *evalCtx) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.v
	case OVar:
		return e.val(int32(t.v)) & maskB(t.w)
	}
	big := t.size > 16
	if big {
		if e.memo == nil {
			e.memo = map[int32]uint64{}
		}
		if v, ok := e.memo[t.id]; ok {
			return v
		}
	}
	var r uint64
	switch t.op {
	case OIte:
		if e.eval(t.a) != 0 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OExtract:
		r = e.eval(t.a) >> t.v & mask(t.w)
	case OZext:
		r = e.eval(t.a)
	case OSext:
		r = uint64(sext(e.eval(t.a), t.a.w)) & mask(t.w)
	case OBNot, OBvnot, OBvneg:
		r = evalOp(t.op, t.w, e.eval(t.a), 0, t.a.w)
	case OBAnd:
		r = e.eval(t.a)
		if r != 0 {
			r = e.eval(t.b)
		}
	case OBOr:
		r = e.eval(t.a)
		if r == 0 {
			r = e.eval(t.b)
		}
	default:
		r = evalOp(t.op, t.w, e.eval(t.a), e.eval(t.b), t.a.w)
	}
	if big {
		e.memo[t.id] = r
	}
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// truthTable returns the set of values of the single (<= 8 bit) variable for which the boolean t holds.
func (k *Bank) truthTable(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	v := k.byID[t.vars[0]]
	n := 1 << v.w
	if v.w == 0 {
		n = 2
	}
	var tt [4]uint64
	if t.op == OBNot {
		in := k.truthTable(t.a)
		full := fullDom(v.w)
		for i := range tt {
			tt[i] = full[i] &^ in[i]
		}
	} else if (t.op == OBAnd || t.op == OBOr) && len(t.a.vars) == 1 && len(t.b.vars) == 1 {
		x, y := k.truthTable(t.a), k.truthTable(t.b)
		for i := range tt {
			if t.op == OBAnd {
				tt[i] = x[i] & y[i]
			} else {
				tt[i] = x[i] | y[i]
			}
		}
	} else {
		var cur uint64
		for i := 0; i < n; i++ {
			cur = uint64(i)
			e := evalCtx{val: func(int32) uint64 { return cur }}
			if e.eval(t) != 0 {
				tt[i>>6] |= 1 << (i & 63)
			}
		}
	}
	t.tt = &tt
	return t.tt
}

func fullDom(w uint8) [4]uint64 {
	n := 1 << w
	if w == 0 {
		n = 2
	}
	var d [4]uint64
	for i := 0; i < n; i += 64 {
		if n-i >= 64 {
			d[i>>6] = ^uint64(0)
		} else {
			d[i>>6] = 1<<(n-i) - 1
		}
	}
	return d
}

func domCount(d *[4]uint64) int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}

func domFirst(d *[4]uint64) (uint64, bool) {
	for i := range d {
		if d[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(d[i])), true
		}
	}
	return 0, false
}

func domHas(d *[4]uint64, v uint64) bool { return v < 256 && d[v>>6]>>(v&63)&1 == 1 }

// SMT-LIB printing -----------------------------------------------------------------------------

func constStr(t *Term) string {
	if t.w == 0 {
		if t.v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.v, t.w)
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref prints t, using the name of a definition when one exists.
func (t *Term) ref(sb *strings.Builder) {
	switch {
	case t.op == OConst:
		sb.WriteString(constStr(t))
	case t.op == OVar:
		sb.WriteString(smtName(t))
	case t.defined:
		fmt.Fprintf(sb, "t%d", t.id)
	default:
		t.body(sb)
	}
}

func smtName(t *Term) string { return fmt.Sprintf("|%s|", t.name) }

func (t *Term) body(sb *strings.Builder) {
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) ", int(t.v)+int(t.w)-1, t.v)
		t.a.ref(sb)
		sb.WriteString(")")
		return
	case OZext, OSext:
		n := "zero_extend"
		if t.op == OSext {
			n = "sign_extend"
		}
		fmt.Fprintf(sb, "((_ %s %d) ", n, t.w-t.a.w)
		t.a.ref(sb)
		sb.WriteString(")")
		return
	}
	sb.WriteString("(")
	sb.WriteString(opName[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			x.ref(sb)
		}
	}
	sb.WriteString(")")
}
