package main

import "math/bits"

// Interval analysis: a cheap over-approximation of the values of a term on the current path, used
// to decide branches without asking the solver.

type rangeVal struct {
	dom    *[4]uint64
	lo, hi uint64
}

func (m *M) rangeOf(t *Term) (lo, hi uint64) {
	if t.isConst() {
		return t.v, t.v
	}
	full := mask(t.w)
	if len(t.vars) == 1 && m.bank.byID[t.vars[0]].w <= 8 && t.size <= 64 {
		id := t.vars[0]
		m.useVar(m.bank.byID[id])
		d := m.p.dom[id]
		if r, ok := m.p.ranges[t]; ok && r.dom == d {
			return r.lo, r.hi
		}
		lo, hi = full, 0
		any := false
		n := uint64(1) << m.bank.byID[id].w
		if m.bank.byID[id].w == 0 {
			n = 2
		}
		var cur uint64
		for cur = 0; cur < n; cur++ {
			if !domHas(d, cur) {
				continue
			}
			e := evalCtx{val: func(int32) uint64 { return cur }}
			v := e.eval(t)
			any = true
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
		}
		if !any {
			lo, hi = 0, full
		}
		if m.p.ranges == nil {
			m.p.ranges = map[*Term]rangeVal{}
		}
		m.p.ranges[t] = rangeVal{d, lo, hi}
		return lo, hi
	}
	switch t.op {
	case OZext:
		return m.rangeOf(t.a)
	case OAnd:
		_, ha := m.rangeOf(t.a)
		_, hb := m.rangeOf(t.b)
		if hb < ha {
			ha = hb
		}
		return 0, ha
	case OOr:
		la, ha := m.rangeOf(t.a)
		lb, hb := m.rangeOf(t.b)
		if lb > la {
			la = lb
		}
		h := uint64(1)<<uint(bits.Len64(ha|hb)) - 1
		if bits.Len64(ha|hb) >= 64 {
			h = full
		}
		if s := ha + hb; s >= ha && s < h {
			h = s
		}
		return la, h & full
	case OAdd:
		la, ha := m.rangeOf(t.a)
		lb, hb := m.rangeOf(t.b)
		if t.w < 63 {
			switch {
			case ha+hb <= full:
				return la + lb, ha + hb
			case la+lb > full:
				return la + lb - full - 1, ha + hb - full - 1
			}
		} else if ha < 1<<62 && hb < 1<<62 && ha+hb <= full {
			return la + lb, ha + hb
		}
	case OShl:
		if t.b.isConst() && t.b.v < 64 {
			la, ha := m.rangeOf(t.a)
			if bits.Len64(ha)+int(t.b.v) <= int(t.w) {
				return la << t.b.v, ha << t.b.v
			}
		}
	case OLshr:
		if t.b.isConst() && t.b.v < 64 {
			la, ha := m.rangeOf(t.a)
			return la >> t.b.v, ha >> t.b.v
		}
	case OIte:
		la, ha := m.rangeOf(t.b)
		lb, hb := m.rangeOf(t.c)
		if lb < la {
			la = lb
		}
		if hb > ha {
			ha = hb
		}
		return la, ha
	case OExtract:
		if t.v == 0 {
			la, ha := m.rangeOf(t.a)
			if ha <= full {
				return la, ha
			}
		}
	}
	return 0, full
}

// tri evaluates a condition over ranges: 0 false, 1 true, 2 unknown.
func (m *M) tri(t *Term) int {
	switch t.op {
	case OBNot:
		switch m.tri(t.a) {
		case 0:
			return 1
		case 1:
			return 0
		}
		return 2
	case OBAnd:
		a := m.tri(t.a)
		if a == 0 {
			return 0
		}
		b := m.tri(t.b)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
		return 2
	case OBOr:
		a := m.tri(t.a)
		if a == 1 {
			return 1
		}
		b := m.tri(t.b)
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
		return 2
	case OEq, OUlt, OUle, OSlt, OSle:
		if t.a.w == 0 {
			break
		}
		la, ha := m.rangeOf(t.a)
		lb, hb := m.rangeOf(t.b)
		op := t.op
		if op == OSlt || op == OSle {
			sign := uint64(1) << (t.a.w - 1)
			if ha >= sign || hb >= sign {
				return 2
			}
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		}
		switch op {
		case OEq:
			if ha < lb || hb < la {
				return 0
			}
			if la == ha && lb == hb && la == lb {
				return 1
			}
		case OUlt:
			if ha < lb {
				return 1
			}
			if la >= hb {
				return 0
			}
		case OUle:
			if ha <= lb {
				return 1
			}
			if la > hb {
				return 0
			}
		}
		return 2
	}
	if t.isConst() {
		return int(t.v)
	}
	if len(t.vars) == 1 && m.bank.byID[t.vars[0]].w <= 8 {
		tt := m.bank.truthTable(t)
		m.useVar(m.bank.byID[t.vars[0]])
		d := m.p.dom[t.vars[0]]
		in, out := false, false
		for i := range tt {
			in = in || d[i]&tt[i] != 0
			out = out || d[i]&^tt[i] != 0
		}
		switch {
		case in && !out:
			return 1
		case out && !in:
			return 0
		}
	}
	return 2
}
