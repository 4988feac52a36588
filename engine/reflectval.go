package main

import (
	"go/types"
	"strings"
)

// RVal is the dynamic representation of a reflect.Value; it sits in the first cell of the struct.
type RVal struct {
	t    types.Type
	v    Value
	addr Ptr
	ro   bool
}

func (m *M) mkRV(t types.Type, v Value, addr Ptr, ro bool) Value {
	return Struct{&RVal{t, v, addr, ro}, Ptr(nil), uint64(0)}
}

func rvOf(v Value) *RVal {
	s, ok := v.(Struct)
	if !ok || len(s) == 0 {
		panic(unsup("reflect.Value as %T", v))
	}
	r, _ := s[0].(*RVal)
	return r
}

func (r *RVal) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func reflectIntrinsic(name string) intrinsic {
	const p = "(reflect.Value)."
	if name == "reflect.ValueOf" {
		return simple(func(m *M, a []Value) Value {
			i := a[0].(Iface)
			if i.t == nil {
				return Struct{Ptr(nil), Ptr(nil), uint64(0)}
			}
			return m.mkRV(i.t.t, i.v, nil, false)
		})
	}
	if name == "reflect.Indirect" {
		return simple(func(m *M, a []Value) Value {
			if r := rvOf(a[0]); r != nil {
				if _, ok := r.t.Underlying().(*types.Pointer); ok {
					return m.rvElem(r)
				}
			}
			return a[0]
		})
	}
	switch name {
	case "reflect.New":
		return simple(func(m *M, a []Value) Value {
			t := a[0].(Iface).v.(*RType).ti.t
			return m.mkRV(types.NewPointer(t), newCell(t), nil, false)
		})
	case "reflect.Zero":
		return simple(func(m *M, a []Value) Value {
			t := a[0].(Iface).v.(*RType).ti.t
			return m.mkRV(t, zero(t), nil, false)
		})
	case "reflect.MakeMap", "reflect.MakeMapWithSize":
		return simple(func(m *M, a []Value) Value {
			t := a[0].(Iface).v.(*RType).ti.t
			return m.mkRV(t, m.newMap(t.Underlying().(*types.Map)), nil, false)
		})
	case "reflect.MakeSlice":
		return simple(func(m *M, a []Value) Value {
			t := a[0].(Iface).v.(*RType).ti.t
			s := make(Slice, m.toInt(a[1], "reflect length"))
			for i := range s {
				s[i] = zero(t.Underlying().(*types.Slice).Elem())
			}
			return m.mkRV(t, s, nil, false)
		})
	case "reflect.Append":
		return simple(func(m *M, a []Value) Value {
			r := rvOf(a[0])
			old, _ := r.get().(Slice)
			et := r.t.Underlying().(*types.Slice).Elem()
			s := append(make(Slice, 0, len(old)+4), old...)
			for _, x := range a[1].(Slice) {
				s = append(s, m.rvAs(rvOf(x), et))
			}
			return m.mkRV(r.t, s, nil, false)
		})
	case "reflect.SliceOf":
		return simple(func(m *M, a []Value) Value {
			return m.rtypeIface(types.NewSlice(a[0].(Iface).v.(*RType).ti.t))
		})
	case "reflect.PointerTo", "reflect.PtrTo":
		return simple(func(m *M, a []Value) Value {
			return m.rtypeIface(types.NewPointer(a[0].(Iface).v.(*RType).ti.t))
		})
	}
	if !strings.HasPrefix(name, p) {
		return nil
	}
	meth := strings.TrimPrefix(name, p)
	return simple(func(m *M, a []Value) Value { return m.rvMethod(meth, rvOf(a[0]), a[1:]) })
}

func newCell(t types.Type) Ptr {
	v := zero(t)
	return &v
}

// rvAs is the value of r for a variable of type t.
func (m *M) rvAs(r *RVal, t types.Type) Value {
	v := r.get()
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, is := r.t.Underlying().(*types.Interface); !is {
			v = Iface{m.canon(r.t), v}
		}
	}
	if needCopy(r.t) {
		v = copyVal(v)
	}
	return v
}

func (m *M) rvElem(r *RVal) Value {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p, _ := r.get().(Ptr)
		if p == nil {
			return Struct{Ptr(nil), Ptr(nil), uint64(0)}
		}
		return m.mkRV(u.Elem(), nil, p, r.ro)
	case *types.Interface:
		i, _ := r.get().(Iface)
		if i.t == nil {
			return Struct{Ptr(nil), Ptr(nil), uint64(0)}
		}
		return m.mkRV(i.t.t, i.v, nil, r.ro)
	}
	panic(unsup("reflect.Value.Elem of %s", r.t))
}

func (m *M) rvMethod(meth string, r *RVal, args []Value) Value {
	switch meth {
	case "IsValid":
		return r != nil
	case "Kind":
		if r == nil {
			return uint64(0)
		}
		return uint64(kindOf(r.t))
	}
	if r == nil {
		m.throwRT("reflect: call of method on zero Value")
	}
	switch meth {
	case "CanInterface":
		return !r.ro
	case "CanAddr":
		return r.addr != nil
	case "CanSet":
		return r.addr != nil && !r.ro
	case "Type":
		return m.rtypeIface(r.t)
	case "Interface":
		v := r.get()
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return v
		}
		if needCopy(r.t) {
			v = copyVal(v)
		}
		return Iface{m.canon(r.t), v}
	case "Bool", "Float", "Bytes":
		return r.get()
	case "String":
		if isStringT(r.t) {
			return r.get()
		}
		return "<" + types.TypeString(r.t, nil) + " Value>"
	case "Int":
		w, _, _ := widthOf(r.t)
		return m.norm(m.bank.Sext(m.intTerm(r.get(), w), 64))
	case "Uint":
		w, _, _ := widthOf(r.t)
		return m.norm(m.bank.Zext(m.intTerm(r.get(), w), 64))
	case "Len":
		switch v := r.get().(type) {
		case string, *SymStr:
			return uint64(strLen(v))
		case Slice:
			return uint64(len(v))
		case Array:
			return uint64(len(v))
		case *Map:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.n)
		case nil:
			return uint64(0)
		}
	case "IsNil":
		switch v := r.get().(type) {
		case Ptr:
			return v == nil
		case Slice:
			return v == nil
		case *Map:
			return v == nil
		case Iface:
			return v.t == nil
		case *Closure:
			return v == nil
		case *Chan:
			return v == nil
		}
	case "Index":
		i := m.toInt(args[0], "reflect index")
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := r.get().(Slice)
			if i < 0 || i >= len(s) {
				m.throwRT("reflect: slice index out of range")
			}
			return m.mkRV(u.Elem(), nil, &s[i], r.ro)
		case *types.Array:
			s := r.get().(Array)
			if i < 0 || i >= len(s) {
				m.throwRT("reflect: array index out of range")
			}
			return m.mkRV(u.Elem(), nil, &s[i], r.ro)
		}
	case "NumField":
		return uint64(r.t.Underlying().(*types.Struct).NumFields())
	case "Field":
		st := r.t.Underlying().(*types.Struct)
		i := m.toInt(args[0], "reflect field")
		s := r.get().(Struct)
		return m.mkRV(st.Field(i).Type(), nil, &s[i], r.ro || !st.Field(i).Exported())
	case "Elem":
		return m.rvElem(r)
	case "Addr":
		return m.mkRV(types.NewPointer(r.t), r.addr, nil, r.ro)
	case "Set":
		m.store(r.addr, m.rvAs(rvOf(args[0]), r.t), !needCopy(r.t), false)
		return nil
	case "SetZero":
		m.store(r.addr, zero(r.t), !needCopy(r.t), false)
		return nil
	case "SetBytes":
		m.store(r.addr, args[0], true, false)
		return nil
	case "MapIndex":
		mt := r.t.Underlying().(*types.Map)
		mp, _ := r.get().(*Map)
		if mp == nil {
			return Struct{Ptr(nil), Ptr(nil), uint64(0)}
		}
		v, ok := m.mapGet(mp, m.rvAs(rvOf(args[0]), mt.Key()))
		if !ok {
			return Struct{Ptr(nil), Ptr(nil), uint64(0)}
		}
		return m.mkRV(mt.Elem(), v, nil, r.ro)
	case "SetMapIndex":
		mt := r.t.Underlying().(*types.Map)
		mp, _ := r.get().(*Map)
		if mp == nil {
			m.throwRT("assignment to entry in nil map")
		}
		k := m.rvAs(rvOf(args[0]), mt.Key())
		if e := rvOf(args[1]); e != nil {
			m.mapSet(mp, k, m.rvAs(e, mt.Elem()))
		} else {
			m.mapDelete(mp, k)
		}
		return nil
	case "MapKeys":
		mt := r.t.Underlying().(*types.Map)
		out := Slice{}
		if mp, _ := r.get().(*Map); mp != nil {
			it := m.newMapIter(mp)
			for {
				k, _, ok := m.mapNext(it)
				if !ok {
					break
				}
				out = append(out, m.mkRV(mt.Key(), k, nil, r.ro))
			}
		}
		return out
	case "Convert":
		t := args[0].(Iface).v.(*RType).ti.t
		if !types.Identical(t.Underlying(), r.t.Underlying()) {
			panic(unsup("reflect conversion of %s to %s", r.t, t))
		}
		return m.mkRV(t, r.get(), nil, r.ro)
	case "OverflowInt", "OverflowUint":
		w, signed, _ := widthOf(r.t)
		x := m.intTerm(args[0], 64)
		cut := m.bank.Extract(x, 0, w)
		if signed {
			cut = m.bank.Sext(cut, 64)
		} else {
			cut = m.bank.Zext(cut, 64)
		}
		return m.norm(m.bank.Not(m.bank.Eq(cut, x)))
	case "NumMethod":
		if it, ok := r.t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		n := 0
		ms := m.eng.prog.MethodSets.MethodSet(r.t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return uint64(n)
	case "SetString", "SetBool", "SetFloat":
		m.store(r.addr, args[0], true, false)
		return nil
	case "SetInt", "SetUint":
		w, _, _ := widthOf(r.t)
		m.store(r.addr, m.norm(m.bank.Extract(m.intTerm(args[0], 64), 0, w)), true, false)
		return nil
	case "IsZero":
		t := m.eqTerm(r.get(), zero(r.t), r.t)
		return m.norm(t)
	case "Pointer", "UnsafePointer", "UnsafeAddr":
		return uint64(0xc000000000)
	}
	panic(unsup("reflect.Value.%s of %s", meth, r.t))
}
