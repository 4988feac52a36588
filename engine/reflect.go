package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RType is the dynamic representation of reflect.Type / reflectlite.Type values.
type RType struct {
	ti *TI
}

func (m *M) rtype(t types.Type) *RType {
	ti := m.canon(t)
	if r, ok := m.rtypes[ti]; ok {
		return r
	}
	r := &RType{ti}
	m.rtypes[ti] = r
	return r
}

func (m *M) typeOf(v Value) Value {
	i := v.(Iface)
	if i.t == nil {
		return Iface{}
	}
	return m.rtypeIface(i.t.t)
}

func (m *M) rtypeIface(t types.Type) Value {
	return Iface{m.canon(m.eng.rtypeType), m.rtype(t)}
}

func (r *RType) callMethod(m *M, name string, args []Value) Value {
	t := r.ti.t
	switch name {
	case "Comparable":
		return types.Comparable(t)
	case "String":
		s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
		return strings.ReplaceAll(s, "interface{}", "interface {}")
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Kind":
		return uint64(kindOf(t))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.rtypeIface(u.Elem())
		case *types.Slice:
			return m.rtypeIface(u.Elem())
		case *types.Array:
			return m.rtypeIface(u.Elem())
		case *types.Map:
			return m.rtypeIface(u.Elem())
		case *types.Chan:
			return m.rtypeIface(u.Elem())
		}
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return m.rtypeIface(u.Key())
		}
	case "Implements":
		o := args[0].(Iface).v.(*RType)
		return types.Implements(t, o.ti.t.Underlying().(*types.Interface))
	case "AssignableTo":
		o := args[0].(Iface).v.(*RType)
		return types.AssignableTo(t, o.ti.t)
	case "Field":
		st := t.Underlying().(*types.Struct)
		i := m.toInt(args[0], "reflect field")
		f := st.Field(i)
		pkg := ""
		if !f.Exported() && f.Pkg() != nil {
			pkg = f.Pkg().Path()
		}
		return Struct{f.Name(), pkg, m.rtypeIface(f.Type()), st.Tag(i), uint64(0), Slice{uint64(i)}, f.Embedded()}
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		n := 0
		ms := m.eng.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return uint64(n)
	case "Bits":
		w, _, _ := widthOf(t)
		return uint64(w)
	case "ConvertibleTo":
		o := args[0].(Iface).v.(*RType)
		return types.ConvertibleTo(t, o.ti.t)
	case "NumField":
		return uint64(t.Underlying().(*types.Struct).NumFields())
	}
	panic(unsup("reflect.Type.%s", name))
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (m *M) errorsAs(err, target Value) Value {
	e := err.(Iface)
	t := target.(Iface)
	if e.t == nil {
		return false
	}
	pt, ok := t.t.t.Underlying().(*types.Pointer)
	if !ok {
		m.throwRT("errors: target must be a non-nil pointer")
	}
	for i := 0; i < 20 && e.t != nil; i++ {
		want := pt.Elem()
		if it, ok := want.Underlying().(*types.Interface); ok {
			if types.Implements(e.t.t, it) {
				m.store(t.v, e, true, false)
				return true
			}
		} else if e.t == m.canon(want) {
			m.store(t.v, e.v, !needCopy(want), false)
			return true
		}
		fn := m.findMethod(e.t.t, "Unwrap")
		if fn == nil {
			return false
		}
		r, ok := m.callSync(m.fnClosure(fn), []Value{e.v}).(Iface)
		if !ok {
			panic(unsup("errors.As over a multi-error"))
		}
		e = r
	}
	return false
}

func (m *M) findMethod(t types.Type, name string) *ssa.Function {
	ms := m.eng.prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(nil, name); sel != nil {
		return m.eng.prog.MethodValue(sel)
	}
	return nil
}
