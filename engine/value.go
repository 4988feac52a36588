package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: uint64 (integers, masked to their width), bool, *Term (symbolic integer or boolean),
// float64, complex128, string, *SymStr, Ptr, Slice, *Map, *Chan, *Closure, Iface, Struct, Array, Tuple.
type Value = any

// Ptr is a pointer to a cell.  Structs and arrays are stored in place inside their cell.
type Ptr = *Value

type Slice []Value
type Struct []Value
type Array []Value
type Tuple []Value

// SymStr is a string of known length with at least one symbolic byte.
type SymStr struct{ b []Value }

// SymAddr is the address of base[idx] with a symbolic index.
type SymAddr struct {
	base []Value
	idx  *Term // 64 bits, known to be in range
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(m *M, args []Value) Value
}

type TI struct {
	t       types.Type
	methods map[string]*ssa.Function
	id      int
	name    string
}

type Iface struct {
	t *TI
	v Value
}

// OpaqueFloat stands for a float computed from symbolic input by an uninterpreted function.
type OpaqueFloat struct {
	fn  string
	arg Value
}

func bytesOf(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("bytesOf %T", v))
}

// mkStr makes a string value of bytes (which must not be modified afterwards).
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b}
		}
	}
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(x.(uint64))
	}
	return string(out)
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func subStr(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		if lo == 0 && hi == len(s.b) {
			return s
		}
		return mkStr(s.b[lo:hi:hi])
	}
	panic("subStr")
}

func concatStr(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	xb, yb := bytesOf(a), bytesOf(b)
	out := make([]Value, 0, len(xb)+len(yb))
	out = append(append(out, xb...), yb...)
	return mkStr(out)
}

// widthOf returns the bit width and signedness of an integer type.
func widthOf(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(t.Len())
		a := make(Array, n)
		if n > 0 {
			z := zero(t.Elem())
			if needCopy(t.Elem()) {
				for i := range a {
					a[i] = copyVal(z)
				}
			} else {
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		if t.Len() == 0 {
			return nil
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.TypeParam:
		panic(unsupported{"zero of type parameter"})
	}
	panic(unsupported{fmt.Sprintf("zero value of %s", t)})
}

func needCopy(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		out := make(Struct, len(x))
		for i, e := range x {
			out[i] = copyVal(e)
		}
		return out
	case Array:
		out := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				out[i] = copyVal(e)
			default:
				out[i] = e
			}
		}
		return out
	}
	return v
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, a ...any) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

// describe prints a value for diagnostics.
func describe(v Value, depth int) string {
	if depth > 4 {
		return "..."
	}
	switch x := v.(type) {
	case nil:
		return "<none>"
	case uint64:
		return fmt.Sprint(int64(x))
	case *Term:
		return "?" + fmt.Sprint(x.id)
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		var sb strings.Builder
		for _, b := range x.b {
			if c, ok := b.(uint64); ok {
				sb.WriteByte(byte(c))
			} else {
				sb.WriteByte('?')
			}
		}
		return fmt.Sprintf("%q?", sb.String())
	case Ptr:
		if x == nil {
			return "nil"
		}
		return "&" + describe(*x, depth+1)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.t.String() + "(" + describe(x.v, depth+1) + ")"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, describe(e, depth+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Slice:
		var p []string
		for i, e := range x {
			if i > 8 {
				p = append(p, "...")
				break
			}
			p = append(p, describe(e, depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("%T", v)
}
