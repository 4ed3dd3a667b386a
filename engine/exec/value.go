// Package exec executes Go SSA and LLVM IR symbolically, one path at a time.
package exec

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Value is one of: *smt.Term (booleans, integers, floats), Str, GPtr, CPtr,
// SymPtr, Struct, Array, Slice, *MapObj, Iface, *Closure, Tuple, *ChanObj,
// *mapIter, *strIter, RVal (reflect.Value), RType (reflect.Type), Undef, Opaque.
type Value = any

type Str struct {
	S string
	B []*smt.Term // symbolic bytes when not nil
}

func (s Str) Len() int {
	if s.B != nil {
		return len(s.B)
	}
	return len(s.S)
}

// At returns byte i.
func (s Str) At(i int) *smt.Term {
	if s.B != nil {
		return s.B[i]
	}
	return smt.BVc(8, uint64(s.S[i]))
}

func (s Str) Slice(i, j int) Str {
	if s.B != nil {
		return mkStr(s.B[i:j])
	}
	return Str{S: s.S[i:j]}
}

func (s Str) Bytes() []*smt.Term {
	if s.B != nil {
		return s.B
	}
	r := make([]*smt.Term, len(s.S))
	for i := range r {
		r[i] = smt.BVc(8, uint64(s.S[i]))
	}
	return r
}

// mkStr makes a string value, concrete when every byte is.
func mkStr(b []*smt.Term) Str {
	for _, t := range b {
		if !t.IsConst() {
			return Str{B: b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.K)
	}
	return Str{S: string(r)}
}

func catStr(a, b Str) Str {
	if a.B == nil && b.B == nil {
		return Str{S: a.S + b.S}
	}
	x := append(append([]*smt.Term{}, a.Bytes()...), b.Bytes()...)
	return mkStr(x)
}

// GPtr is a pointer to a Go variable.
type GPtr struct{ P *Value }

// SymPtr points to an element of arr chosen by a symbolic index (loads only).
type SymPtr struct {
	Arr []Value
	Idx *smt.Term
}

// CPtr is a pointer into native memory; Obj nil is the null pointer (or an
// integer cast to a pointer).
type CPtr struct {
	Obj *CObj
	Off int64
	Sym *smt.Term // symbolic offset (64 bit) added to Off, or nil
}

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
	Bi  *ssa.Builtin
	Nat func(x *Path, args []Value) Value
}

type Undef struct{}

type mapEnt struct {
	k, v Value
	del  bool
}
type MapObj struct {
	ents []*mapEnt
	idx  map[string]*mapEnt // concrete keys
	sym  bool               // has symbolic keys
	n    int
}

type ChanObj struct {
	buf []Value
	cap int
}

type mapIter struct {
	m *MapObj
	i int
}
type strIter struct {
	s Str
	i int
}

// RType is a reflect.Type, RVal a reflect.Value.
type RType struct{ T types.Type }
type RVal struct {
	T  types.Type
	V  Value
	P  *Value // addressable location, when known
	RO bool   // got through an unexported field
}

func isNilPtr(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case GPtr:
		return v.P == nil
	case CPtr:
		return v.Obj == nil && v.Off == 0 && v.Sym == nil
	}
	return false
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	}
	return v
}

func storeInto(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(v) {
			if len(v) > 0 && &old[0] == &v[0] {
				return
			}
			tmp := copyVal(v).(Struct)
			for i := range tmp {
				storeInto(&old[i], tmp[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(v) {
			if len(v) > 0 && &old[0] == &v[0] {
				return
			}
			tmp := copyVal(v).(Array)
			for i := range tmp {
				storeInto(&old[i], tmp[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// width and signedness of an integer type.
func intInfo(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func scalarSort(t types.Type) (smt.Sort, bool) {
	b := basicOf(t)
	if b == nil {
		return smt.Sort{}, false
	}
	if w, _, ok := intInfo(b); ok {
		return smt.BV(w), true
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return smt.Bool, true
	case types.Float64, types.UntypedFloat:
		return smt.F64, true
	case types.Float32:
		return smt.F32, true
	}
	return smt.Sort{}, false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if s, ok := scalarSort(u); ok {
			return smt.Const(s, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.UnsafePointer:
			return GPtr{}
		case types.Complex128, types.Complex64:
			return Tuple{smt.Fc(0), smt.Fc(0)}
		case types.UntypedNil:
			return GPtr{}
		}
	case *types.Pointer:
		return GPtr{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			a[0] = z
			for i := 1; i < len(a); i++ {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of " + t.String()))
}

// typeName renders a dynamic type the way %T does.
func typeName(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	s = strings.ReplaceAll(s, "[]any", "[]interface {}")
	if s == "any" {
		s = "interface {}"
	}
	s = strings.ReplaceAll(s, "]any", "]interface {}")
	return s
}

func describe(v Value) string {
	switch v := v.(type) {
	case *smt.Term:
		if v.IsConst() {
			return fmt.Sprintf("%d", v.Int())
		}
		return "sym"
	case Str:
		if v.B == nil {
			return fmt.Sprintf("%q", v.S)
		}
		return fmt.Sprintf("sym-string(%d)", len(v.B))
	}
	return fmt.Sprintf("%T", v)
}
