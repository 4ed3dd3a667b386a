package exec

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Pointer
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func (x *Path) reflectPanic(m string) {
	panic(tpanic{v: Iface{types.Typ[types.String], Str{S: m}}, msg: m})
}

func reflectIntrinsics() map[string]intrinsic {
	f1 := func(f func(x *Path, a []Value) Value) intrinsic {
		return func(x *Path, _ *ssa.Function, a []Value) Value { return f(x, a) }
	}
	kind := func(k reflect.Kind) Value { return smt.BVc(64, uint64(k)) }
	rv := func(v Value) RVal {
		if r, ok := v.(RVal); ok {
			return r
		}
		return RVal{} // zero reflect.Value
	}
	typ := func(x *Path, t types.Type) Value {
		if t == nil {
			return Iface{}
		}
		p := x.e.prog.ImportedPackage("reflect")
		return Iface{T: types.NewPointer(p.Pkg.Scope().Lookup("rtype").Type()), V: RType{t}}
	}
	m := map[string]intrinsic{
		"reflect.TypeOf": f1(func(x *Path, a []Value) Value { return typ(x, a[0].(Iface).T) }),
		"reflect.ValueOf": f1(func(x *Path, a []Value) Value {
			f := a[0].(Iface)
			if f.T == nil {
				return RVal{}
			}
			return RVal{T: f.T, V: f.V}
		}),
		"reflect.DeepEqual": f1(func(x *Path, a []Value) Value {
			return smt.Bc(x.deepEq(a[0].(Iface), a[1].(Iface), 0))
		}),
		"(reflect.Value).Kind": f1(func(x *Path, a []Value) Value {
			r := rv(a[0])
			if r.T == nil {
				return kind(reflect.Invalid)
			}
			return kind(kindOf(r.T))
		}),
		"(reflect.Value).IsValid": f1(func(x *Path, a []Value) Value { return smt.Bc(rv(a[0]).T != nil) }),
		"(reflect.Value).Type":    f1(func(x *Path, a []Value) Value { return typ(x, rv(a[0]).T) }),
		"(reflect.Value).Comparable": f1(func(x *Path, a []Value) Value {
			r := rv(a[0])
			return smt.Bc(r.T == nil || x.dynComparable(Iface{r.T, r.V}))
		}),
		"(reflect.Value).IsNil": f1(func(x *Path, a []Value) Value {
			r := rv(a[0])
			switch kindOf(r.T) {
			case reflect.Pointer, reflect.UnsafePointer:
				return smt.Bc(isNilPtr(r.V))
			case reflect.Slice:
				return smt.Bc(r.V.(Slice) == nil)
			case reflect.Map:
				return smt.Bc(r.V.(*MapObj) == nil)
			case reflect.Interface:
				return smt.Bc(r.V.(Iface).T == nil)
			case reflect.Func:
				return smt.Bc(r.V.(*Closure) == nil)
			}
			x.reflectPanic("reflect: call of reflect.Value.IsNil on " + kindOf(r.T).String() + " Value")
			return nil
		}),
		"(reflect.Value).Len": f1(func(x *Path, a []Value) Value {
			r := rv(a[0])
			switch v := r.V.(type) {
			case Slice:
				return i64(len(v))
			case Array:
				return i64(len(v))
			case Str:
				return i64(v.Len())
			case *MapObj:
				if v == nil {
					return i64(0)
				}
				return i64(v.n)
			}
			x.reflectPanic("reflect: call of reflect.Value.Len on a bad Value")
			return nil
		}),
		"(reflect.Value).Index": f1(func(x *Path, a []Value) Value {
			r := rv(a[0])
			i := int(int64(x.concretize(term(a[1]))))
			switch v := r.V.(type) {
			case Slice:
				if i < 0 || i >= len(v) {
					x.reflectPanic("reflect: slice index out of range")
				}
				return RVal{T: r.T.Underlying().(*types.Slice).Elem(), V: v[i], P: &v[i]}
			case Array:
				if i < 0 || i >= len(v) {
					x.reflectPanic("reflect: array index out of range")
				}
				return RVal{T: r.T.Underlying().(*types.Array).Elem(), V: v[i], P: &v[i]}
			}
			panic(unsupported("reflect Index"))
		}),
		"(reflect.Value).Interface": f1(func(x *Path, a []Value) Value {
			r := rv(a[0])
			return asIface(r.T, copyVal(r.V))
		}),
		"(reflect.Value).Elem": f1(func(x *Path, a []Value) Value {
			r := rv(a[0])
			switch v := r.V.(type) {
			case GPtr:
				if v.P == nil {
					return RVal{}
				}
				return RVal{T: r.T.Underlying().(*types.Pointer).Elem(), V: *v.P, P: v.P}
			case Iface:
				if v.T == nil {
					return RVal{}
				}
				return RVal{T: v.T, V: v.V}
			}
			panic(unsupported("reflect Elem"))
		}),
		"reflect.Indirect": f1(func(x *Path, a []Value) Value {
			r := rv(a[0])
			if g, ok := r.V.(GPtr); ok {
				if g.P == nil {
					return RVal{}
				}
				return RVal{T: r.T.Underlying().(*types.Pointer).Elem(), V: *g.P, P: g.P}
			}
			return r
		}),
		"(reflect.Value).String": f1(func(x *Path, a []Value) Value {
			r := rv(a[0])
			if s, ok := r.V.(Str); ok {
				return s
			}
			return Str{S: "<" + typeName(r.T) + " Value>"}
		}),
		"(reflect.Value).Bool":  f1(func(x *Path, a []Value) Value { return rv(a[0]).V }),
		"(reflect.Value).Float": f1(func(x *Path, a []Value) Value { return x.c.FToF(term(rv(a[0]).V), smt.F64) }),
		"(reflect.Value).Int":   f1(func(x *Path, a []Value) Value { return x.c.Sext(term(rv(a[0]).V), 64) }),
		"(reflect.Value).Uint":  f1(func(x *Path, a []Value) Value { return x.c.Zext(term(rv(a[0]).V), 64) }),
		"(reflect.Kind).String": f1(func(x *Path, a []Value) Value {
			return Str{S: reflect.Kind(x.concretize(term(a[0]))).String()}
		}),
	}
	return m
}

func (x *Path) rtypeMethod(name string, args []Value) Value {
	t := args[0].(RType).T
	switch name {
	case "Kind":
		return smt.BVc(64, uint64(kindOf(t)))
	case "String":
		return Str{S: typeName(t)}
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return Str{S: n.Obj().Name()}
		}
		if b, ok := t.(*types.Basic); ok {
			return Str{S: b.Name()}
		}
		return Str{}
	case "Comparable":
		return smt.Bc(types.Comparable(t))
	}
	wrap := func(t types.Type) Value {
		p := x.e.prog.ImportedPackage("reflect")
		return Iface{T: types.NewPointer(p.Pkg.Scope().Lookup("rtype").Type()), V: RType{t}}
	}
	switch name {
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return wrap(u.Elem())
		case *types.Slice:
			return wrap(u.Elem())
		case *types.Array:
			return wrap(u.Elem())
		case *types.Map:
			return wrap(u.Elem())
		case *types.Chan:
			return wrap(u.Elem())
		}
	case "Implements", "ConvertibleTo", "AssignableTo":
		f := args[1].(Iface)
		if f.T == nil {
			break
		}
		o := f.V.(RType).T
		switch name {
		case "Implements":
			if it, ok := o.Underlying().(*types.Interface); ok {
				return smt.Bc(types.Implements(t, it))
			}
		case "ConvertibleTo":
			return smt.Bc(types.ConvertibleTo(t, o))
		default:
			return smt.Bc(types.AssignableTo(t, o))
		}
	}
	if v, ok := x.rtypeMore(name, t, args); ok {
		return v
	}
	panic(unsupported("reflect.Type." + name))
}

func (x *Path) dynComparable(f Iface) bool {
	if f.T == nil {
		return true
	}
	if !types.Comparable(f.T) {
		return false
	}
	switch v := f.V.(type) {
	case Struct:
		st := f.T.Underlying().(*types.Struct)
		for i := range v {
			if g, ok := v[i].(Iface); ok {
				if !x.dynComparable(g) {
					return false
				}
			} else if !x.dynComparable(Iface{st.Field(i).Type(), v[i]}) {
				return false
			}
		}
	case Array:
		et := f.T.Underlying().(*types.Array).Elem()
		for i := range v {
			if g, ok := v[i].(Iface); ok {
				if !x.dynComparable(g) {
					return false
				}
			} else if !x.dynComparable(Iface{et, v[i]}) {
				return false
			}
		}
	}
	return true
}

func (x *Path) deepEq(a, b Iface, d int) bool {
	if d > 50 {
		panic(unsupported("deep DeepEqual"))
	}
	if a.T == nil || b.T == nil {
		return a.T == nil && b.T == nil
	}
	if !types.Identical(a.T, b.T) {
		return false
	}
	switch u := a.T.Underlying().(type) {
	case *types.Slice:
		p, q := a.V.(Slice), b.V.(Slice)
		if (p == nil) != (q == nil) || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !x.deepEq(asIface(u.Elem(), p[i]), asIface(u.Elem(), q[i]), d+1) {
				return false
			}
		}
		return true
	case *types.Array:
		p, q := a.V.(Array), b.V.(Array)
		for i := range p {
			if !x.deepEq(asIface(u.Elem(), p[i]), asIface(u.Elem(), q[i]), d+1) {
				return false
			}
		}
		return true
	case *types.Struct:
		p, q := a.V.(Struct), b.V.(Struct)
		for i := range p {
			if !x.deepEq(asIface(u.Field(i).Type(), p[i]), asIface(u.Field(i).Type(), q[i]), d+1) {
				return false
			}
		}
		return true
	case *types.Map:
		p, q := a.V.(*MapObj), b.V.(*MapObj)
		if (p == nil) != (q == nil) {
			return false
		}
		if p == nil {
			return true
		}
		if p.n != q.n {
			return false
		}
		for _, e := range p.ents {
			if e.del {
				continue
			}
			w, ok := x.mapGet(q, e.k)
			if !ok || !x.deepEq(asIface(u.Elem(), e.v), asIface(u.Elem(), w), d+1) {
				return false
			}
		}
		return true
	case *types.Pointer:
		p, pok := a.V.(GPtr)
		q, qok := b.V.(GPtr)
		if pok && qok {
			if p.P == q.P {
				return true
			}
			if p.P == nil || q.P == nil {
				return false
			}
			return x.deepEq(Iface{u.Elem(), *p.P}, Iface{u.Elem(), *q.P}, d+1)
		}
	}
	return x.branch(x.eqVals(a.V, b.V))
}
