package exec

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"verif/engine/smt"
)

// jsonMarshal follows encoding/json for the shapes the repository marshals.
func jsonMarshal(x *Path, a []Value) Value {
	s, err := x.jsonVal(a[0].(Iface), 0)
	if err != nil {
		return Tuple{Slice(nil), err}
	}
	return Tuple{strSlice(s), Iface{}}
}

func (x *Path) jsonVal(v Iface, d int) (Str, Value) {
	if d > 40 {
		panic(unsupported("deep json"))
	}
	if v.T == nil {
		return Str{S: "null"}, nil
	}
	if fn := x.methodByName(v.T, "MarshalJSON"); fn != nil {
		if isNilPtr(v.V) {
			if _, isP := v.T.Underlying().(*types.Pointer); isP {
				return Str{S: "null"}, nil
			}
		}
		r := x.callSSA(fn, []Value{copyVal(v.V)}, nil).(Tuple)
		if e := r[1].(Iface); e.T != nil {
			return Str{}, e
		}
		return sliceStr(r[0]), nil
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.jsonStr(str(v.V)), nil
		}
		t := term(v.V)
		if u.Info()&types.IsBoolean != 0 {
			if x.branch(t) {
				return Str{S: "true"}, nil
			}
			return Str{S: "false"}, nil
		}
		if !t.IsConst() {
			if t.S.K == smt.KFP {
				if ft := x.floatText[t]; ft != "" {
					return Str{S: ft}, nil
				}
				if x.branch(x.c.Or(x.c.FIsNaN(t), x.c.FIsInf(t))) {
					return Str{}, x.mkErr(Str{S: "json: unsupported value"})
				}
				x.w.note("json number text of a symbolic float stood for by digits that read back as it")
				return Str{S: x.textOfFloat(t)}, nil
			}
			t = smt.Const(t.S, x.concretize(t))
		}
		b, err := json.Marshal(goVal(u, t))
		if err != nil {
			return Str{}, x.mkErr(Str{S: err.Error()})
		}
		return Str{S: string(b)}, nil
	case *types.Pointer:
		if isNilPtr(v.V) {
			return Str{S: "null"}, nil
		}
		return x.jsonVal(asIface(u.Elem(), *v.V.(GPtr).P), d+1)
	case *types.Slice:
		sl, _ := v.V.(Slice)
		if sl == nil {
			return Str{S: "null"}, nil
		}
		r := Str{S: "["}
		for i, e := range sl {
			if i > 0 {
				r = catStr(r, Str{S: ","})
			}
			s, err := x.jsonVal(asIface(u.Elem(), e), d+1)
			if err != nil {
				return s, err
			}
			r = catStr(r, s)
		}
		return catStr(r, Str{S: "]"}), nil
	case *types.Struct:
		r := Str{S: "{"}
		n := 0
		for i, e := range v.V.(Struct) {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			if f.Embedded() {
				panic(unsupported("json of an embedded field"))
			}
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			parts := strings.Split(tag, ",")
			name := f.Name()
			if parts[0] == "-" && len(parts) == 1 {
				continue
			}
			if parts[0] != "" {
				name = parts[0]
			}
			omit := false
			for _, p := range parts[1:] {
				if p == "omitempty" {
					omit = true
				} else if p != "" {
					panic(unsupported("json option " + p))
				}
			}
			if omit && x.jsonEmpty(f.Type(), e) {
				continue
			}
			s, err := x.jsonVal(asIface(f.Type(), e), d+1)
			if err != nil {
				return s, err
			}
			if n > 0 {
				r = catStr(r, Str{S: ","})
			}
			n++
			r = catStr(r, x.jsonStr(Str{S: name}))
			r = catStr(r, Str{S: ":"})
			r = catStr(r, s)
		}
		return catStr(r, Str{S: "}"}), nil
	case *types.Map:
		m, _ := v.V.(*MapObj)
		if m == nil {
			return Str{S: "null"}, nil
		}
		if m.n == 0 {
			return Str{S: "{}"}, nil
		}
		if b := basicOf(u.Key()); b != nil && x.methodByName(u.Key(), "MarshalText") == nil {
			x.mapAccess(m, "r")
			text := func(k Value) string {
				if s, ok := k.(Str); ok {
					return x.cstring(s)
				}
				t := term(k)
				return fmt.Sprint(goVal(b, smt.Const(t.S, x.concretize(t))))
			}
			r := Str{S: "{"}
			for i, e := range sortedEnts(x, m, text) {
				if i > 0 {
					r = catStr(r, Str{S: ","})
				}
				r = catStr(r, x.jsonStr(Str{S: text(e.k)}))
				r = catStr(r, Str{S: ":"})
				s, err := x.jsonVal(asIface(u.Elem(), e.v), d+1)
				if err != nil {
					return s, err
				}
				r = catStr(r, s)
			}
			return catStr(r, Str{S: "}"}), nil
		}
	}
	panic(unsupported("json of " + v.T.String()))
}

func (x *Path) jsonEmpty(t types.Type, v Value) bool {
	switch e := v.(type) {
	case Iface:
		return e.T == nil
	case Str:
		return e.Len() == 0
	case Slice:
		return len(e) == 0
	case *MapObj:
		return e == nil || e.n == 0
	case GPtr, CPtr:
		return isNilPtr(v)
	case *smt.Term:
		if e.S.K == smt.KFP {
			return x.branch(x.c.FCmp(smt.OFEq, e, smt.Const(e.S, 0)))
		}
		return x.branch(x.c.Eq(e, smt.Const(e.S, 0)))
	}
	return false
}

const hexd = "0123456789abcdef"

func (x *Path) jsonStr(s Str) Str {
	if s.B == nil {
		b, _ := json.Marshal(s.S)
		return Str{S: string(b)}
	}
	r := Str{S: `"`}
	for i := 0; i < s.Len(); {
		t := x.narrow(s.At(i))
		if !t.IsConst() {
			plain := x.c.And(x.c.And(x.c.Cmp(smt.OUle, smt.BVc(8, 0x20), t), x.c.Cmp(smt.OUlt, t, smt.BVc(8, 0x80))), x.c.Not(x.inSet(t, "\"\\<>&")))
			if x.branch(plain) {
				r = catStr(r, mkStr([]*smt.Term{t}))
				i++
				continue
			}
			if x.branch(x.c.Cmp(smt.OUlt, t, smt.BVc(8, 0x80))) {
				k := byte(x.concretize(t))
				b, _ := json.Marshal(string([]byte{k}))
				r = catStr(r, Str{S: string(b[1 : len(b)-1])})
				i++
				continue
			}
		}
		ru, n := x.decodeRune(s, i)
		k := rune(int32(x.concretize(ru)))
		raw := string(k)
		if n == 1 && k == 0xfffd {
			raw = "\xff"
		}
		b, _ := json.Marshal(raw)
		r = catStr(r, Str{S: string(b[1 : len(b)-1])})
		i += n
	}
	return catStr(r, Str{S: `"`})
}
