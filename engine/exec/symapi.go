package exec

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

const symPkg = "verif/h/sym."

// symIntrinsics is the harness interface.
func symIntrinsics() map[string]intrinsic {
	f1 := func(f func(x *Path, a []Value) Value) intrinsic {
		return func(x *Path, _ *ssa.Function, a []Value) Value { return f(x, a) }
	}
	name := func(v Value) string { return str(v).S }
	m := map[string]intrinsic{}
	for n, w := range map[string]int{"Byte": 8, "Int": 64, "Int64": 64, "Int32": 32, "Int16": 16, "Int8": 8, "Uint16": 16, "Uint8": 8, "Uint32": 32, "Uint64": 64, "Uint": 64} {
		m[symPkg+n] = f1(func(x *Path, a []Value) Value { return x.NewVar(name(a[0]), smt.BV(w)) })
	}
	m[symPkg+"Bool"] = f1(func(x *Path, a []Value) Value { return x.NewVar(name(a[0]), smt.Bool) })
	m[symPkg+"Float64"] = f1(func(x *Path, a []Value) Value { return x.NewVar(name(a[0]), smt.F64) })
	m[symPkg+"Float32"] = f1(func(x *Path, a []Value) Value { return x.NewVar(name(a[0]), smt.F32) })
	m[symPkg+"Choose"] = f1(func(x *Path, a []Value) Value {
		n := int(x.concretize(term(a[1])))
		k := x.choose(n)
		x.tag(name(a[0]), smt.BVc(64, uint64(k)))
		return i64(k)
	})
	m[symPkg+"Str"] = f1(func(x *Path, a []Value) Value {
		n := int(x.concretize(term(a[1])))
		b := make([]*smt.Term, n)
		for i := range b {
			b[i] = x.NewVar(fmt.Sprintf("%s[%d]", name(a[0]), i), smt.BV(8))
		}
		return mkStr(b)
	})
	m[symPkg+"Assume"] = f1(func(x *Path, a []Value) Value {
		c := term(a[0])
		x.assume(c)
		if !c.IsConst() && x.domKnowsConst(c) != yes && !x.modelOK && !x.replaying() {
			if !x.feasible(smt.True) {
				x.fail("infeasible", "")
			}
		}
		return nil
	})
	m[symPkg+"Assert"] = f1(func(x *Path, a []Value) Value {
		x.assert(term(a[0]), x.cstring(a[1]))
		return nil
	})
	m[symPkg+"Fail"] = f1(func(x *Path, a []Value) Value {
		x.violate(x.cstring(a[0]))
		return nil
	})
	m[symPkg+"Known"] = f1(func(x *Path, a []Value) Value {
		// Known(id, cond, ok, msg): ok must hold except where cond does.
		id, cond, ok := x.cstring(a[0]), term(a[1]), term(a[2])
		x.assert(x.c.Or(ok, cond), x.cstring(a[3]))
		bad := x.c.And(cond, x.c.Not(ok))
		if !bad.IsFalse() {
			x.w.x.mu.Lock()
			_, have := x.w.x.rep.Known[id]
			x.w.x.mu.Unlock()
			if !have {
				if mm, r := x.fullModel(bad); r == smt.Sat {
					v := Violation{Harness: x.e.Opt.Harness, Msg: x.cstring(a[3]), Model: x.modelByName(mm)}
					for k, t := range x.tagModel(mm) {
						v.Model[k] = t
					}
					x.w.x.mu.Lock()
					x.w.x.rep.Known[id] = v
					x.w.x.mu.Unlock()
				}
			}
		}
		return ok
	})
	m[symPkg+"Cover"] = f1(func(x *Path, a []Value) Value { x.covers[x.cstring(a[0])] = true; return nil })
	m[symPkg+"Observe"] = f1(func(x *Path, a []Value) Value {
		x.obs = append(x.obs, obsRec{x.cstring(a[0]), a[1]})
		return nil
	})
	m[symPkg+"Symbolic"] = f1(func(x *Path, a []Value) Value { return smt.True })
	m[symPkg+"Fork"] = f1(func(x *Path, a []Value) Value { return smt.Bc(x.branch(term(a[0]))) })
	m[symPkg+"Concrete"] = f1(func(x *Path, a []Value) Value {
		t := term(a[0])
		return smt.Const(t.S, x.concretize(t))
	})
	m[symPkg+"ConcreteStr"] = f1(func(x *Path, a []Value) Value { return Str{S: x.cstring(a[0])} })
	m[symPkg+"And"] = f1(func(x *Path, a []Value) Value { return x.c.And(term(a[0]), term(a[1])) })
	m[symPkg+"Or"] = f1(func(x *Path, a []Value) Value { return x.c.Or(term(a[0]), term(a[1])) })
	m[symPkg+"Not"] = f1(func(x *Path, a []Value) Value { return x.c.Not(term(a[0])) })
	m[symPkg+"Ite"] = f1(func(x *Path, a []Value) Value { return x.c.Ite(term(a[0]), term(a[1]), term(a[2])) })
	m[symPkg+"SameFloat"] = f1(func(x *Path, a []Value) Value { return x.c.Eq(term(a[0]), term(a[1])) })
	m[symPkg+"EqStr"] = f1(func(x *Path, a []Value) Value { return x.strEq(str(a[0]), str(a[1])) })
	m[symPkg+"LiveBlocks"] = f1(func(x *Path, a []Value) Value { return i64(x.cm.live) })
	m[symPkg+"Param"] = f1(func(x *Path, a []Value) Value {
		if v, ok := x.e.Opt.Params[name(a[0])]; ok {
			return i64(v)
		}
		return a[1]
	})
	m[symPkg+"WatchShared"] = f1(func(x *Path, a []Value) Value {
		if term(a[0]).IsTrue() {
			x.startWatch()
		} else {
			x.cm.watch, x.gw = nil, nil
		}
		return nil
	})
	m[symPkg+"Mark"] = f1(func(x *Path, a []Value) Value {
		x.events = append(x.events, Event{"mark", x.cstring(a[0])})
		return nil
	})
	m[symPkg+"Strtod"] = f1(func(x *Path, a []Value) Value { return x.floatOfText(str(a[0])) })
	m[symPkg+"FloatText"] = f1(func(x *Path, a []Value) Value {
		if x.floatText == nil {
			x.floatText = map[*smt.Term]string{}
		}
		x.floatText[term(a[0])] = x.cstring(a[1])
		return nil
	})
	// Field(v, key, name) is the field of struct v whose tag for key has that name.
	m[symPkg+"Field"] = f1(func(x *Path, a []Value) Value {
		none := Tuple{Iface{}, smt.False}
		f := a[0].(Iface)
		if f.T == nil {
			return none
		}
		st, ok := f.T.Underlying().(*types.Struct)
		if !ok {
			return none
		}
		for i, v := range f.V.(Struct) {
			tag, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get(name(a[1])), ",")
			if tag == name(a[2]) {
				return Tuple{asIface(st.Field(i).Type(), v), smt.True}
			}
		}
		return none
	})
	m[symPkg+"TypeName"] = f1(func(x *Path, a []Value) Value { return Str{S: typeName(a[0].(Iface).T)} })
	// LexStart replaces the scanner by the tokens that follow; LexStop undoes it.
	m[symPkg+"LexStart"] = f1(func(x *Path, a []Value) Value {
		x.lexMode = &lexStub{}
		return nil
	})
	m[symPkg+"LexStop"] = f1(func(x *Path, a []Value) Value { x.lexMode = nil; return nil })
	m[symPkg+"Lex"] = f1(func(x *Path, a []Value) Value {
		x.lexMode.toks = append(x.lexMode.toks, lexTok{code: x.tokenCode(x.cstring(a[0]))})
		return nil
	})
	m[symPkg+"LexText"] = f1(func(x *Path, a []Value) Value {
		x.lexMode.toks = append(x.lexMode.toks, lexTok{code: x.tokenCode(x.cstring(a[0])), text: str(a[1]), hasS: true})
		return nil
	})
	m[symPkg+"LexNum"] = f1(func(x *Path, a []Value) Value {
		x.lexMode.toks = append(x.lexMode.toks, lexTok{code: x.tokenCode(x.cstring(a[0])), text: x.numTextOf(term(a[1])), hasS: true})
		return nil
	})
	// LexFunc makes the scanner ask f for each next token: (token code, text).
	m[symPkg+"LexFunc"] = f1(func(x *Path, a []Value) Value {
		x.lexMode = &lexStub{fn: a[0].(*Closure)}
		return nil
	})
	m[symPkg+"RunMain"] = f1(func(x *Path, a []Value) Value {
		var args []Str
		for _, v := range a[1].(Slice) {
			args = append(args, str(v))
		}
		return x.runMain(x.cstring(a[0]), args)
	})
	// NumText is a numeral denoting a float.
	m[symPkg+"NumText"] = f1(func(x *Path, a []Value) Value { return x.numTextOf(term(a[0])) })
	// Put keeps a value for the rest of the path, Get returns it.
	m[symPkg+"Put"] = f1(func(x *Path, a []Value) Value { x.slot = a[0]; return nil })
	m[symPkg+"Get"] = f1(func(x *Path, a []Value) Value {
		if x.slot == nil {
			return Iface{}
		}
		return x.slot
	})
	// LexPos is the number of tokens the parser has taken.
	m[symPkg+"LexPos"] = f1(func(x *Path, a []Value) Value { return i64(x.lexMode.i) })
	m[symPkg+"TokenCode"] = f1(func(x *Path, a []Value) Value { return x.c.Sext(x.tokenCode(x.cstring(a[0])), 64) })
	// SetNumber makes the next numeric literal the lexer text denotes have this value.
	m[symPkg+"NextNumber"] = f1(func(x *Path, a []Value) Value { x.strtodVal = term(a[0]); return nil })
	// CCall(name, args...) calls a native function by name; results are boxed.
	m[symPkg+"CNode"] = f1(func(x *Path, a []Value) Value {
		args := []Value{}
		for _, v := range a[1].(Slice) {
			f := v.(Iface)
			switch u := f.V.(type) {
			case Str:
				p := x.newCStr(u)
				defer x.cfree(p)
				args = append(args, p)
			case *smt.Term:
				if u.S.K == smt.KBV && u.S.W == 64 {
					u = x.c.Extract(u, 31, 0)
				}
				if u.S.K == smt.KBool {
					u = x.toBV(u, 32)
				}
				args = append(args, u)
			case GPtr:
				// *tsl.TSLNode: pass its native node
				if u.P == nil {
					args = append(args, CPtr{})
					continue
				}
				args = append(args, x.nodeOf(u))
			case Slice:
				// a native array of nodes
				p := x.cmalloc(int64(8*max(1, len(u))), false)
				for i, e := range u {
					x.cstore(CPtr{Obj: p.Obj, Off: int64(8 * i)}, x.nodeOf(e.(GPtr)), 8)
				}
				defer x.cfree(p)
				args = append(args, p)
			default:
				panic(unsupported(fmt.Sprintf("CNode argument %T", f.V)))
			}
		}
		r := x.CCall(name(a[0]), args)
		var v Value = Struct{r}
		return GPtr{&v}
	})
	return m
}

// textOfFloat is digits that read back as f.
func (x *Path) textOfFloat(f *smt.Term) string {
	for t, g := range x.numText {
		if g == f {
			return t
		}
	}
	if x.numText == nil {
		x.numText = map[string]*smt.Term{}
	}
	t := fmt.Sprint(7000001 + len(x.numText))
	x.numText[t] = f
	return t
}

func (x *Path) numTextOf(f *smt.Term) Str {
	if f.IsConst() {
		return Str{S: strconv.FormatFloat(f.Float(), 'f', -1, 64)}
	}
	return Str{S: x.textOfFloat(f)}
}

func (x *Path) tokenCode(name string) *smt.Term {
	n, ok := x.e.tokens[name]
	if !ok {
		panic(unsupported("no token " + name))
	}
	return smt.BVc(32, uint64(n))
}

// nodeOf reads the native pointer inside a *TSLNode.
func (x *Path) nodeOf(g GPtr) Value {
	st := (*g.P).(Struct)
	for _, f := range st {
		if p, ok := f.(CPtr); ok {
			return p
		}
		if isNilPtr(f) {
			return CPtr{}
		}
	}
	panic(unsupported("no native pointer in node"))
}

var _ = types.Typ
