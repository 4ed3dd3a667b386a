package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type deferred struct {
	fn   *Closure
	args []Value
}

type frame struct {
	cf        *cfunc
	regs      []Value
	defers    []deferred
	panicking *tpanic
	recovered bool
	result    Value
	caller    *frame
}

func (x *Path) get(fr *frame, o *opnd) Value {
	switch o.k {
	case kReg:
		return fr.regs[o.i]
	case kConst:
		switch o.v.(type) {
		case Struct, Array:
			return copyVal(o.v)
		}
		return o.v
	default:
		return GPtr{x.global(o.g)}
	}
}

// call applies a function value.
func (x *Path) call(c *Closure, args []Value) Value {
	if c == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.Nat != nil {
		return c.Nat(x, args)
	}
	if c.Bi != nil {
		return x.builtin(c.Bi, args, nil)
	}
	return x.callSSA(c.Fn, args, c.Env)
}

func (x *Path) callSSA(fn *ssa.Function, args []Value, env []Value) Value {
	cf := x.w.cfuncs[fn]
	if cf == nil {
		cf = x.e.compile(fn)
		x.w.cfuncs[fn] = cf
	}
	if cf.nat != nil {
		return cf.nat(x, fn, args)
	}
	if cf.isInit && fn != x.initFn {
		return nil // dependencies are initialized when first used
	}
	if cf.blocks == nil {
		panic(unsupported("no body: " + cf.name))
	}
	x.depth++
	if x.depth > x.e.Opt.MaxDepth {
		x.fail("bound", "call depth bound in "+cf.name)
	}
	if cf.inRepo {
		x.w.st.Funcs[cf.name]++
	}
	if debugQ {
		x.stack = append(x.stack, cf.name[strings.LastIndexByte(cf.name, '/')+1:])
		defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	}
	fr := &frame{cf: cf, regs: make([]Value, cf.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	var res Value
	if cf.hasDefer {
		res = x.runDefer(fr)
	} else {
		res = x.run(fr, 0)
	}
	x.depth--
	return res
}

// callBody interprets a function that has an intrinsic.
func (x *Path) callBody(fn *ssa.Function, args []Value) Value {
	cf := x.e.compileBody(fn)
	fr := &frame{cf: cf, regs: make([]Value, cf.nregs)}
	copy(fr.regs, args)
	if cf.hasDefer {
		return x.runDefer(fr)
	}
	return x.run(fr, 0)
}

func (x *Path) runDefer(fr *frame) Value {
	depth := x.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(tpanic)
				if !ok {
					panic(r)
				}
				x.depth = depth
				fr.panicking = &tp
				x.runDefers(fr)
				if fr.panicking != nil {
					panic(*fr.panicking)
				}
				// recovered
				if fr.cf.fn.Recover != nil {
					fr.result = x.run(fr, fr.cf.fn.Recover.Index)
				} else {
					fr.result = zeroResult(fr.cf.fn)
				}
			}
		}()
		fr.result = x.run(fr, 0)
	}()
	return fr.result
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (x *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(tpanic)
					if !ok {
						panic(r)
					}
					fr.panicking = &tp
				}
			}()
			x.w.deferFrames = append(x.w.deferFrames, fr)
			defer func() { x.w.deferFrames = x.w.deferFrames[:len(x.w.deferFrames)-1] }()
			x.call(d.fn, d.args)
		}()
	}
}

var traceOn = os.Getenv("GOSYM_TRACE") != ""

func (x *Path) run(fr *frame, block int) Value {
	cf := fr.cf
	prev := -1
	regs := fr.regs
	for {
		b := &cf.blocks[block]
		if b.phis > 0 {
			// parallel assignment
			pi := 0
			for i, p := range cf.fn.Blocks[block].Preds {
				if p.Index == prev {
					pi = i
					break
				}
			}
			if b.phis == 1 {
				regs[b.ins[0].dst] = x.get(fr, &b.ins[0].ops[pi])
			} else {
				tmp := make([]Value, b.phis)
				for i := 0; i < b.phis; i++ {
					tmp[i] = x.get(fr, &b.ins[i].ops[pi])
				}
				for i := 0; i < b.phis; i++ {
					regs[b.ins[i].dst] = tmp[i]
				}
			}
		}
		x.steps += len(b.ins)
		x.inTime()
		if x.steps > x.e.Opt.MaxSteps {
			x.fail("bound", "step bound in "+cf.name)
		}
		next := -1
		for ii := b.phis; ii < len(b.ins); ii++ {
			ci := &b.ins[ii]
			if traceOn {
				fmt.Fprintf(os.Stderr, "%s b%d: %v\n", cf.name, block, ci.in)
			}
			switch in := ci.in.(type) {
			case *ssa.If:
				c := x.get(fr, &ci.ops[0]).(*smt.Term)
				if x.branch(c) {
					next = cf.fn.Blocks[block].Succs[0].Index
				} else {
					next = cf.fn.Blocks[block].Succs[1].Index
				}
			case *ssa.Jump:
				next = cf.fn.Blocks[block].Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					return nil
				case 1:
					return x.get(fr, &ci.ops[0])
				}
				r := make(Tuple, len(ci.ops))
				for i := range ci.ops {
					r[i] = x.get(fr, &ci.ops[i])
				}
				return r
			case *ssa.Panic:
				v := x.get(fr, &ci.ops[0]).(Iface)
				panic(tpanic{v: v, msg: x.panicText(v)})
			case *ssa.Store:
				x.store(x.get(fr, &ci.ops[0]), x.get(fr, &ci.ops[1]), in.Val.Type())
			case *ssa.MapUpdate:
				m := x.get(fr, &ci.ops[0]).(*MapObj)
				if m == nil {
					x.rtPanic("assignment to entry in nil map")
				}
				x.mapSet(m, x.get(fr, &ci.ops[1]), x.get(fr, &ci.ops[2]))
			case *ssa.Defer:
				fn, args := x.prepare(fr, ci, &in.Call)
				fr.defers = append(fr.defers, deferred{fn, args})
			case *ssa.RunDefers:
				x.runDefers(fr)
				if fr.panicking != nil {
					tp := *fr.panicking
					fr.panicking = nil
					panic(tp)
				}
			case *ssa.Go:
				fn, args := x.prepare(fr, ci, &in.Call)
				x.w.note("go statement run synchronously")
				x.goDepth++
				x.call(fn, args)
				x.goDepth--
			case *ssa.Send:
				c, _ := x.get(fr, &ci.ops[0]).(*ChanObj)
				if c == nil || len(c.buf) >= c.cap && x.goDepth == 0 {
					panic(unsupported("channel send that blocks"))
				}
				c.buf = append(c.buf, x.get(fr, &ci.ops[1]))
				x.chanEvent(c)
			default:
				regs[ci.dst] = x.eval(fr, ci)
			}
			if next >= 0 {
				break
			}
		}
		prev, block = block, next
		if next < 0 {
			panic(unsupported("fell off block in " + cf.name))
		}
	}
}

func (x *Path) panicText(v Iface) string {
	switch u := v.V.(type) {
	case Str:
		if u.B == nil {
			return u.S
		}
	}
	return "panic(" + typeName(v.T) + ")"
}

// prepare evaluates the callee and arguments of a call.
func (x *Path) prepare(fr *frame, ci *cinstr, call *ssa.CallCommon) (*Closure, []Value) {
	if call.IsInvoke() {
		recv := x.get(fr, &ci.ops[0]).(Iface)
		if recv.T == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, 0, len(ci.ops))
		args = append(args, recv.V)
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, copyVal(x.get(fr, &ci.ops[i])))
		}
		return x.method(recv, call.Method), args
	}
	f := x.get(fr, &ci.ops[0])
	args := make([]Value, 0, len(ci.ops)-1)
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, copyVal(x.get(fr, &ci.ops[i])))
	}
	c, _ := f.(*Closure)
	return c, args
}

func (x *Path) method(recv Iface, m *types.Func) *Closure {
	switch recv.V.(type) {
	case RType:
		name := m.Name()
		return &Closure{Nat: func(x *Path, args []Value) Value { return x.rtypeMethod(name, args) }}
	}
	fn := x.e.lookupMethod(recv.T, m)
	if fn == nil {
		panic(unsupported("method " + m.Name() + " of " + recv.T.String()))
	}
	return &Closure{Fn: fn}
}

func (x *Path) methodByName(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.e.lookupMethod(t, ms.At(i).Obj().(*types.Func))
		}
	}
	return nil
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (x *Path) nilDeref() { x.rtPanic("invalid memory address or nil pointer dereference") }

func (x *Path) load(p Value, t types.Type) Value {
	switch p := p.(type) {
	case GPtr:
		if p.P == nil {
			x.nilDeref()
		}
		if x.gw != nil {
			x.goAccess(p.P, "r")
		}
		return copyVal(*p.P)
	case CPtr:
		return x.cLoadGo(p, t)
	case SymPtr:
		return x.loadSym(p)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (x *Path) loadSym(p SymPtr) Value {
	// constant tables become table terms
	if len(p.Arr) > 0 {
		if t0, ok := p.Arr[0].(*smt.Term); ok {
			allc := true
			for _, v := range p.Arr {
				if t, ok := v.(*smt.Term); !ok || !t.IsConst() {
					allc = false
					break
				}
			}
			if allc && t0.S.K == smt.KBV {
				tb := &smt.Table{W: t0.S.W}
				for _, v := range p.Arr {
					tb.Vals = append(tb.Vals, v.(*smt.Term).K)
				}
				return x.c.Tab(x.e.internTable(tb), p.Idx)
			}
			r := p.Arr[len(p.Arr)-1].(*smt.Term)
			for i := len(p.Arr) - 2; i >= 0; i-- {
				r = x.c.Ite(x.c.Eq(p.Idx, smt.Const(p.Idx.S, uint64(i))), p.Arr[i].(*smt.Term), r)
			}
			return r
		}
	}
	i := x.concretize(p.Idx)
	return copyVal(p.Arr[i])
}

func (x *Path) store(p, v Value, t types.Type) {
	switch p := p.(type) {
	case GPtr:
		if p.P == nil {
			x.nilDeref()
		}
		if x.gw != nil {
			x.goAccess(p.P, "w")
		}
		storeInto(p.P, v)
	case CPtr:
		x.cStoreGo(p, v, t)
	case SymPtr:
		i := x.concretize(p.Idx)
		storeInto(&p.Arr[i], v)
	default:
		panic(unsupported(fmt.Sprintf("store through %T", p)))
	}
}

// index checks bounds and returns a concrete index, or the symbolic one when
// symOK and it is in bounds.
func (x *Path) index(iv Value, n int, symOK bool) (int, *smt.Term) {
	t := iv.(*smt.Term)
	if t.IsConst() {
		i := t.Int()
		if t.S.W < 64 { // unsigned narrow index types
			i = int64(t.K)
			if i >= int64(n) {
				i = t.Int()
			}
		}
		if i < 0 || i >= int64(n) {
			x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	var idx *smt.Term
	idx = t
	if t.S.W < 64 {
		idx = x.c.Zext(t, 64)
	}
	if !x.branch(x.c.Cmp(smt.OUlt, idx, smt.BVc(64, uint64(n)))) {
		x.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if symOK {
		return 0, idx
	}
	return int(x.concretize(idx)), nil
}

func (x *Path) eval(fr *frame, ci *cinstr) Value {
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		return x.binop(in.Op, in.X.Type(), in.Y.Type(), x.get(fr, &ci.ops[0]), x.get(fr, &ci.ops[1]))
	case *ssa.UnOp:
		v := x.get(fr, &ci.ops[0])
		switch in.Op {
		case token.MUL:
			return x.load(v, in.Type())
		case token.NOT:
			return x.c.Not(v.(*smt.Term))
		case token.SUB:
			t := v.(*smt.Term)
			if t.S.K == smt.KFP {
				return x.c.FNeg(t)
			}
			return x.c.Neg(t)
		case token.XOR:
			return x.c.BNot(v.(*smt.Term))
		case token.ARROW:
			c, _ := v.(*ChanObj)
			if c == nil || len(c.buf) == 0 || in.CommaOk {
				panic(unsupported("channel receive that blocks"))
			}
			r := c.buf[0]
			c.buf = append([]Value{}, c.buf[1:]...)
			x.chanEvent(c)
			return r
		}
	case *ssa.Call:
		fn, args := x.prepare(fr, ci, &in.Call)
		if fn != nil && fn.Bi != nil {
			return x.builtin(fn.Bi, args, in)
		}
		if fn != nil && fn.Fn != nil && fn.Nat == nil {
			return x.callSSA(fn.Fn, args, fn.Env)
		}
		return x.call(fn, args)
	case *ssa.Alloc:
		v := zero(deref(in.Type()))
		return GPtr{&v}
	case *ssa.FieldAddr:
		p := x.get(fr, &ci.ops[0])
		switch p := p.(type) {
		case GPtr:
			if p.P == nil {
				x.nilDeref()
			}
			return GPtr{&(*p.P).(Struct)[in.Field]}
		case CPtr:
			if p.Obj == nil {
				x.nilDeref()
			}
			st := deref(in.X.Type()).Underlying().(*types.Struct)
			return CPtr{p.Obj, p.Off + x.e.fieldOffset(st, in.Field), p.Sym}
		case SymPtr:
			i := x.concretize(p.Idx)
			return GPtr{&p.Arr[i].(Struct)[in.Field]}
		}
		panic(unsupported(fmt.Sprintf("field address of %T", p)))
	case *ssa.Field:
		return copyVal(x.get(fr, &ci.ops[0]).(Struct)[in.Field])
	case *ssa.IndexAddr:
		a := x.get(fr, &ci.ops[0])
		iv := x.get(fr, &ci.ops[1])
		switch a := a.(type) {
		case Slice:
			i, s := x.index(iv, len(a), true)
			if s != nil {
				return SymPtr{[]Value(a), s}
			}
			return GPtr{&a[i]}
		case GPtr:
			if a.P == nil {
				x.nilDeref()
			}
			arr := (*a.P).(Array)
			i, s := x.index(iv, len(arr), true)
			if s != nil {
				return SymPtr{[]Value(arr), s}
			}
			return GPtr{&arr[i]}
		case CPtr:
			at := deref(in.X.Type()).Underlying().(*types.Array)
			i, _ := x.index(iv, int(at.Len()), false)
			return CPtr{a.Obj, a.Off + int64(i)*x.e.sizes.Sizeof(at.Elem()), a.Sym}
		}
		panic(unsupported(fmt.Sprintf("index address of %T", a)))
	case *ssa.Index:
		a := x.get(fr, &ci.ops[0])
		iv := x.get(fr, &ci.ops[1])
		switch a := a.(type) {
		case Array:
			i, s := x.index(iv, len(a), true)
			if s != nil {
				return x.loadSym(SymPtr{[]Value(a), s})
			}
			return copyVal(a[i])
		case Str:
			return x.strIndex(a, iv)
		}
	case *ssa.Lookup:
		m := x.get(fr, &ci.ops[0])
		k := x.get(fr, &ci.ops[1])
		if s, ok := m.(Str); ok {
			return x.strIndex(s, k)
		}
		v, ok := x.mapGet(m.(*MapObj), k)
		if !ok {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{copyVal(v), smt.Bc(ok)}
		}
		return copyVal(v)
	case *ssa.Extract:
		return x.get(fr, &ci.ops[0]).(Tuple)[in.Index]
	case *ssa.ChangeType:
		return x.get(fr, &ci.ops[0])
	case *ssa.ChangeInterface:
		return x.get(fr, &ci.ops[0])
	case *ssa.MakeInterface:
		v := x.get(fr, &ci.ops[0])
		if f, ok := v.(Iface); ok && types.IsInterface(in.X.Type()) {
			return f
		}
		return Iface{in.X.Type(), v}
	case *ssa.Convert:
		return x.convert(x.get(fr, &ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return x.convert(x.get(fr, &ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		s := x.get(fr, &ci.ops[0]).(Slice)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if len(s) < n {
			x.rtPanic("cannot convert slice to array pointer")
		}
		var v Value = Array(s[:n:n])
		return GPtr{&v}
	case *ssa.TypeAssert:
		return x.typeAssert(in, x.get(fr, &ci.ops[0]).(Iface))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = x.get(fr, &ci.ops[i+1])
		}
		return &Closure{Fn: in.Fn.(*ssa.Function), Env: env}
	case *ssa.MakeSlice:
		n := int(x.concretize(x.get(fr, &ci.ops[0]).(*smt.Term)))
		c := int(x.concretize(x.get(fr, &ci.ops[1]).(*smt.Term)))
		if n < 0 || n > 1<<24 {
			x.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			x.rtPanic("makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		if c > 0 {
			z := zero(et)
			for i := range s {
				s[i] = copyVal(z)
			}
		}
		return s[:n]
	case *ssa.MakeMap:
		return &MapObj{idx: map[string]*mapEnt{}}
	case *ssa.MakeChan:
		return &ChanObj{cap: int(x.concretize(x.get(fr, &ci.ops[0]).(*smt.Term)))}
	case *ssa.Slice:
		return x.slice(fr, ci, in)
	case *ssa.Range:
		v := x.get(fr, &ci.ops[0])
		switch v := v.(type) {
		case Str:
			return &strIter{s: v}
		case *MapObj:
			x.mapAccess(v, "r")
			return &mapIter{m: v}
		}
	case *ssa.Next:
		return x.next(x.get(fr, &ci.ops[0]), in)
	case *ssa.Select:
		return x.selectStmt(fr, ci, ci.in.(*ssa.Select))
	}
	panic(unsupported(fmt.Sprintf("instruction %T %v", ci.in, ci.in)))
}

func (x *Path) strIndex(s Str, iv Value) Value {
	i, sy := x.index(iv, s.Len(), true)
	if sy == nil {
		return s.At(i)
	}
	arr := make([]Value, s.Len())
	for k := range arr {
		arr[k] = s.At(k)
	}
	return x.loadSym(SymPtr{arr, sy})
}

func (x *Path) next(it Value, in *ssa.Next) Value {
	switch it := it.(type) {
	case *strIter:
		if it.i >= it.s.Len() {
			return Tuple{smt.False, smt.BVc(64, 0), smt.BVc(32, 0)}
		}
		i := it.i
		r, n := x.decodeRune(it.s, i)
		it.i += n
		return Tuple{smt.True, smt.BVc(64, uint64(i)), r}
	case *mapIter:
		for it.m != nil && it.i < len(it.m.ents) {
			e := it.m.ents[it.i]
			it.i++
			if e.del {
				continue
			}
			return Tuple{smt.True, e.k, copyVal(e.v)}
		}
		tt := in.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return zero(t)
		}
		return Tuple{smt.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	panic(unsupported("next"))
}

// decodeRune decodes one rune at i.
func (x *Path) decodeRune(s Str, i int) (*smt.Term, int) {
	if s.B == nil {
		r, n := utf8.DecodeRuneInString(s.S[i:])
		return smt.BVc(32, uint64(uint32(r))), n
	}
	b := s.B[i]
	if x.branch(x.c.Cmp(smt.OUlt, b, smt.BVc(8, 0x80))) {
		return x.c.Zext(b, 32), 1
	}
	// not ASCII: make the sequence concrete
	var buf []byte
	for k := i; k < len(s.B) && k < i+4; k++ {
		buf = append(buf, byte(x.concretize(s.B[k])))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	return smt.BVc(32, uint64(uint32(r))), n
}

func (x *Path) slice(fr *frame, ci *cinstr, in *ssa.Slice) Value {
	v := x.get(fr, &ci.ops[0])
	opt := func(sv ssa.Value, k int) (int, bool) {
		if sv == nil {
			return 0, false
		}
		t := x.get(fr, &ci.ops[k]).(*smt.Term)
		return int(smt.BVc(int(t.S.W), x.concretize(t)).Int()), true
	}
	lo, okL := opt(in.Low, 1)
	hi, okH := opt(in.High, 2)
	mx, okM := opt(in.Max, 3)
	if !okL {
		lo = 0
	}
	bad := func() { x.rtPanic("slice bounds out of range") }
	switch s := v.(type) {
	case Str:
		if !okH {
			hi = s.Len()
		}
		if lo < 0 || hi < lo || hi > s.Len() {
			bad()
		}
		return s.Slice(lo, hi)
	case Slice:
		if !okH {
			hi = len(s)
		}
		if !okM {
			mx = cap(s)
		}
		if lo < 0 || hi < lo || hi > cap(s) || mx < hi || mx > cap(s) {
			bad()
		}
		if s == nil {
			return Slice(nil)
		}
		return s[lo:hi:mx]
	case GPtr:
		if s.P == nil {
			x.nilDeref()
		}
		a := (*s.P).(Array)
		if !okH {
			hi = len(a)
		}
		if !okM {
			mx = len(a)
		}
		if lo < 0 || hi < lo || hi > len(a) || mx < hi || mx > len(a) {
			bad()
		}
		return Slice(a)[lo:hi:mx]
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

func (x *Path) typeAssert(in *ssa.TypeAssert, v Iface) Value {
	ok := false
	var r Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if v.T != nil && x.e.implements(v.T, it) {
			ok = true
			r = v
		} else {
			r = Iface{}
		}
	} else {
		if v.T != nil && types.Identical(v.T, in.AssertedType) {
			ok = true
			r = copyVal(v.V)
		} else {
			r = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{r, smt.Bc(ok)}
	}
	if !ok {
		if v.T == nil {
			x.rtPanic("interface conversion: interface is nil, not " + typeName(in.AssertedType))
		}
		x.rtPanic("interface conversion: interface is " + typeName(v.T) + ", not " + typeName(in.AssertedType))
	}
	return r
}

// eqVals compares two values of the same static type.
func (x *Path) eqVals(a, b Value) *smt.Term {
	switch a := a.(type) {
	case *smt.Term:
		bt := b.(*smt.Term)
		if a.S.K == smt.KFP {
			return x.c.FCmp(smt.OFEq, a, bt)
		}
		return x.c.Eq(a, bt)
	case Str:
		return x.strEq(a, b.(Str))
	case GPtr:
		switch bb := b.(type) {
		case GPtr:
			return smt.Bc(a.P == bb.P)
		case CPtr:
			return smt.Bc(isNilPtr(a) && isNilPtr(bb))
		case SymPtr:
			return smt.False
		}
	case CPtr:
		if bp, ok := b.(CPtr); ok {
			return x.cPtrEq(a, bp)
		}
		return smt.Bc(isNilPtr(a) && isNilPtr(b))
	case Struct:
		r := smt.True
		bs := b.(Struct)
		for i := range a {
			r = x.c.And(r, x.eqVals(a[i], bs[i]))
		}
		return r
	case Array:
		r := smt.True
		bs := b.(Array)
		for i := range a {
			r = x.c.And(r, x.eqVals(a[i], bs[i]))
		}
		return r
	case Iface:
		bi := b.(Iface)
		if a.T == nil || bi.T == nil {
			return smt.Bc(a.T == nil && bi.T == nil)
		}
		if !types.Identical(a.T, bi.T) {
			return smt.False
		}
		if !types.Comparable(a.T) {
			x.rtPanic("comparing uncomparable type " + typeName(a.T))
		}
		if ra, ok := a.V.(RType); ok {
			return smt.Bc(types.Identical(ra.T, bi.V.(RType).T))
		}
		return x.eqVals(a.V, bi.V)
	case *MapObj:
		return smt.Bc(a == b.(*MapObj))
	case *ChanObj:
		return smt.Bc(a == b.(*ChanObj))
	case *Closure:
		return smt.Bc(a == b.(*Closure))
	case Slice:
		return smt.Bc(a == nil && b.(Slice) == nil)
	case Tuple:
		bt := b.(Tuple)
		return x.c.And(x.eqVals(a[0], bt[0]), x.eqVals(a[1], bt[1]))
	}
	panic(unsupported(fmt.Sprintf("compare %T with %T", a, b)))
}

func (x *Path) strEq(a, b Str) *smt.Term {
	if a.Len() != b.Len() {
		return smt.False
	}
	if a.B == nil && b.B == nil {
		return smt.Bc(a.S == b.S)
	}
	r := smt.True
	for i := 0; i < a.Len(); i++ {
		r = x.c.And(r, x.c.Eq(a.At(i), b.At(i)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (x *Path) strLess(a, b Str) *smt.Term {
	if a.B == nil && b.B == nil {
		return smt.Bc(a.S < b.S)
	}
	n := min(a.Len(), b.Len())
	r := smt.Bc(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		p, q := a.At(i), b.At(i)
		r = x.c.Or(x.c.Cmp(smt.OUlt, p, q), x.c.And(x.c.Eq(p, q), r))
	}
	return r
}

func (x *Path) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL, token.NEQ:
		_, ai := a.(Iface)
		_, bi := b.(Iface)
		if ai && !bi {
			b = Iface{ty, b}
		} else if bi && !ai {
			a = Iface{tx, a}
		}
		r := x.eqVals(a, b)
		if op == token.NEQ {
			return x.c.Not(r)
		}
		return r
	}
	if sa, ok := a.(Str); ok {
		sb := b.(Str)
		switch op {
		case token.ADD:
			return catStr(sa, sb)
		case token.LSS:
			return x.strLess(sa, sb)
		case token.GTR:
			return x.strLess(sb, sa)
		case token.LEQ:
			return x.c.Not(x.strLess(sb, sa))
		case token.GEQ:
			return x.c.Not(x.strLess(sa, sb))
		}
	}
	p, okp := a.(*smt.Term)
	q, okq := b.(*smt.Term)
	if !okp || !okq {
		panic(unsupported(fmt.Sprintf("binop %s on %T, %T", op, a, b)))
	}
	c := x.c
	if p.S.K == smt.KFP {
		switch op {
		case token.ADD:
			return c.FBin(smt.OFAdd, p, q)
		case token.SUB:
			return c.FBin(smt.OFSub, p, q)
		case token.MUL:
			return c.FBin(smt.OFMul, p, q)
		case token.QUO:
			return c.FBin(smt.OFDiv, p, q)
		case token.LSS:
			return c.FCmp(smt.OFLt, p, q)
		case token.LEQ:
			return c.FCmp(smt.OFLe, p, q)
		case token.GTR:
			return c.FCmp(smt.OFLt, q, p)
		case token.GEQ:
			return c.FCmp(smt.OFLe, q, p)
		}
	}
	if p.S.K == smt.KBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(p, q)
		case token.OR, token.LOR:
			return c.Or(p, q)
		}
	}
	_, signed, _ := intInfo(basicOf(tx))
	pick := func(s, u smt.Op) smt.Op {
		if signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return c.Bin(smt.OAdd, p, q)
	case token.SUB:
		return c.Bin(smt.OSub, p, q)
	case token.MUL:
		return c.Bin(smt.OMul, p, q)
	case token.QUO, token.REM:
		if x.branch(c.Eq(q, smt.Const(q.S, 0))) {
			x.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			return c.Bin(pick(smt.OSDiv, smt.OUDiv), p, q)
		}
		return c.Bin(pick(smt.OSRem, smt.OURem), p, q)
	case token.AND:
		return c.Bin(smt.OBAnd, p, q)
	case token.OR:
		return c.Bin(smt.OBOr, p, q)
	case token.XOR:
		return c.Bin(smt.OBXor, p, q)
	case token.AND_NOT:
		return c.Bin(smt.OBAnd, p, c.BNot(q))
	case token.SHL, token.SHR:
		_, qs, _ := intInfo(basicOf(ty))
		if qs && x.branch(c.Cmp(smt.OSlt, q, smt.Const(q.S, 0))) {
			x.rtPanic("negative shift amount")
		}
		w := int(p.S.W)
		qw := int(q.S.W)
		var sh *smt.Term
		if qw < w {
			sh = c.Zext(q, w)
		} else if qw == w {
			sh = q
		} else {
			big := c.Cmp(smt.OUle, smt.BVc(qw, uint64(w)), q)
			sh = c.Ite(big, smt.BVc(w, uint64(w)), c.Extract(q, w-1, 0))
		}
		if op == token.SHL {
			return c.Bin(smt.OShl, p, sh)
		}
		return c.Bin(pick(smt.OAshr, smt.OLshr), p, sh)
	case token.LSS:
		return c.Cmp(pick(smt.OSlt, smt.OUlt), p, q)
	case token.LEQ:
		return c.Cmp(pick(smt.OSle, smt.OUle), p, q)
	case token.GTR:
		return c.Cmp(pick(smt.OSlt, smt.OUlt), q, p)
	case token.GEQ:
		return c.Cmp(pick(smt.OSle, smt.OUle), q, p)
	}
	panic(unsupported("binop " + op.String()))
}

func (x *Path) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	c := x.c
	// string <-> slices
	if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
		if ts, ok := tu.(*types.Slice); ok {
			s := v.(Str)
			eb := basicOf(ts.Elem())
			if eb.Kind() == types.Uint8 {
				r := make(Slice, s.Len())
				for i := range r {
					r[i] = s.At(i)
				}
				return r
			}
			var r = Slice{}
			for i := 0; i < s.Len(); {
				ru, n := x.decodeRune(s, i)
				r = append(r, ru)
				i += n
			}
			return r
		}
		return v
	}
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		if fs, ok := fu.(*types.Slice); ok {
			sl := v.(Slice)
			if basicOf(fs.Elem()).Kind() == types.Uint8 {
				b := make([]*smt.Term, len(sl))
				for i := range sl {
					b[i] = sl[i].(*smt.Term)
				}
				return mkStr(b)
			}
			r := Str{}
			for _, e := range sl {
				r = catStr(r, x.runeStr(e.(*smt.Term)))
			}
			return r
		}
		t := v.(*smt.Term)
		return x.runeStr(t)
	}
	// pointers
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		if t, ok := v.(*smt.Term); ok && t.IsConst() {
			return CPtr{Off: int64(t.K)}
		}
		return v
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		if isNilPtr(v) {
			return smt.BVc(64, 0)
		}
		if p, ok := v.(CPtr); ok && p.Obj == nil && p.Sym == nil {
			return smt.BVc(64, uint64(p.Off))
		}
		if p, ok := v.(CPtr); ok {
			return x.c.Bin(smt.OAdd, smt.BVc(64, uint64(p.Obj.id)<<24+0x7f0000000000), smt.BVc(64, uint64(p.Off)))
		}
		panic(unsupported("pointer to integer"))
	}
	fb, tb := basicOf(from), basicOf(to)
	if fb == nil || tb == nil {
		return v
	}
	if fb.Info()&types.IsComplex != 0 {
		panic(unsupported("complex"))
	}
	t := v.(*smt.Term)
	fw, fsig, fint := intInfo(fb)
	tw, tsig, tint := intInfo(tb)
	ts, _ := scalarSort(tb)
	switch {
	case fint && tint:
		if tw < fw {
			return c.Extract(t, tw-1, 0)
		}
		if fsig {
			return c.Sext(t, tw)
		}
		return c.Zext(t, tw)
	case fint && ts.K == smt.KFP:
		if fsig {
			return c.FFromS(t, ts)
		}
		return c.FFromU(t, ts)
	case t.S.K == smt.KFP && ts.K == smt.KFP:
		return c.FToF(t, ts)
	case t.S.K == smt.KFP && tint:
		return x.floatToInt(t, tw, tsig)
	}
	return v
}

// floatToInt follows what the Go compiler emits on amd64: out-of-range values
// give the indefinite integer for signed conversions.
func (x *Path) floatToInt(t *smt.Term, w int, signed bool) *smt.Term {
	c := x.c
	if t.S.W == 32 {
		t = c.FToF(t, smt.F64)
	}
	if t.IsConst() {
		f := t.Float()
		if signed {
			switch w {
			case 64:
				return smt.BVc(64, uint64(goF2I(f)))
			case 32:
				return smt.BVc(32, uint64(int32(goF2I(f))))
			case 16:
				return smt.BVc(16, uint64(int16(goF2I(f))))
			}
			return smt.BVc(8, uint64(int8(goF2I(f))))
		}
		return smt.BVc(w, uint64(f))
	}
	lo, hi := smt.Fc(-9223372036854775808.0), smt.Fc(9223372036854775808.0)
	if !signed && w == 64 {
		if x.branch(c.And(c.FCmp(smt.OFLe, smt.Fc(0), t), c.FCmp(smt.OFLt, t, smt.Fc(18446744073709551616.0)))) {
			return c.FToU(t, 64)
		}
		if x.branch(c.And(c.FCmp(smt.OFLt, lo, t), c.FCmp(smt.OFLt, t, smt.Fc(0)))) {
			return c.FToS(t, 64)
		}
		panic(unsupported("out-of-range float to uint64"))
	}
	in := c.And(c.FCmp(smt.OFLe, lo, t), c.FCmp(smt.OFLt, t, hi))
	r := c.Ite(in, c.FToS(t, 64), smt.BVc(64, 1<<63))
	if w < 64 {
		r = c.Extract(r, w-1, 0)
	}
	return r
}

func goF2I(f float64) int64 {
	if f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
		return int64(f)
	}
	return math.MinInt64
}

func (x *Path) runeStr(t *smt.Term) Str {
	if t.IsConst() {
		return Str{S: string(rune(int32(t.Int())))}
	}
	w := int(t.S.W)
	if w > 32 {
		if !x.branch(x.c.Cmp(smt.OUlt, t, smt.BVc(w, 1<<31))) {
			return Str{S: string(utf8.RuneError)}
		}
		t = x.c.Extract(t, 31, 0)
		w = 32
	}
	if x.branch(x.c.Cmp(smt.OUlt, t, smt.BVc(w, 0x80))) {
		if w > 8 {
			t = x.c.Extract(t, 7, 0)
		}
		return mkStr([]*smt.Term{t})
	}
	k := x.concretize(t)
	return Str{S: string(rune(int32(k)))}
}

func (x *Path) builtin(b *ssa.Builtin, args []Value, call *ssa.Call) Value {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case Str:
			return smt.BVc(64, uint64(v.Len()))
		case Slice:
			return smt.BVc(64, uint64(len(v)))
		case Array:
			return smt.BVc(64, uint64(len(v)))
		case *MapObj:
			if v == nil {
				return smt.BVc(64, 0)
			}
			return smt.BVc(64, uint64(v.n))
		case GPtr:
			return smt.BVc(64, uint64(len((*v.P).(Array))))
		case *ChanObj:
			return smt.BVc(64, uint64(len(v.buf)))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return smt.BVc(64, uint64(cap(v)))
		case Array:
			return smt.BVc(64, uint64(len(v)))
		case GPtr:
			return smt.BVc(64, uint64(len((*v.P).(Array))))
		}
	case "append":
		s, _ := args[0].(Slice)
		switch t := args[1].(type) {
		case Slice:
			if len(t) == 0 {
				return s
			}
			for _, e := range t {
				s = append(s, copyVal(e))
			}
			return s
		case Str:
			for i := 0; i < t.Len(); i++ {
				s = append(s, t.At(i))
			}
			return s
		}
	case "copy":
		d := args[0].(Slice)
		switch t := args[1].(type) {
		case Slice:
			n := min(len(d), len(t))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(t[i])
			}
			for i := 0; i < n; i++ {
				storeInto(&d[i], tmp[i])
			}
			return smt.BVc(64, uint64(n))
		case Str:
			n := min(len(d), t.Len())
			for i := 0; i < n; i++ {
				d[i] = t.At(i)
			}
			return smt.BVc(64, uint64(n))
		}
	case "delete":
		m := args[0].(*MapObj)
		if m != nil {
			x.mapDel(m, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapObj:
			if v != nil {
				v.ents, v.idx, v.n, v.sym = nil, map[string]*mapEnt{}, 0, false
			}
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range v {
				v[i] = zero(et)
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch p := r.(type) {
			case *smt.Term:
				q := a.(*smt.Term)
				t := b.Type().(*types.Signature).Params().At(0).Type()
				lt := x.binop(token.LSS, t, t, p, q).(*smt.Term)
				if p.S.K == smt.KFP {
					r = x.minmax(p, q, b.Name() == "max")
					continue
				}
				if b.Name() == "max" {
					lt = x.c.Not(lt)
				}
				r = x.c.Ite(lt, p, q)
			case Str:
				lt := x.branch(x.strLess(p, a.(Str)))
				if lt != (b.Name() == "min") {
					r = a
				}
			}
		}
		return r
	case "print", "println":
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(tpanic{v: v, msg: x.panicText(v)})
	case "recover":
		n := len(x.w.deferFrames)
		if n == 0 {
			return Iface{}
		}
		fr := x.w.deferFrames[n-1]
		if fr.panicking == nil {
			return Iface{}
		}
		v := fr.panicking.v
		fr.panicking = nil
		return v
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			x.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		n := int(x.concretize(args[1].(*smt.Term)))
		if n == 0 {
			return Str{}
		}
		if p, ok := args[0].(dataPtr); ok {
			b := make([]*smt.Term, n)
			for i := range b {
				b[i] = p.s[i].(*smt.Term)
			}
			return mkStr(b)
		}
		if p, ok := args[0].(strPtr); ok {
			return p.s.Slice(0, n)
		}
		if p, ok := args[0].(GPtr); ok && p.P != nil {
			return sliceStr(Slice(unsafe.Slice(p.P, n)))
		}
	case "SliceData":
		return dataPtr{args[0].(Slice)}
	case "StringData":
		return strPtr{args[0].(Str)}
	case "Slice":
		n := int(x.concretize(args[1].(*smt.Term)))
		if p, ok := args[0].(dataPtr); ok {
			return p.s[:n]
		}
		if p, ok := args[0].(strPtr); ok {
			r := make(Slice, n)
			for i := range r {
				r[i] = p.s.At(i)
			}
			return r
		}
	case "Add":
		if p, ok := args[0].(CPtr); ok {
			return x.cAdd(p, args[1].(*smt.Term))
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

type dataPtr struct{ s Slice }
type strPtr struct{ s Str }

// ---- maps

func concKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *smt.Term:
		if v.IsConst() {
			return fmt.Sprintf("t%d.%d.%x", v.S.K, v.S.W, v.K), true
		}
	case Str:
		if v.B == nil {
			return "s" + v.S, true
		}
	case GPtr:
		return fmt.Sprintf("p%p", v.P), true
	case Iface:
		if v.T == nil {
			return "nil", true
		}
		if r, ok := v.V.(RType); ok {
			return "rt" + r.T.String(), true
		}
		k, ok := concKey(v.V)
		return "i" + v.T.String() + ":" + k, ok
	case Struct:
		r := "{"
		for _, f := range v {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return r + "}", true
	case Array:
		r := "["
		for _, f := range v {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return r + "]", true
	}
	return "", false
}

func (x *Path) mapFind(m *MapObj, k Value) *mapEnt {
	if f, ok := k.(Iface); ok && f.T != nil && !types.Comparable(f.T) {
		x.rtPanic("hash of unhashable type " + typeName(f.T))
	}
	if m == nil {
		return nil
	}
	ck, ok := concKey(k)
	if ok && !m.sym {
		e := m.idx[ck]
		if e != nil && !e.del {
			return e
		}
		return nil
	}
	if ok {
		if e := m.idx[ck]; e != nil && !e.del {
			return e
		}
	}
	for _, e := range m.ents {
		if e.del {
			continue
		}
		if x.branch(x.eqVals(e.k, k)) {
			return e
		}
	}
	return nil
}

func (x *Path) mapGet(m *MapObj, k Value) (Value, bool) {
	x.mapAccess(m, "r")
	if e := x.mapFind(m, k); e != nil {
		return e.v, true
	}
	return nil, false
}

func (x *Path) mapSet(m *MapObj, k, v Value) {
	x.mapAccess(m, "w")
	if e := x.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: k, v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := concKey(k); ok {
		m.idx[ck] = e
	} else {
		m.sym = true
	}
}

func (x *Path) mapDel(m *MapObj, k Value) {
	x.mapAccess(m, "w")
	if e := x.mapFind(m, k); e != nil {
		e.del = true
		m.n--
		if ck, ok := concKey(k); ok {
			delete(m.idx, ck)
		}
	}
}
