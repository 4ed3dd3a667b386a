package exec

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type opk uint8

const (
	kReg opk = iota
	kConst
	kGlobal
)

type opnd struct {
	k opk
	i int
	v Value
	g *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type cblock struct {
	ins  []cinstr
	phis int
}

type cfunc struct {
	fn       *ssa.Function
	nregs    int
	nparams  int
	blocks   []cblock
	hasDefer bool
	name     string
	nat      intrinsic
	inRepo   bool
	isInit   bool
}

func (e *Engine) compile(fn *ssa.Function) *cfunc {
	if v, ok := e.cfuncs.Load(fn); ok {
		return v.(*cfunc)
	}
	cf := &cfunc{fn: fn, name: fn.String()}
	if o := fn.Origin(); o != nil {
		cf.name = o.String()
	}
	cf.nat = intrinsics[cf.name]
	if r := e.replace[cf.name]; r != nil {
		cf.nat = func(x *Path, fn *ssa.Function, args []Value) Value {
			if f, ok := x.slot.(Iface); !ok || f.T == nil {
				return x.callBody(fn, args)
			}
			return x.callSSA(r, args, nil)
		}
	}
	if cf.nat == nil {
		cf.nat = e.dynIntrinsic(fn, cf.name)
	}
	e.fill(cf, fn)
	v, _ := e.cfuncs.LoadOrStore(fn, cf)
	return v.(*cfunc)
}

type bodyKey struct{ fn *ssa.Function }

func (e *Engine) compileBody(fn *ssa.Function) *cfunc {
	if v, ok := e.cfuncs.Load(bodyKey{fn}); ok {
		return v.(*cfunc)
	}
	cf := &cfunc{fn: fn, name: fn.String()}
	e.fill(cf, fn)
	v, _ := e.cfuncs.LoadOrStore(bodyKey{fn}, cf)
	return v.(*cfunc)
}

func (e *Engine) fill(cf *cfunc, fn *ssa.Function) {
	if fn.Pkg != nil {
		cf.inRepo = e.isRepo(fn.Pkg.Pkg.Path())
	} else if p := fn.Parent(); p != nil && p.Pkg != nil {
		cf.inRepo = e.isRepo(p.Pkg.Pkg.Path())
	}
	if cf.nat == nil {
		p := fn.Pkg
		if o := fn.Origin(); p == nil && o != nil {
			p = o.Pkg
		}
		for f := fn; p == nil && f.Parent() != nil; {
			f = f.Parent()
			p = f.Pkg
			if o := f.Origin(); p == nil && o != nil {
				p = o.Pkg
			}
		}
		if p != nil {
			p.Build() // once; waits while another worker builds it
		}
	}
	if fn.Synthetic == "package initializer" {
		cf.isInit = true
	}
	if cf.nat == nil && fn.Blocks != nil {
		regs := map[ssa.Value]int{}
		n := 0
		for _, p := range fn.Params {
			regs[p] = n
			n++
		}
		for _, f := range fn.FreeVars {
			regs[f] = n
			n++
		}
		cf.nparams = len(fn.Params)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					regs[v] = n
					n++
				}
			}
		}
		cf.nregs = n
		cf.blocks = make([]cblock, len(fn.Blocks))
		for bi, b := range fn.Blocks {
			cb := &cf.blocks[bi]
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				if _, ok := in.(*ssa.Defer); ok {
					cf.hasDefer = true
				}
				if _, ok := in.(*ssa.Phi); ok {
					cb.phis++
				}
				ci := cinstr{in: in, dst: -1}
				if v, ok := in.(ssa.Value); ok {
					ci.dst = regs[v]
				}
				for _, op := range in.Operands(nil) {
					ci.ops = append(ci.ops, e.operand(*op, regs))
				}
				cb.ins = append(cb.ins, ci)
			}
		}
	}
}

func (e *Engine) operand(v ssa.Value, regs map[ssa.Value]int) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{k: kConst}
	case *ssa.Const:
		return opnd{k: kConst, v: constVal(v)}
	case *ssa.Global:
		return opnd{k: kGlobal, g: v}
	case *ssa.Function:
		return opnd{k: kConst, v: &Closure{Fn: v}}
	case *ssa.Builtin:
		return opnd{k: kConst, v: &Closure{Bi: v}}
	}
	i, ok := regs[v]
	if !ok {
		panic("no register for " + v.String())
	}
	return opnd{k: kReg, i: i}
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if tp, ok := t.(*types.TypeParam); ok {
			panic(unsupported("zero of type parameter " + tp.String()))
		}
		return zero(t)
	}
	b := basicOf(t)
	if b == nil {
		panic(unsupported("const of type " + t.String()))
	}
	if w, signed, ok := intInfo(b); ok {
		v := constant.ToInt(c.Value)
		if signed {
			i, _ := constant.Int64Val(v)
			return smt.BVc(w, uint64(i))
		}
		u, exact := constant.Uint64Val(v)
		if !exact {
			i, _ := constant.Int64Val(v)
			u = uint64(i)
		}
		return smt.BVc(w, u)
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return smt.Bc(constant.BoolVal(c.Value))
	case types.String, types.UntypedString:
		return Str{S: constant.StringVal(c.Value)}
	case types.Float64, types.UntypedFloat:
		f, _ := constant.Float64Val(c.Value)
		return smt.Fc(f)
	case types.Float32:
		f, _ := constant.Float32Val(c.Value)
		return smt.Const(smt.F32, uint64(math.Float32bits(f)))
	case types.Complex128, types.Complex64:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Tuple{smt.Fc(re), smt.Fc(im)}
	}
	panic(unsupported("const " + c.String()))
}

var _ = token.ADD
