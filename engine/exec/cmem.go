package exec

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"verif/engine/llvm"
	"verif/engine/smt"
)

// CObj is one native memory object.
type CObj struct {
	id    int
	name  string
	size  int64
	cells []ccell
	tab   []uint64 // constant integer table instead of cells
	esz   int
	heap  bool
	stack bool
	ro    bool
	freed bool
	fn    string // function object
	btab  *smt.Table
}

// ccell is one byte: part i of an n-byte value v. v nil means uninitialised.
type ccell struct {
	v Value
	i uint8
	n uint8
}

// CMem is the native memory of one path.
type CMem struct {
	next      int
	live      int
	allocs    int
	globals   map[string]*CObj
	funcs     map[string]*CObj
	watch     map[string]bool
	watchFrom int // blocks made from this one on belong to the watched part
	errno     *CObj
	ctype     *CObj
	ctypeP    *CObj
	stderr    *CObj
}

func newCMem(x *Path) *CMem {
	return &CMem{next: 1, globals: map[string]*CObj{}, funcs: map[string]*CObj{}}
}

func (x *Path) cmemErr(msg string) {
	x.violate("memory: " + msg)
}

func (m *CMem) newObj(size int64, name string) *CObj {
	o := &CObj{id: m.next, size: size, name: name}
	m.next++
	if size > 0 {
		o.cells = make([]ccell, size)
	}
	return o
}

func (x *Path) cmalloc(n int64, zeroed bool) CPtr {
	if n < 0 || n > 1<<26 {
		panic(unsupported("malloc of a huge size"))
	}
	o := x.cm.newObj(n, "heap")
	o.heap = true
	x.cm.live++
	x.cm.allocs++
	if zeroed {
		for i := range o.cells {
			o.cells[i] = ccell{smt.BVc(8, 0), 0, 1}
		}
	}
	return CPtr{Obj: o}
}

func (x *Path) cfree(p Value) {
	c, ok := p.(CPtr)
	if !ok {
		if isNilPtr(p) {
			return
		}
		x.cmemErr("free of a non-pointer")
	}
	if c.Obj == nil && c.Off == 0 {
		return
	}
	if c.Obj == nil || !c.Obj.heap || c.Off != 0 || c.Sym != nil {
		x.cmemErr("free of a pointer that malloc did not return")
	}
	if c.Obj.freed {
		x.cmemErr("double free")
	}
	c.Obj.freed = true
	c.Obj.cells = nil
	x.cm.live--
}

// ---- globals

func (x *Path) cglobal(name string) Value {
	if o, ok := x.cm.globals[name]; ok {
		return CPtr{Obj: o}
	}
	if o, ok := x.w.cconst[name]; ok {
		return CPtr{Obj: o}
	}
	g := x.e.C.Globals[name]
	if g == nil {
		if x.e.C.Funcs[name] != nil || x.e.C.Decls[name] {
			o := x.cm.funcs[name]
			if o == nil {
				o = x.cm.newObj(1, name)
				o.fn = name
				x.cm.funcs[name] = o
			}
			return CPtr{Obj: o}
		}
		panic(unsupported("C global " + name))
	}
	if g.Init == nil {
		// external data: stdin, stdout, stderr
		o := x.cm.newObj(8, name)
		s := x.cm.newObj(216, "FILE")
		x.cm.globals[name] = o
		x.cstore(CPtr{Obj: o}, CPtr{Obj: s}, 8)
		return CPtr{Obj: o}
	}
	o := x.cm.newObj(int64(g.T.Size()), name)
	o.ro = g.Const
	if g.Const {
		x.w.cconst[name] = o
		if g.T.K == llvm.TArray && g.T.Elem.K == llvm.TInt && (g.Init.K == llvm.OAggr || g.Init.K == llvm.OStr || g.Init.K == llvm.OZero) {
			o.tab = make([]uint64, g.T.N)
			o.esz = g.T.Elem.Size()
			o.cells = nil
			switch g.Init.K {
			case llvm.OAggr:
				for i, e := range g.Init.Elts {
					o.tab[i] = e.I
				}
			case llvm.OStr:
				for i := 0; i < len(g.Init.Str); i++ {
					o.tab[i] = uint64(g.Init.Str[i])
				}
			}
			return CPtr{Obj: o}
		}
	} else {
		x.cm.globals[name] = o
	}
	x.cinit(o, 0, g.T, g.Init)
	return CPtr{Obj: o}
}

func (x *Path) cinit(o *CObj, off int64, t *llvm.Type, v *llvm.Opnd) {
	switch v.K {
	case llvm.OZero:
		for i := int64(0); i < int64(t.Size()); i++ {
			o.cells[off+i] = ccell{smt.BVc(8, 0), 0, 1}
		}
		return
	case llvm.OUndef:
		return
	case llvm.OStr:
		for i := 0; i < len(v.Str); i++ {
			o.cells[off+int64(i)] = ccell{smt.BVc(8, uint64(v.Str[i])), 0, 1}
		}
		return
	case llvm.OAggr:
		for i := range v.Elts {
			e := &v.Elts[i]
			var eo int64
			if t.K == llvm.TStruct {
				eo = int64(t.Offset(i))
			} else {
				eo = int64(i) * int64(t.Elem.Size())
			}
			x.cinit(o, off+eo, e.T, e)
		}
		return
	}
	val := x.copnd(nil, v)
	x.rawStore(o, off, val, t.Size())
}

// ---- loads and stores

func (x *Path) rawStore(o *CObj, off int64, v Value, n int) {
	if t, ok := v.(*smt.Term); ok && t.S.K == smt.KBV && n == 1 {
		if t.S.W < 8 {
			v = x.c.Zext(t, 8)
		}
		o.cells[off] = ccell{v, 0, 1}
		return
	}
	for i := 0; i < n; i++ {
		o.cells[off+int64(i)] = ccell{v, uint8(i), uint8(n)}
	}
}

// access checks that n bytes at p can be accessed and returns a concrete offset.
func (x *Path) access(pv Value, n int, what string) (*CObj, int64) {
	p, ok := pv.(CPtr)
	if !ok {
		if _, und := pv.(Undef); und {
			x.cmemErr(what + " through an uninitialised pointer")
		}
		if isNilPtr(pv) {
			x.cmemErr(what + " through a null pointer")
		}
		panic(unsupported(fmt.Sprintf("C %s through %T", what, pv)))
	}
	if p.Obj == nil {
		x.cmemErr(what + " through a null pointer")
	}
	if p.Obj.freed {
		if p.Obj.stack {
			x.cmemErr(what + " of a dead stack variable")
		}
		x.cmemErr(what + " after free")
	}
	if p.Sym != nil {
		in := x.c.Cmp(smt.OUle, x.c.Bin(smt.OAdd, p.Sym, smt.BVc(64, uint64(p.Off))), smt.BVc(64, uint64(p.Obj.size-int64(n))))
		if !x.branch(in) {
			x.cmemErr(what + " out of bounds of " + p.Obj.name)
		}
		return p.Obj, p.Off + int64(x.concretizeParts(p.Sym))
	}
	if p.Off < 0 || p.Off+int64(n) > p.Obj.size {
		x.cmemErr(fmt.Sprintf("%s out of bounds of %s object", what, p.Obj.name))
	}
	return p.Obj, p.Off
}

// concretizeParts makes a term concrete by forking on the values of its
// largest one-variable parts first.
func (x *Path) concretizeParts(t *smt.Term) uint64 {
	if t.IsConst() {
		return t.K
	}
	r := x.narrow(t)
	if r.IsConst() {
		return r.K
	}
	return x.concretize(r)
}

// narrow replaces t by a constant when its variable's remaining domain gives it
// only one value.
func (x *Path) narrow(t *smt.Term) *smt.Term {
	v := t.SingleVar()
	if v == nil {
		return t
	}
	d := x.dom[v]
	if d == nil {
		return t
	}
	n := uint64(1) << v.S.W
	first := true
	var val uint64
	for k := uint64(0); k < n; k++ {
		if d[k>>6]>>(k&63)&1 == 0 {
			continue
		}
		r := t.At(k)
		if first {
			val, first = r, false
		} else if r != val {
			return t
		}
	}
	if first {
		return t
	}
	return smt.Const(t.S, val)
}

// singleParts reduces a many-variable index to at most one variable by fixing
// the values of its other one-variable parts.
func (x *Path) singleParts(t *smt.Term) *smt.Term {
	if t.IsConst() || t.SingleVar() != nil {
		return t
	}
	var parts []*smt.Term
	seen := map[*smt.Term]bool{}
	var walk func(u *smt.Term)
	walk = func(u *smt.Term) {
		if u == nil || seen[u] || u.IsConst() {
			return
		}
		seen[u] = true
		if u.SingleVar() != nil {
			parts = append(parts, u)
			return
		}
		walk(u.A)
		walk(u.B)
		walk(u.C)
	}
	walk(t)
	if len(parts) < 2 {
		return t
	}
	// fix the parts of the older variables, keep the newest
	newest := parts[0]
	for _, p := range parts {
		if p.SingleVar().ID > newest.SingleVar().ID {
			newest = p
		}
	}
	sub := map[*smt.Term]*smt.Term{}
	for _, p := range parts {
		if p.SingleVar() != newest.SingleVar() {
			sub[p] = smt.Const(p.S, x.concretize(p))
		}
	}
	return x.subst(t, sub)
}

func hasTable(t *smt.Term, depth int) bool {
	if t == nil || depth == 0 {
		return false
	}
	return t.Op == smt.OTable || hasTable(t.A, depth-1) || hasTable(t.B, depth-1) || hasTable(t.C, depth-1)
}

// singlePair keeps at most one variable in a comparison of parser state (only
// when tokens are symbolic): the parts of the older tokens are fixed.
func (x *Path) singlePair(a, b *smt.Term) (*smt.Term, *smt.Term) {
	if a.IsConst() && b.SingleVar() != nil || b.IsConst() && a.SingleVar() != nil || a.IsConst() && b.IsConst() {
		return a, b
	}
	if v := a.SingleVar(); v != nil && v == b.SingleVar() {
		return a, b
	}
	if (x.lexMode == nil || x.lexMode.fn == nil) && !hasTable(a, 12) && !hasTable(b, 12) {
		return a, b
	}
	a, b = x.narrow(x.singleParts(a)), x.narrow(x.singleParts(b))
	va, vb := a.SingleVar(), b.SingleVar()
	if va != nil && vb != nil && va != vb {
		if va.ID < vb.ID {
			a = smt.Const(a.S, x.concretize(a))
		} else {
			b = smt.Const(b.S, x.concretize(b))
		}
	}
	return a, b
}

func (x *Path) subst(t *smt.Term, sub map[*smt.Term]*smt.Term) *smt.Term {
	if t == nil || t.IsConst() {
		return t
	}
	if r, ok := sub[t]; ok {
		return r
	}
	a, b := x.subst(t.A, sub), x.subst(t.B, sub)
	var r *smt.Term
	c := x.c
	switch t.Op {
	case smt.OAdd, smt.OSub, smt.OMul, smt.OBAnd, smt.OBOr, smt.OBXor, smt.OShl, smt.OLshr, smt.OAshr:
		r = c.Bin(t.Op, a, b)
	case smt.OZext:
		r = c.Zext(a, int(t.S.W))
	case smt.OSext:
		r = c.Sext(a, int(t.S.W))
	case smt.OTable:
		r = c.Tab(t.T, a)
	case smt.OExtract:
		r = c.Extract(a, int(t.K>>8), int(t.K&255))
	default:
		r = smt.Const(t.S, x.concretize(t))
	}
	sub[t] = r
	return r
}

func (x *Path) cload(pv Value, n int, t *llvm.Type) Value {
	if p, ok := pv.(CPtr); ok && p.Sym != nil && p.Obj != nil && !p.Obj.freed {
		p.Sym = x.narrow(x.singleParts(p.Sym))
		if p.Sym.IsConst() {
			p = CPtr{Obj: p.Obj, Off: p.Off + int64(p.Sym.K)}
		}
		pv = p
		if p.Sym != nil && p.Obj.tab != nil && p.Obj.esz == n && p.Sym.SingleVar() != nil {
			off := x.c.Bin(smt.OAdd, p.Sym, smt.BVc(64, uint64(p.Off)))
			in := x.c.Cmp(smt.OUle, off, smt.BVc(64, uint64(p.Obj.size-int64(n))))
			if !x.branch(in) {
				x.cmemErr("read out of bounds of " + p.Obj.name)
			}
			if p.Obj.btab == nil {
				tb := &smt.Table{W: uint8(n * 8), Vals: make([]uint64, p.Obj.size)}
				for i, v := range p.Obj.tab {
					tb.Vals[i*n] = smt.Const(smt.BV(n*8), v).K
				}
				p.Obj.btab = x.e.internTable(tb)
			}
			return x.narrow(x.c.Tab(p.Obj.btab, off))
		}
	}
	o, off := x.access(pv, n, "read")
	if x.cm.watch != nil {
		x.watchAccess(o, "r")
	}
	if o.tab != nil {
		if o.esz == n && off%int64(n) == 0 {
			return smt.BVc(n*8, o.tab[off/int64(n)])
		}
		if n < o.esz || n > o.esz {
			panic(unsupported("odd load from table"))
		}
	}
	c0 := o.cells[off]
	if c0.v == nil {
		all := true
		for i := 1; i < n; i++ {
			if o.cells[off+int64(i)].v != nil {
				all = false
			}
		}
		if all {
			return Undef{}
		}
	}
	if n == 1 && c0.n == 1 {
		return c0.v
	}
	if c0.i == 0 && int(c0.n) == n {
		whole := true
		for i := 1; i < n; i++ {
			c := o.cells[off+int64(i)]
			if int(c.i) != i || int(c.n) != n || c.v != c0.v {
				whole = false
				break
			}
		}
		if whole {
			return x.ccoerce(c0.v, n, t)
		}
	}
	// combine bytes
	var r *smt.Term
	for i := 0; i < n; i++ {
		c := o.cells[off+int64(i)]
		var b *smt.Term
		switch v := c.v.(type) {
		case *smt.Term:
			if v.S.K == smt.KFP {
				panic(unsupported("partial read of a float"))
			}
			if c.n == 1 {
				b = v
			} else {
				b = x.c.Extract(v, int(c.i)*8+7, int(c.i)*8)
			}
		case nil:
			return Undef{}
		case Undef:
			return Undef{}
		case CPtr:
			if isNilPtr(v) {
				b = smt.BVc(8, 0)
			} else {
				panic(unsupported("partial read of a pointer"))
			}
		default:
			panic(unsupported(fmt.Sprintf("partial read of %T", v)))
		}
		if r == nil {
			r = b
		} else {
			r = x.c.Concat(b, r)
		}
	}
	return x.ccoerce(r, n, t)
}

// ccoerce adapts a stored value to the loaded type.
func (x *Path) ccoerce(v Value, n int, t *llvm.Type) Value {
	if t == nil {
		return v
	}
	switch t.K {
	case llvm.TPtr:
		if u, ok := v.(*smt.Term); ok {
			if u.IsConst() {
				return CPtr{Off: int64(u.K)}
			}
			panic(unsupported("pointer from symbolic bytes"))
		}
	case llvm.TInt:
		if u, ok := v.(*smt.Term); ok {
			if u.S.K == smt.KFP {
				if u.IsConst() {
					return smt.BVc(n*8, u.K)
				}
				panic(unsupported("float read as integer"))
			}
			if t.W < int(u.S.W) {
				return x.c.Extract(u, t.W-1, 0)
			}
			return u
		}
	case llvm.TDouble:
		if u, ok := v.(*smt.Term); ok && u.S.K == smt.KBV {
			return x.c.FFromBits(u, smt.F64)
		}
		if isNilPtr(v) {
			return smt.Fc(0)
		}
	}
	return v
}

func (x *Path) cstore(pv, v Value, n int) {
	o, off := x.access(pv, n, "write")
	if o.ro {
		x.cmemErr("write to constant " + o.name)
	}
	if x.cm.watch != nil {
		x.watchAccess(o, "w")
	}
	x.rawStore(o, off, v, n)
}

func (x *Path) watchAccess(o *CObj, kind string) {
	if o.heap && o.id >= x.cm.watchFrom || o.stack || o.ro {
		return
	}
	n := "c:" + o.name
	if o.heap {
		n = fmt.Sprintf("heap:%d", o.id)
	}
	x.cm.watch[kind+":"+n] = true
	x.event(kind, n)
}

func (x *Path) ccopy(dst, src Value, n int64, move bool) {
	if n == 0 {
		return
	}
	so, soff := x.access(src, int(n), "read")
	do, doff := x.access(dst, int(n), "write")
	if so == do && !move && soff < doff+n && doff < soff+n && soff != doff {
		x.cmemErr("overlapping memcpy")
	}
	tmp := make([]ccell, n)
	if so.tab != nil {
		for i := range tmp {
			w := so.tab[(soff+int64(i))/int64(so.esz)]
			sh := uint((soff + int64(i)) % int64(so.esz) * 8)
			tmp[i] = ccell{smt.BVc(8, w>>sh), 0, 1}
		}
	} else {
		copy(tmp, so.cells[soff:soff+n])
	}
	copy(do.cells[doff:], tmp)
	if x.cm.watch != nil {
		x.watchAccess(so, "r")
		x.watchAccess(do, "w")
	}
}

// cbyte reads one byte as a term.
func (x *Path) cbyte(p CPtr, i int64) *smt.Term {
	q := p
	q.Off += i
	v := x.cload(q, 1, nil)
	t, ok := v.(*smt.Term)
	if !ok {
		if _, und := v.(Undef); und {
			x.cmemErr("read of uninitialised memory")
		}
		panic(unsupported(fmt.Sprintf("byte of %T", v)))
	}
	return t
}

// cstr reads a C string.
func (x *Path) cstr(pv Value) Str {
	p, ok := pv.(CPtr)
	if !ok || p.Obj == nil {
		x.cmemErr("string read through a null pointer")
	}
	if p.Sym != nil {
		p = CPtr{Obj: p.Obj, Off: p.Off + int64(x.concretizeParts(p.Sym))}
	}
	var b []*smt.Term
	for i := int64(0); ; i++ {
		t := x.cbyte(p, i)
		if t.IsConst() {
			if t.K == 0 {
				break
			}
		} else if x.branch(x.c.Eq(t, smt.BVc(8, 0))) {
			break
		}
		b = append(b, t)
	}
	return mkStr(b)
}

func (x *Path) cputStr(p CPtr, s Str, nul bool) {
	for i := 0; i < s.Len(); i++ {
		q := p
		q.Off += int64(i)
		x.cstore(q, s.At(i), 1)
	}
	if nul {
		q := p
		q.Off += int64(s.Len())
		x.cstore(q, smt.BVc(8, 0), 1)
	}
}

func (x *Path) newCStr(s Str) CPtr {
	p := x.cmalloc(int64(s.Len())+1, false)
	for i := 0; i < s.Len(); i++ {
		p.Obj.cells[i] = ccell{s.At(i), 0, 1}
	}
	p.Obj.cells[s.Len()] = ccell{smt.BVc(8, 0), 0, 1}
	return p
}

// ---- access from Go

func (x *Path) cLoadGo(p CPtr, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if s, ok := scalarSort(u); ok {
			n := 1
			if s.K != smt.KBool {
				n = int(s.W) / 8
			}
			v := x.cload(p, n, nil)
			if _, und := v.(Undef); und {
				x.cmemErr("Go reads uninitialised native memory")
			}
			if tm, ok := v.(*smt.Term); ok && tm.S != s {
				if s.K == smt.KFP && tm.S.K == smt.KBV {
					return x.c.FFromBits(tm, s)
				}
				panic(unsupported("Go load of another kind from native memory"))
			}
			return v
		}
		if u.Kind() == types.UnsafePointer {
			return x.cload(p, 8, &llvm.Type{K: llvm.TPtr})
		}
	case *types.Pointer:
		v := x.cload(p, 8, &llvm.Type{K: llvm.TPtr})
		if _, und := v.(Undef); und {
			x.cmemErr("Go reads uninitialised native memory")
		}
		return v
	case *types.Array:
		r := make(Array, u.Len())
		sz := x.e.sizes.Sizeof(u.Elem())
		for i := range r {
			r[i] = x.cLoadGo(CPtr{p.Obj, p.Off + int64(i)*sz, p.Sym}, u.Elem())
		}
		return r
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			r[i] = x.cLoadGo(CPtr{p.Obj, p.Off + x.e.fieldOffset(u, i), p.Sym}, u.Field(i).Type())
		}
		return r
	}
	panic(unsupported("Go load of " + t.String() + " from native memory"))
}

func (x *Path) cStoreGo(p CPtr, v Value, t types.Type) {
	switch v := v.(type) {
	case *smt.Term:
		n := 1
		if v.S.K != smt.KBool {
			n = int(v.S.W) / 8
		}
		x.cstore(p, v, n)
		return
	case CPtr, GPtr:
		if g, ok := v.(GPtr); ok && g.P == nil {
			x.cstore(p, CPtr{}, 8)
			return
		}
		x.cstore(p, v, 8)
		return
	}
	panic(unsupported(fmt.Sprintf("Go store of %T to native memory", v)))
}

func (x *Path) cPtrEq(a, b CPtr) *smt.Term {
	if a.Obj != b.Obj {
		return smt.False
	}
	return x.c.Eq(x.coff(a), x.coff(b))
}

func (x *Path) coff(p CPtr) *smt.Term {
	t := smt.BVc(64, uint64(p.Off))
	if p.Sym != nil {
		t = x.c.Bin(smt.OAdd, p.Sym, t)
	}
	return t
}

func (x *Path) cAdd(p CPtr, d *smt.Term) CPtr {
	if d.IsConst() {
		return CPtr{p.Obj, p.Off + d.Int(), p.Sym}
	}
	s := d
	if p.Sym != nil {
		s = x.c.Bin(smt.OAdd, p.Sym, d)
	}
	if s.IsConst() {
		return CPtr{p.Obj, p.Off + s.Int(), nil}
	}
	return CPtr{p.Obj, p.Off, s}
}

// ---- the C interpreter

type cframe struct {
	f      *llvm.Func
	regs   []Value
	stack  []*CObj
	params []Value
}

func (x *Path) copnd(fr *cframe, o *llvm.Opnd) Value {
	switch o.K {
	case llvm.OReg:
		return fr.regs[o.Reg]
	case llvm.OInt:
		w := o.T.W
		if w == 1 {
			return smt.Bc(o.I&1 == 1)
		}
		return smt.BVc(w, o.I)
	case llvm.OFP:
		if o.T.K == llvm.TFloat {
			return smt.Const(smt.F32, uint64(math.Float32bits(float32(math.Float64frombits(o.I)))))
		}
		return smt.Const(smt.F64, o.I)
	case llvm.ONull:
		return CPtr{}
	case llvm.OUndef:
		return Undef{}
	case llvm.OZero:
		switch o.T.K {
		case llvm.TPtr:
			return CPtr{}
		case llvm.TDouble:
			return smt.Fc(0)
		case llvm.TInt:
			return smt.BVc(o.T.W, 0)
		}
	case llvm.OGlobal:
		return x.cglobal(o.Name)
	case llvm.OExpr:
		return x.ceval(fr, o.Expr)
	}
	panic(unsupported("C operand"))
}

func (x *Path) cterm(v Value, what string) *smt.Term {
	switch t := v.(type) {
	case *smt.Term:
		return t
	case Undef:
		x.cmemErr("use of an uninitialised value (" + what + ")")
	case CPtr:
		if t.Obj == nil && t.Sym == nil {
			return smt.BVc(64, uint64(t.Off))
		}
	case nil:
		x.cmemErr("use of an uninitialised value (" + what + ")")
	}
	panic(unsupported(fmt.Sprintf("C %s on %T", what, v)))
}

func b1(t *smt.Term, c *smt.Ctx) *smt.Term { // i1 as Bool
	if t.S.K == smt.KBool {
		return t
	}
	return c.Not(c.Eq(t, smt.Const(t.S, 0)))
}

// CCall calls a native function by name.
func (x *Path) CCall(name string, args []Value) Value {
	if x.lexMode != nil && name == "yylex" && !(x.lexMode.once && x.lexMode.done) {
		return x.lexMode.next(x)
	}
	if nat, ok := cstubs[name]; ok && x.e.C.Funcs[name] == nil {
		return nat(x, args)
	}
	f := x.e.C.Funcs[name]
	if f == nil {
		panic(unsupported("C function " + name))
	}
	x.depth++
	if x.depth > x.e.Opt.MaxDepth {
		x.fail("bound", "call depth bound in "+name)
	}
	x.w.st.CFuncs[name]++
	if debugQ {
		x.stack = append(x.stack, name)
		defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	}
	fr := &cframe{f: f, regs: make([]Value, f.NRegs)}
	for i, r := range f.Params {
		if i < len(args) {
			fr.regs[r] = args[i]
		}
	}
	r := x.crun(fr)
	for _, o := range fr.stack {
		o.freed = true
		o.cells = nil
	}
	x.depth--
	return r
}

func (x *Path) crun(fr *cframe) Value {
	blk, prev := 0, -1
	var tmp [16]Value
	for {
		b := fr.f.Blocks[blk]
		if b.Phis > 0 {
			var vals []Value
			if b.Phis <= len(tmp) {
				vals = tmp[:b.Phis]
			} else {
				vals = make([]Value, b.Phis)
			}
			for i := 0; i < b.Phis; i++ {
				in := b.Instrs[i]
				ok := false
				for k, l := range in.Lbls {
					if l == prev {
						vals[i] = x.copnd(fr, &in.Args[k])
						ok = true
						break
					}
				}
				if !ok {
					panic(unsupported("phi"))
				}
			}
			for i := 0; i < b.Phis; i++ {
				fr.regs[b.Instrs[i].Dst] = vals[i]
			}
		}
		x.steps += len(b.Instrs)
		x.inTime()
		if x.steps > x.e.Opt.MaxSteps {
			x.fail("bound", "step bound in "+fr.f.Name)
		}
		next := -1
	instrs:
		for i := b.Phis; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			switch in.Op {
			case "br":
				if len(in.Args) == 0 {
					next = in.Lbls[0]
				} else {
					c := b1(x.cterm(x.copnd(fr, &in.Args[0]), "branch"), x.c)
					if x.branch(c) {
						next = in.Lbls[0]
					} else {
						next = in.Lbls[1]
					}
				}
				break instrs
			case "switch":
				t := x.cterm(x.copnd(fr, &in.Args[0]), "switch")
				next = -1
				if t.IsConst() {
					next = in.Lbls[0]
					for k, cv := range in.Cases {
						if smt.Const(t.S, cv) == t {
							next = in.Lbls[k+1]
							break
						}
					}
				} else {
					// group the cases by target
					var order []int
					by := map[int]*smt.Term{}
					for k, cv := range in.Cases {
						l := in.Lbls[k+1]
						e := x.c.Eq(t, smt.Const(t.S, cv))
						if o, ok := by[l]; ok {
							by[l] = x.c.Or(o, e)
						} else {
							by[l] = e
							order = append(order, l)
						}
					}
					for _, l := range order {
						if l == in.Lbls[0] {
							continue
						}
						if x.branch(by[l]) {
							next = l
							break
						}
					}
					if next < 0 {
						next = in.Lbls[0]
					}
				}
				break instrs
			case "ret":
				if len(in.Args) == 0 {
					return nil
				}
				return x.copnd(fr, &in.Args[0])
			case "unreachable":
				x.cmemErr("unreachable code reached in " + fr.f.Name)
			case "store":
				v := x.copnd(fr, &in.Args[0])
				x.cstore(x.copnd(fr, &in.Args[1]), x.ctoMem(v), in.Args[0].T.Size())
			case "alloca":
				n := int64(in.SrcT.Size())
				if len(in.Args) > 0 {
					n *= int64(x.concretize(x.cterm(x.copnd(fr, &in.Args[0]), "alloca")))
				}
				o := x.cm.newObj(n, "stack")
				o.stack = true
				fr.stack = append(fr.stack, o)
				fr.regs[in.Dst] = CPtr{Obj: o}
			case "call":
				args := make([]Value, len(in.Args))
				for k := range in.Args {
					args[k] = x.copnd(fr, &in.Args[k])
				}
				name := in.Callee.Name
				if in.Callee.K == llvm.OReg {
					p, ok := fr.regs[in.Callee.Reg].(CPtr)
					if !ok || p.Obj == nil || p.Obj.fn == "" {
						x.cmemErr("call through a bad function pointer")
					}
					name = p.Obj.fn
				}
				r := x.CCall(name, args)
				if in.Dst >= 0 {
					fr.regs[in.Dst] = r
				}
			default:
				fr.regs[in.Dst] = x.ceval(fr, in)
			}
		}
		if next < 0 {
			panic(unsupported("fell off C block"))
		}
		prev, blk = blk, next
	}
}

// ctoMem turns Boolean terms (i1) into bytes for memory.
func (x *Path) ctoMem(v Value) Value {
	if t, ok := v.(*smt.Term); ok && t.S.K == smt.KBool {
		return x.c.Ite(t, smt.BVc(8, 1), smt.BVc(8, 0))
	}
	return v
}

func (x *Path) toBV(t *smt.Term, w int) *smt.Term {
	if t.S.K == smt.KBool {
		return x.c.Ite(t, smt.BVc(w, 1), smt.BVc(w, 0))
	}
	return t
}

func (x *Path) ceval(fr *cframe, in *llvm.Instr) Value {
	c := x.c
	switch in.Op {
	case "load":
		n := in.T.Size()
		return x.cload(x.copnd(fr, &in.Args[0]), n, in.T)
	case "getelementptr":
		return x.cgep(fr, in)
	case "icmp":
		return x.cicmp(in.Pred, x.copnd(fr, &in.Args[0]), x.copnd(fr, &in.Args[1]))
	case "zext", "sext", "trunc":
		v := x.copnd(fr, &in.Args[0])
		if p, ok := v.(CPtr); ok && p.Obj != nil {
			return p
		}
		t := x.cterm(v, in.Op)
		w := in.T.W
		if t.S.K == smt.KBool {
			one := smt.BVc(w, 1)
			if in.Op == "sext" {
				one = smt.BVc(w, ^uint64(0))
			}
			return c.Ite(t, one, smt.BVc(w, 0))
		}
		switch in.Op {
		case "zext":
			return c.Zext(t, w)
		case "sext":
			return c.Sext(t, w)
		}
		if w == 1 {
			return b1(c.Bin(smt.OBAnd, t, smt.Const(t.S, 1)), c)
		}
		return c.Extract(t, w-1, 0)
	case "select":
		cd := b1(x.cterm(x.copnd(fr, &in.Args[0]), "select"), c)
		a, b := x.copnd(fr, &in.Args[1]), x.copnd(fr, &in.Args[2])
		if cd.IsConst() {
			if cd.IsTrue() {
				return a
			}
			return b
		}
		ta, oka := a.(*smt.Term)
		tb, okb := b.(*smt.Term)
		if oka && okb && ta.S.K != smt.KFP {
			return c.Ite(cd, ta, tb)
		}
		if x.branch(cd) {
			return a
		}
		return b
	case "ptrtoint":
		v := x.copnd(fr, &in.Args[0])
		if isNilPtr(v) {
			return smt.BVc(64, 0)
		}
		return v
	case "inttoptr":
		v := x.copnd(fr, &in.Args[0])
		if t, ok := v.(*smt.Term); ok {
			return CPtr{Off: int64(x.concretize(t))}
		}
		return v
	case "bitcast", "freeze":
		return x.copnd(fr, &in.Args[0])
	case "add", "sub":
		a, b := x.copnd(fr, &in.Args[0]), x.copnd(fr, &in.Args[1])
		pa, oka := a.(CPtr)
		pb, okb := b.(CPtr)
		if oka && pa.Obj == nil && pa.Sym == nil {
			a, oka = smt.BVc(64, uint64(pa.Off)), false
		}
		if okb && pb.Obj == nil && pb.Sym == nil {
			b, okb = smt.BVc(64, uint64(pb.Off)), false
		}
		if oka && okb && in.Op == "sub" {
			if pa.Obj != pb.Obj {
				x.cmemErr("difference of pointers into different objects")
			}
			return c.Bin(smt.OSub, x.coff(pa), x.coff(pb))
		}
		if oka && !okb {
			d := x.cterm(b, in.Op)
			if in.Op == "sub" {
				d = c.Neg(d)
			}
			return x.cAdd(pa, d)
		}
		if okb && !oka && in.Op == "add" {
			return x.cAdd(pb, x.cterm(a, in.Op))
		}
		op := smt.OAdd
		if in.Op == "sub" {
			op = smt.OSub
		}
		return c.Bin(op, x.cterm(a, in.Op), x.cterm(b, in.Op))
	case "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr":
		a, b := x.cterm(x.copnd(fr, &in.Args[0]), in.Op), x.cterm(x.copnd(fr, &in.Args[1]), in.Op)
		if a.S.K == smt.KBool {
			b = b1(b, c)
			switch in.Op {
			case "and":
				return c.And(a, b)
			case "or":
				return c.Or(a, b)
			case "xor":
				return c.Not(c.Eq(a, b))
			}
		}
		switch in.Op {
		case "udiv", "sdiv", "urem", "srem":
			if x.branch(c.Eq(b, smt.Const(b.S, 0))) {
				x.cmemErr("integer division by zero in C")
			}
		}
		return c.Bin(cbin[in.Op], a, b)
	case "fadd", "fsub", "fmul", "fdiv":
		a, b := x.cterm(x.copnd(fr, &in.Args[0]), in.Op), x.cterm(x.copnd(fr, &in.Args[1]), in.Op)
		return c.FBin(map[string]smt.Op{"fadd": smt.OFAdd, "fsub": smt.OFSub, "fmul": smt.OFMul, "fdiv": smt.OFDiv}[in.Op], a, b)
	case "fneg":
		return c.FNeg(x.cterm(x.copnd(fr, &in.Args[0]), in.Op))
	case "sitofp":
		return c.FFromS(x.cterm(x.copnd(fr, &in.Args[0]), in.Op), smt.F64)
	case "uitofp":
		return c.FFromU(x.cterm(x.copnd(fr, &in.Args[0]), in.Op), smt.F64)
	case "fcmp":
		a, b := x.cterm(x.copnd(fr, &in.Args[0]), in.Op), x.cterm(x.copnd(fr, &in.Args[1]), in.Op)
		un := c.Or(c.FIsNaN(a), c.FIsNaN(b))
		switch in.Pred {
		case "oeq":
			return c.FCmp(smt.OFEq, a, b)
		case "une":
			return c.Not(c.FCmp(smt.OFEq, a, b))
		case "one":
			return c.And(c.Not(un), c.Not(c.FCmp(smt.OFEq, a, b)))
		case "olt":
			return c.FCmp(smt.OFLt, a, b)
		case "ole":
			return c.FCmp(smt.OFLe, a, b)
		case "ogt":
			return c.FCmp(smt.OFLt, b, a)
		case "oge":
			return c.FCmp(smt.OFLe, b, a)
		case "uno":
			return un
		case "ord":
			return c.Not(un)
		}
	case "fptosi":
		return x.floatToInt(x.cterm(x.copnd(fr, &in.Args[0]), in.Op), in.T.W, true)
	case "fptoui":
		return x.floatToInt(x.cterm(x.copnd(fr, &in.Args[0]), in.Op), in.T.W, false)
	}
	panic(unsupported("C instruction " + in.Op + " " + in.Text))
}

var cbin = map[string]smt.Op{"mul": smt.OMul, "udiv": smt.OUDiv, "sdiv": smt.OSDiv, "urem": smt.OURem, "srem": smt.OSRem,
	"and": smt.OBAnd, "or": smt.OBOr, "xor": smt.OBXor, "shl": smt.OShl, "lshr": smt.OLshr, "ashr": smt.OAshr}

func (x *Path) cgep(fr *cframe, in *llvm.Instr) Value {
	base := x.copnd(fr, &in.Args[0])
	p, ok := base.(CPtr)
	if !ok {
		if _, und := base.(Undef); und || base == nil {
			x.cmemErr("arithmetic on an uninitialised pointer")
		}
		if isNilPtr(base) {
			p = CPtr{}
		} else {
			panic(unsupported(fmt.Sprintf("gep on %T", base)))
		}
	}
	t := in.SrcT
	for k := 1; k < len(in.Args); k++ {
		idx := x.cterm(x.copnd(fr, &in.Args[k]), "gep")
		if k > 1 && t.K == llvm.TStruct {
			i := int(idx.K)
			p.Off += int64(t.Offset(i))
			t = t.Fields[i]
			continue
		}
		if k > 1 {
			t = t.Elem
		}
		sz := uint64(t.Size())
		if idx.S.W < 64 {
			idx = x.c.Sext(idx, 64)
		}
		p = x.cAdd(p, x.c.Bin(smt.OMul, idx, smt.BVc(64, sz)))
	}
	return p
}

func (x *Path) cicmp(pred string, a, b Value) Value {
	c := x.c
	pa, oka := a.(CPtr)
	pb, okb := b.(CPtr)
	if oka && okb {
		if pa.Obj != nil && pa.Obj.freed && pa.Obj.heap || pb.Obj != nil && pb.Obj.freed && pb.Obj.heap {
			// comparing dangling pointers is harmless in practice
		}
		switch pred {
		case "eq":
			return x.cPtrEq(pa, pb)
		case "ne":
			return c.Not(x.cPtrEq(pa, pb))
		}
		if pa.Obj != pb.Obj {
			x.cmemErr("ordering of pointers into different objects")
		}
		a, b = x.coff(pa), x.coff(pb)
	}
	if _, und := a.(Undef); und {
		x.cmemErr("use of an uninitialised value (compare)")
	}
	if _, und := b.(Undef); und {
		x.cmemErr("use of an uninitialised value (compare)")
	}
	if oka != okb {
		// pointer against integer
		var p CPtr
		var t Value
		if oka {
			p, t = pa, b
		} else {
			p, t = pb, a
		}
		if tm, ok := t.(*smt.Term); ok && tm.IsConst() && tm.K == 0 && p.Obj != nil {
			switch pred {
			case "eq":
				return smt.False
			case "ne":
				return smt.True
			}
		}
		if g, ok := t.(GPtr); ok && g.P == nil {
			return smt.Bc((pred == "eq") == (p.Obj == nil))
		}
	}
	ta, tb := x.cterm(a, "compare"), x.cterm(b, "compare")
	if ta.S.K == smt.KBool || tb.S.K == smt.KBool {
		ta, tb = b1(ta, c), b1(tb, c)
	}
	ta, tb = x.singlePair(ta, tb)
	switch pred {
	case "eq":
		return c.Eq(ta, tb)
	case "ne":
		return c.Not(c.Eq(ta, tb))
	case "ult":
		return c.Cmp(smt.OUlt, ta, tb)
	case "ule":
		return c.Cmp(smt.OUle, ta, tb)
	case "ugt":
		return c.Cmp(smt.OUlt, tb, ta)
	case "uge":
		return c.Cmp(smt.OUle, tb, ta)
	case "slt":
		return c.Cmp(smt.OSlt, ta, tb)
	case "sle":
		return c.Cmp(smt.OSle, ta, tb)
	case "sgt":
		return c.Cmp(smt.OSlt, tb, ta)
	case "sge":
		return c.Cmp(smt.OSle, tb, ta)
	}
	panic(unsupported("icmp " + pred))
}

// ---- libc

func (x *Path) csize(v Value) int64 { return int64(x.concretize(x.cterm(v, "size"))) }

func cPtrOf(v Value) CPtr {
	p, ok := v.(CPtr)
	if !ok {
		return CPtr{}
	}
	return p
}

func bytesEq(x *Path, a, b *smt.Term) *smt.Term { return x.c.Eq(a, b) }

func (x *Path) lowerT(t *smt.Term) *smt.Term {
	up := x.c.Cmp(smt.OUlt, x.c.Bin(smt.OSub, t, smt.Const(t.S, 'A')), smt.Const(t.S, 26))
	return x.c.Ite(up, x.c.Bin(smt.OAdd, t, smt.Const(t.S, 32)), t)
}
func (x *Path) upperT(t *smt.Term) *smt.Term {
	lo := x.c.Cmp(smt.OUlt, x.c.Bin(smt.OSub, t, smt.Const(t.S, 'a')), smt.Const(t.S, 26))
	return x.c.Ite(lo, x.c.Bin(smt.OSub, t, smt.Const(t.S, 32)), t)
}

// strcmp by branching; returns a constant -1, 0 or 1.
func (x *Path) cstrcmp(a, b Value, n int64, fold bool) Value {
	p, q := cPtrOf(a), cPtrOf(b)
	for i := int64(0); n < 0 || i < n; i++ {
		s, t := x.cbyte(p, i), x.cbyte(q, i)
		if fold {
			s, t = x.lowerT(s), x.lowerT(t)
		}
		if !x.branch(x.c.Eq(s, t)) {
			if x.branch(x.c.Cmp(smt.OUlt, s, t)) {
				return smt.BVc(32, ^uint64(0))
			}
			return smt.BVc(32, 1)
		}
		if x.branch(x.c.Eq(s, smt.BVc(8, 0))) {
			break
		}
	}
	return smt.BVc(32, 0)
}

var cstubs map[string]func(x *Path, a []Value) Value

func init() {
	nop := func(r Value) func(x *Path, a []Value) Value {
		return func(x *Path, a []Value) Value { return r }
	}
	cstubs = map[string]func(x *Path, a []Value) Value{
		"malloc": func(x *Path, a []Value) Value { return x.cmalloc(x.csize(a[0]), false) },
		"calloc": func(x *Path, a []Value) Value { return x.cmalloc(x.csize(a[0])*x.csize(a[1]), true) },
		"realloc": func(x *Path, a []Value) Value {
			n := x.csize(a[1])
			p := cPtrOf(a[0])
			q := x.cmalloc(n, false)
			if p.Obj != nil {
				if p.Obj.freed || !p.Obj.heap || p.Off != 0 {
					x.cmemErr("realloc of a bad pointer")
				}
				copy(q.Obj.cells, p.Obj.cells)
				x.cfree(p)
			}
			return q
		},
		"reallocarray": func(x *Path, a []Value) Value {
			return cstubs["realloc"](x, []Value{a[0], x.c.Bin(smt.OMul, a[1].(*smt.Term), a[2].(*smt.Term))})
		},
		"free":   func(x *Path, a []Value) Value { x.cfree(a[0]); return nil },
		"strdup": func(x *Path, a []Value) Value { return x.newCStr(x.cstr(a[0])) },
		"strndup": func(x *Path, a []Value) Value {
			return x.newCStr(x.cstrn(a[0], x.csize(a[1])))
		},
		"strlen": func(x *Path, a []Value) Value { return smt.BVc(64, uint64(x.cstr(a[0]).Len())) },
		"strnlen": func(x *Path, a []Value) Value {
			return smt.BVc(64, uint64(x.cstrn(a[0], x.csize(a[1])).Len()))
		},
		"strcpy": func(x *Path, a []Value) Value {
			x.cputStr(cPtrOf(a[0]), x.cstr(a[1]), true)
			return a[0]
		},
		"stpcpy": func(x *Path, a []Value) Value {
			s := x.cstr(a[1])
			x.cputStr(cPtrOf(a[0]), s, true)
			return x.cAdd(cPtrOf(a[0]), smt.BVc(64, uint64(s.Len())))
		},
		"strcat": func(x *Path, a []Value) Value {
			n := x.cstr(a[0]).Len()
			x.cputStr(x.cAdd(cPtrOf(a[0]), smt.BVc(64, uint64(n))), x.cstr(a[1]), true)
			return a[0]
		},
		"strncat": func(x *Path, a []Value) Value {
			n := x.cstr(a[0]).Len()
			x.cputStr(x.cAdd(cPtrOf(a[0]), smt.BVc(64, uint64(n))), x.cstrn(a[1], x.csize(a[2])), true)
			return a[0]
		},
		"strncpy": func(x *Path, a []Value) Value {
			n := x.csize(a[2])
			s := x.cstrn(a[1], n)
			d := cPtrOf(a[0])
			x.cputStr(d, s, false)
			for i := int64(s.Len()); i < n; i++ {
				x.cstore(CPtr{d.Obj, d.Off + i, d.Sym}, smt.BVc(8, 0), 1)
			}
			return a[0]
		},
		"strcmp":      func(x *Path, a []Value) Value { return x.cstrcmp(a[0], a[1], -1, false) },
		"strncmp":     func(x *Path, a []Value) Value { return x.cstrcmp(a[0], a[1], x.csize(a[2]), false) },
		"strcasecmp":  func(x *Path, a []Value) Value { return x.cstrcmp(a[0], a[1], -1, true) },
		"strncasecmp": func(x *Path, a []Value) Value { return x.cstrcmp(a[0], a[1], x.csize(a[2]), true) },
		"memcmp": func(x *Path, a []Value) Value {
			n := x.csize(a[2])
			p, q := cPtrOf(a[0]), cPtrOf(a[1])
			for i := int64(0); i < n; i++ {
				s, t := x.cbyte(p, i), x.cbyte(q, i)
				if !x.branch(x.c.Eq(s, t)) {
					if x.branch(x.c.Cmp(smt.OUlt, s, t)) {
						return smt.BVc(32, ^uint64(0))
					}
					return smt.BVc(32, 1)
				}
			}
			return smt.BVc(32, 0)
		},
		"strstr": func(x *Path, a []Value) Value {
			h, n := x.cstr(a[0]), x.cstr(a[1])
			for i := 0; i+n.Len() <= h.Len(); i++ {
				if x.branch(x.strEq(h.Slice(i, i+n.Len()), n)) {
					return x.cAdd(cPtrOf(a[0]), smt.BVc(64, uint64(i)))
				}
			}
			return CPtr{}
		},
		"strchr": func(x *Path, a []Value) Value {
			h := x.cstr(a[0])
			ch := x.c.Extract(a[1].(*smt.Term), 7, 0)
			for i := 0; i < h.Len(); i++ {
				if x.branch(x.c.Eq(h.At(i), ch)) {
					return x.cAdd(cPtrOf(a[0]), smt.BVc(64, uint64(i)))
				}
			}
			if x.branch(x.c.Eq(ch, smt.BVc(8, 0))) {
				return x.cAdd(cPtrOf(a[0]), smt.BVc(64, uint64(h.Len())))
			}
			return CPtr{}
		},
		"strrchr": func(x *Path, a []Value) Value {
			h := x.cstr(a[0])
			ch := x.c.Extract(a[1].(*smt.Term), 7, 0)
			for i := h.Len() - 1; i >= 0; i-- {
				if x.branch(x.c.Eq(h.At(i), ch)) {
					return x.cAdd(cPtrOf(a[0]), smt.BVc(64, uint64(i)))
				}
			}
			return CPtr{}
		},
		"memchr": func(x *Path, a []Value) Value {
			n := x.csize(a[2])
			ch := x.c.Extract(a[1].(*smt.Term), 7, 0)
			for i := int64(0); i < n; i++ {
				if x.branch(x.c.Eq(x.cbyte(cPtrOf(a[0]), i), ch)) {
					return x.cAdd(cPtrOf(a[0]), smt.BVc(64, uint64(i)))
				}
			}
			return CPtr{}
		},
		"strspn":  func(x *Path, a []Value) Value { return x.cspan(a, true) },
		"strcspn": func(x *Path, a []Value) Value { return x.cspan(a, false) },
		"strpbrk": func(x *Path, a []Value) Value {
			n := int(x.cspan(a, false).(*smt.Term).K)
			if n == x.cstr(a[0]).Len() {
				return CPtr{}
			}
			return x.cAdd(cPtrOf(a[0]), smt.BVc(64, uint64(n)))
		},
		"memcpy":  func(x *Path, a []Value) Value { x.ccopy(a[0], a[1], x.csize(a[2]), false); return a[0] },
		"memmove": func(x *Path, a []Value) Value { x.ccopy(a[0], a[1], x.csize(a[2]), true); return a[0] },
		"memset": func(x *Path, a []Value) Value {
			n := x.csize(a[2])
			if n > 0 {
				o, off := x.access(a[0], int(n), "write")
				v := a[1].(*smt.Term)
				if v.S.W > 8 {
					v = x.c.Extract(v, 7, 0)
				}
				for i := int64(0); i < n; i++ {
					o.cells[off+i] = ccell{v, 0, 1}
				}
				if x.cm.watch != nil {
					x.watchAccess(o, "w")
				}
			}
			return a[0]
		},
		"tolower": func(x *Path, a []Value) Value { return x.lowerT(x.cterm(a[0], "tolower")) },
		"toupper": func(x *Path, a []Value) Value { return x.upperT(x.cterm(a[0], "toupper")) },
		"isdigit": func(x *Path, a []Value) Value {
			t := x.cterm(a[0], "isdigit")
			return x.toBV(x.c.Cmp(smt.OUlt, x.c.Bin(smt.OSub, t, smt.Const(t.S, '0')), smt.Const(t.S, 10)), 32)
		},
		"__errno_location": func(x *Path, a []Value) Value {
			if x.cm.errno == nil {
				x.cm.errno = x.cm.newObj(4, "errno")
				x.rawStore(x.cm.errno, 0, smt.BVc(32, 0), 4)
			}
			return CPtr{Obj: x.cm.errno}
		},
		"__ctype_b_loc": func(x *Path, a []Value) Value {
			if x.cm.ctypeP == nil {
				o := x.cm.newObj(384*2, "ctype")
				o.cells = nil
				o.ro = true
				o.tab = make([]uint64, 384)
				o.esz = 2
				for i := range o.tab {
					o.tab[i] = ctypeBits(i - 128)
				}
				x.cm.ctype = o
				p := x.cm.newObj(8, "ctype pointer")
				x.rawStore(p, 0, CPtr{Obj: o, Off: 256}, 8)
				p.ro = true
				x.cm.ctypeP = p
			}
			return CPtr{Obj: x.cm.ctypeP}
		},
		"fprintf": nop(smt.BVc(32, 0)), "printf": nop(smt.BVc(32, 0)), "puts": nop(smt.BVc(32, 0)),
		"fputs": nop(smt.BVc(32, 0)), "putchar": nop(smt.BVc(32, 0)), "fputc": nop(smt.BVc(32, 0)), "fflush": nop(smt.BVc(32, 0)),
		"fwrite": func(x *Path, a []Value) Value { return a[2] },
		"isatty": nop(smt.BVc(32, 0)), "fileno": nop(smt.BVc(32, 0)), "ferror": nop(smt.BVc(32, 0)), "clearerr": nop(nil),
		"getc": nop(smt.BVc(32, ^uint64(0))), "fread": nop(smt.BVc(64, 0)),
		"exit":     func(x *Path, a []Value) Value { x.violate("native code calls exit"); return nil },
		"abort":    func(x *Path, a []Value) Value { x.violate("native code calls abort"); return nil },
		"snprintf": func(x *Path, a []Value) Value { return x.csnprintf(a[0], x.csize(a[1]), a[2], a[3:]) },
		"sprintf":  func(x *Path, a []Value) Value { return x.csnprintf(a[0], 1<<20, a[1], a[2:]) },
		"strtod":   func(x *Path, a []Value) Value { return x.cstrtod(a[0], a[1]) },
		"atof":     func(x *Path, a []Value) Value { return x.cstrtod(a[0], CPtr{}) },
		"pow": func(x *Path, a []Value) Value {
			p, q := a[0].(*smt.Term), a[1].(*smt.Term)
			if p.IsConst() && q.IsConst() {
				return smt.Fc(math.Pow(p.Float(), q.Float()))
			}
			panic(unsupported("symbolic pow"))
		},
		"__assert_fail":        func(x *Path, a []Value) Value { x.violate("native assertion failed"); return nil },
		"pthread_mutex_lock":   func(x *Path, a []Value) Value { x.clock(a[0], true); return smt.BVc(32, 0) },
		"pthread_mutex_unlock": func(x *Path, a []Value) Value { x.clock(a[0], false); return smt.BVc(32, 0) },
	}
	for _, n := range []string{"memcpy", "memmove"} {
		f := cstubs[n]
		cstubs["llvm."+n+".p0.p0.i64"] = f
	}
	cstubs["llvm.memset.p0.i64"] = cstubs["memset"]
	cstubs["llvm.fabs.f64"] = func(x *Path, a []Value) Value { return x.c.FAbs(a[0].(*smt.Term)) }
}

func (x *Path) clock(p Value, lock bool) {
	c := cPtrOf(p)
	if c.Obj == nil {
		x.cmemErr("mutex at null")
	}
	k := "unlock"
	if lock {
		k = "lock"
	}
	if x.cm.watch != nil {
		x.events = append(x.events, Event{k, fmt.Sprintf("c:%s+%d", c.Obj.name, c.Off)})
	}
}

func (x *Path) cspan(a []Value, in bool) Value {
	s, set := x.cstr(a[0]), x.cstr(a[1])
	for i := 0; i < s.Len(); i++ {
		m := smt.False
		for k := 0; k < set.Len(); k++ {
			m = x.c.Or(m, x.c.Eq(s.At(i), set.At(k)))
		}
		if x.branch(m) != in {
			return smt.BVc(64, uint64(i))
		}
	}
	return smt.BVc(64, uint64(s.Len()))
}

func (x *Path) cstrn(pv Value, n int64) Str {
	p := cPtrOf(pv)
	if p.Obj == nil && n > 0 {
		x.cmemErr("string read through a null pointer")
	}
	var b []*smt.Term
	for i := int64(0); i < n; i++ {
		t := x.cbyte(p, i)
		if x.branch(x.c.Eq(t, smt.BVc(8, 0))) {
			break
		}
		b = append(b, t)
	}
	return mkStr(b)
}

func ctypeBits(c int) uint64 {
	if c < 0 || c > 127 {
		return 0
	}
	var r uint64
	up, lo, dg := c >= 'A' && c <= 'Z', c >= 'a' && c <= 'z', c >= '0' && c <= '9'
	set := func(b bool, v uint64) {
		if b {
			r |= v
		}
	}
	set(up, 1<<8)
	set(lo, 1<<9)
	set(up || lo, 1<<10)
	set(dg, 1<<11)
	set(dg || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F', 1<<12)
	set(c == ' ' || c >= 9 && c <= 13, 1<<13)
	set(c >= 32 && c < 127, 1<<14)
	set(c > 32 && c < 127, 1<<15)
	set(c == ' ' || c == 9, 1<<0)
	set(c < 32 || c == 127, 1<<1)
	set(c > 32 && c < 127 && !up && !lo && !dg, 1<<2)
	set(up || lo || dg, 1<<3)
	return r
}

func (x *Path) csnprintf(dst Value, n int64, fmtp Value, args []Value) Value {
	f := x.cstr(fmtp)
	if f.B != nil {
		panic(unsupported("symbolic printf format"))
	}
	out := Str{}
	ai := 0
	for i := 0; i < len(f.S); i++ {
		if f.S[i] != '%' {
			out = catStr(out, Str{S: f.S[i : i+1]})
			continue
		}
		j := i + 1
		for j < len(f.S) && strings.IndexByte("0123456789.-+ #lhzjt*", f.S[j]) >= 0 {
			j++
		}
		if j >= len(f.S) {
			break
		}
		spec := f.S[i+1 : j]
		var arg Value
		if f.S[j] != '%' {
			if ai >= len(args) {
				x.cmemErr("printf with too few arguments")
			}
			arg = args[ai]
			ai++
		}
		switch f.S[j] {
		case '%':
			out = catStr(out, Str{S: "%"})
		case 's':
			if strings.HasPrefix(spec, ".") {
				if spec == ".*" {
					m := int64(int32(x.concretize(arg.(*smt.Term))))
					arg = args[ai]
					ai++
					out = catStr(out, x.cstrn(arg, m))
				} else {
					m, _ := strconv.Atoi(spec[1:])
					out = catStr(out, x.cstrn(arg, int64(m)))
				}
				break
			}
			if spec != "" {
				panic(unsupported("printf %" + spec + "s"))
			}
			out = catStr(out, x.cstr(arg))
		case 'c':
			out = catStr(out, mkStr([]*smt.Term{x.c.Extract(arg.(*smt.Term), 7, 0)}))
		case 'd', 'i', 'u', 'x':
			t := arg.(*smt.Term)
			k := smt.Const(t.S, x.concretize(t))
			g := strings.Trim(spec, "lhzjt")
			switch f.S[j] {
			case 'd', 'i':
				out = catStr(out, Str{S: fmt.Sprintf("%"+g+"d", k.Int())})
			case 'u':
				out = catStr(out, Str{S: fmt.Sprintf("%"+g+"d", k.K)})
			case 'x':
				out = catStr(out, Str{S: fmt.Sprintf("%"+g+"x", k.K)})
			}
		default:
			panic(unsupported("printf %" + spec + string(f.S[j])))
		}
		i = j
	}
	if n > 0 {
		w := out
		if int64(w.Len()) > n-1 {
			w = w.Slice(0, int(n-1))
		}
		x.cputStr(cPtrOf(dst), w, true)
	}
	return smt.BVc(32, uint64(out.Len()))
}

// cstrtod follows the C grammar of decimal floats; the value of a symbolic
// digit string is an unconstrained double that is the same for the same text.
func (x *Path) cstrtod(p, endp Value) Value {
	setEnd := func(n int) {
		if e := cPtrOf(endp); e.Obj != nil {
			x.cstore(e, x.cAdd(cPtrOf(p), smt.BVc(64, uint64(n))), 8)
		}
	}
	s := x.cstr(p)
	if x.strtodVal != nil {
		v := x.strtodVal
		x.strtodVal = nil
		setEnd(s.Len())
		return v
	}
	if s.B == nil {
		if v := x.numText[s.S]; v != nil {
			setEnd(s.Len())
			return v
		}
	}
	is := func(i int, lo, hi byte) bool {
		if i >= s.Len() {
			return false
		}
		b := s.At(i)
		return x.branch(x.c.Cmp(smt.OUle, x.c.Bin(smt.OSub, b, smt.BVc(8, uint64(lo))), smt.BVc(8, uint64(hi-lo))))
	}
	i := 0
	for is(i, ' ', ' ') || is(i, 9, 13) {
		i++
	}
	start := i
	if is(i, '+', '+') || is(i, '-', '-') {
		i++
	}
	if is(i, 'i', 'i') || is(i, 'I', 'I') || is(i, 'n', 'n') || is(i, 'N', 'N') {
		panic(unsupported("strtod of inf/nan text"))
	}
	nd := 0
	d0 := i
	for is(i, '0', '9') {
		i++
		nd++
	}
	if nd == 1 && is(d0, '0', '0') && (is(i, 'x', 'x') || is(i, 'X', 'X')) && (is(i+1, '0', '9') || is(i+1, 'a', 'f') || is(i+1, 'A', 'F')) {
		panic(unsupported("strtod of hexadecimal text"))
	}
	if is(i, '.', '.') {
		j := i + 1
		k := 0
		for is(j, '0', '9') {
			j++
			k++
		}
		if nd+k > 0 {
			i = j
			nd += k
		}
	}
	if nd == 0 {
		setEnd(0)
		return smt.Fc(0)
	}
	if is(i, 'e', 'e') || is(i, 'E', 'E') {
		j := i + 1
		if is(j, '+', '+') || is(j, '-', '-') {
			j++
		}
		k := j
		for is(j, '0', '9') {
			j++
		}
		if j > k {
			i = j
		}
	}
	setEnd(i)
	return x.floatOfText(s.Slice(start, i))
}

// floatOfText is the double a decimal numeral denotes.
func (x *Path) floatOfText(s Str) *smt.Term {
	if s.B == nil {
		if v := x.numText[s.S]; v != nil {
			return v
		}
	}
	b := s.Bytes()
	nb := make([]*smt.Term, len(b))
	for i := range b {
		nb[i] = x.narrow(b[i])
	}
	s = mkStr(nb)
	if s.B == nil {
		f, err := strconv.ParseFloat(s.S, 64)
		if err != nil && !math.IsInf(f, 0) {
			panic(unsupported("float text " + s.S))
		}
		return smt.Fc(f)
	}
	neg := false
	if s.Len() > 1 {
		if s.At(0).IsConst() && (s.At(0).K == '+' || s.At(0).K == '-') {
			neg = s.At(0).K == '-'
			s = s.Slice(1, s.Len())
		}
	}
	// short plain integers are exact
	plain := s.Len() <= 9
	for i := 0; i < s.Len() && plain; i++ {
		t := s.At(i)
		if !x.feasibleDigitOnly(t) {
			plain = false
		}
	}
	var v *smt.Term
	if plain {
		acc := smt.BVc(64, 0)
		for i := 0; i < s.Len(); i++ {
			d := x.c.Zext(x.c.Bin(smt.OSub, s.At(i), smt.BVc(8, '0')), 64)
			acc = x.c.Bin(smt.OAdd, x.c.Bin(smt.OMul, acc, smt.BVc(64, 10)), d)
		}
		v = x.c.FFromS(acc, smt.F64)
	} else {
		key := ""
		for _, t := range s.Bytes() {
			if t.IsConst() {
				key += fmt.Sprintf("c%d,", t.K)
			} else {
				key += fmt.Sprintf("t%d,", t.ID)
			}
		}
		v = x.strtodSeen[key]
		if v == nil {
			v = x.NewVar("strtod", smt.F64)
			x.strtodSeen[key] = v
			x.assume(x.c.Not(x.c.FIsNaN(v)))
			x.assume(x.c.FCmp(smt.OFLe, smt.Fc(0), v))
		}
	}
	if neg {
		v = x.c.FNeg(v)
	}
	return v
}

// feasibleDigitOnly says whether t can only be a digit on this path.
func (x *Path) feasibleDigitOnly(t *smt.Term) bool {
	c := x.c.Cmp(smt.OUlt, x.c.Bin(smt.OSub, t, smt.BVc(8, '0')), smt.BVc(8, 10))
	if c.IsConst() {
		return c.K != 0
	}
	return x.domKnowsConst(c) == yes
}

// ---- token-level parsing

// lexStub replaces the scanner by a sequence of tokens.
type lexStub struct {
	toks []lexTok
	i    int
	fn   *Closure
	end  bool
	once bool // the scanner is real again after the last token
	done bool
}

type lexTok struct {
	code  *smt.Term
	text  Str
	hasS  bool
	apply func(x *Path)
}

func (l *lexStub) next(x *Path) Value {
	if l.fn != nil && !l.end {
		r := x.call(l.fn, []Value{i64(l.i)}).(Tuple)
		code := term(r[0])
		if code.IsConst() && code.K == 0 {
			l.end = true
		} else {
			txt := str(r[1])
			l.toks = append(l.toks, lexTok{code: x.c.Extract(code, 31, 0), text: txt, hasS: txt.Len() > 0})
		}
	}
	if l.i >= len(l.toks) {
		l.done = true
		return smt.BVc(32, 0)
	}
	t := l.toks[l.i]
	l.i++
	if t.hasS {
		p := x.newCStr(t.text)
		x.cstore(x.cglobal("yylval"), p, 8)
	}
	if t.apply != nil {
		t.apply(x)
	}
	return t.code
}
