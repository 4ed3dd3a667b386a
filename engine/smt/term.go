// Package smt holds hash-consed terms over Bool, bit-vectors and IEEE doubles,
// with rewriting on construction, concrete evaluation and SMT-LIB printing.
package smt

import (
	"fmt"
	"math"
	"math/bits"
	"sync"
	"sync/atomic"
)

type SK uint8

const (
	KBool SK = iota
	KBV
	KFP
)

// Sort of a term: W is the width (1 for Bool).
type Sort struct {
	K SK
	W uint8
}

var (
	Bool = Sort{KBool, 1}
	F64  = Sort{KFP, 64}
	F32  = Sort{KFP, 32}
)

func BV(w int) Sort { return Sort{KBV, uint8(w)} }

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	ONeg
	OBNot
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZext
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFEq
	OFLt
	OFLe
	OFNaN
	OFInf
	OFFromS
	OFFromU
	OFToS
	OFToU
	OFToF
	OFFromBits
	OFRoundZ // round to integral toward zero
	OTable
)

// Table is a constant lookup table (index out of range gives 0).
type Table struct {
	Vals []uint64
	W    uint8
}

// Term is an immutable, hash-consed expression.
type Term struct {
	Op      Op
	S       Sort
	A, B, C *Term
	K       uint64 // constant value, or extract hi<<8|lo
	Name    string
	T       *Table
	ID      int64 // per context, 0 for constants

	sv    *Term // the only variable below, when there is exactly one and it is small
	nvars uint8 // 0, 1 or 2 (= several, or one that is not small)
	truth *[8]uint64
	at    *valueAt
}

// valueAt holds the values of a one-variable term found so far.
type valueAt struct {
	known [8]uint64
	bits  [8]uint64 // of a Boolean
	vals  []uint64  // of the others
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.S.K == KBool && t.K == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.S.K == KBool && t.K == 0 }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

// ---- constants: global, shared by all contexts

type ckey struct {
	s Sort
	k uint64
}

var (
	True  = &Term{Op: OConst, S: Bool, K: 1}
	False = &Term{Op: OConst, S: Bool, K: 0}
	small [65][]*Term
	cmap  sync.Map
)

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		n := 1024
		if w == 8 {
			n = 256
		}
		small[w] = make([]*Term, n)
		for i := range small[w] {
			small[w][i] = &Term{Op: OConst, S: BV(w), K: uint64(i)}
		}
	}
}

func Const(s Sort, k uint64) *Term {
	switch s.K {
	case KBool:
		if k&1 == 1 {
			return True
		}
		return False
	case KBV:
		k &= mask(s.W)
		if sm := small[s.W]; k < uint64(len(sm)) {
			return sm[k]
		}
	case KFP:
		if s.W == 64 && k&0x7ff0000000000000 == 0x7ff0000000000000 && k&0xfffffffffffff != 0 {
			k = 0x7ff8000000000001
		}
		if s.W == 32 {
			k &= mask(32)
			if k&0x7f800000 == 0x7f800000 && k&0x7fffff != 0 {
				k = 0x7fc00000
			}
		}
	}
	slot := &ccache[(k*0x9e3779b97f4a7c15>>48^uint64(s.W))&(1<<16-1)]
	if t := slot.Load(); t != nil && t.K == k && t.S == s {
		return t
	}
	key := ckey{s, k}
	v, ok := cmap.Load(key)
	if !ok {
		v, _ = cmap.LoadOrStore(key, &Term{Op: OConst, S: s, K: k})
	}
	slot.Store(v.(*Term))
	return v.(*Term)
}

// ccache holds the constants used last.
var ccache [1 << 16]atomic.Pointer[Term]

func BVc(w int, k uint64) *Term { return Const(BV(w), k) }
func Bc(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Fc(f float64) *Term { return Const(F64, math.Float64bits(f)) }

func (t *Term) Int() int64 {
	w := t.S.W
	if w == 64 {
		return int64(t.K)
	}
	return int64(t.K<<(64-w)) >> (64 - w)
}
func (t *Term) Float() float64 {
	if t.S.W == 32 {
		return float64(math.Float32frombits(uint32(t.K)))
	}
	return math.Float64frombits(t.K)
}

// ---- contexts

type tkey struct {
	op      Op
	s       Sort
	a, b, c *Term
	k       uint64
	name    string
	t       *Table
}

type Ctx struct {
	tab map[tkey]*Term
	n   int64
}

func NewCtx() *Ctx { return &Ctx{tab: map[tkey]*Term{}} }

func (c *Ctx) Size() int { return len(c.tab) }

func isSmallVar(t *Term) bool {
	return t.Op == OVar && t.S.K == KBV && t.S.W <= 9 || t.Op == OVar && t.S.K == KBool
}

func (c *Ctx) mk(op Op, s Sort, a, b, d *Term, k uint64, name string, tb *Table) *Term {
	key := tkey{op, s, a, b, d, k, name, tb}
	if t, ok := c.tab[key]; ok {
		return t
	}
	c.n++
	t := &Term{Op: op, S: s, A: a, B: b, C: d, K: k, Name: name, T: tb, ID: c.n}
	if op == OVar {
		if isSmallVar(t) {
			t.sv, t.nvars = t, 1
		} else {
			t.nvars = 2
		}
	} else {
		for _, x := range [3]*Term{a, b, d} {
			if x == nil || x.nvars == 0 {
				continue
			}
			if x.nvars == 2 || (t.nvars == 1 && t.sv != x.sv) {
				t.nvars = 2
				t.sv = nil
				break
			}
			t.nvars, t.sv = 1, x.sv
		}
		if t.nvars == 2 {
			t.sv = nil
		}
	}
	c.tab[key] = t
	return t
}

func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(OVar, s, nil, nil, nil, 0, name, nil) }

// SingleVar returns the small variable that alone determines t, if any.
func (t *Term) SingleVar() *Term { return t.sv }

// Truth returns the set of values of t.SingleVar() that make the Boolean t true.
func (t *Term) Truth() *[8]uint64 {
	if t.truth != nil {
		return t.truth
	}
	var r [8]uint64
	n := uint64(1) << t.sv.S.W
	for v := uint64(0); v < n; v++ {
		if t.At(v) != 0 {
			r[v>>6] |= 1 << (v & 63)
		}
	}
	t.truth = &r
	return &r
}

// At is the value of a one-variable term where its variable is v.
func (t *Term) At(v uint64) uint64 {
	switch t.Op {
	case OConst:
		return t.K
	case OVar:
		return v
	}
	a := t.at
	if a == nil {
		a = &valueAt{}
		if t.S != Bool {
			a.vals = make([]uint64, 1<<t.sv.S.W)
		}
		t.at = a
	}
	if a.known[v>>6]>>(v&63)&1 != 0 {
		if a.vals == nil {
			return a.bits[v>>6] >> (v & 63) & 1
		}
		return a.vals[v]
	}
	r := evalWith(t, func(u *Term) uint64 { return u.At(v) })
	a.known[v>>6] |= 1 << (v & 63)
	if a.vals == nil {
		if r != 0 {
			a.bits[v>>6] |= 1 << (v & 63)
		}
	} else {
		a.vals[v] = r
	}
	return r
}

// ---- constructors with rewriting

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return Bc(a.K == 0)
	case ONot:
		return a.A
	case OUlt:
		return c.mk(OUle, Bool, a.B, a.A, nil, 0, "", nil)
	case OUle:
		return c.mk(OUlt, Bool, a.B, a.A, nil, 0, "", nil)
	case OSlt:
		return c.mk(OSle, Bool, a.B, a.A, nil, 0, "", nil)
	case OSle:
		return c.mk(OSlt, Bool, a.B, a.A, nil, 0, "", nil)
	}
	return c.mk(ONot, Bool, a, nil, nil, 0, "", nil)
}

func order(a, b *Term) (*Term, *Term) {
	if a.ID > b.ID || (a.ID == b.ID && a.K > b.K) {
		return b, a
	}
	return a, b
}

func compl(a, b *Term) bool { return a.Op == ONot && a.A == b || b.Op == ONot && b.A == a }

func (c *Ctx) And(a, b *Term) *Term {
	if a.IsTrue() || a == b {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if a.IsFalse() || b.IsFalse() || compl(a, b) {
		return False
	}
	a, b = order(a, b)
	return c.mk(OAnd, Bool, a, b, nil, 0, "", nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsFalse() || a == b {
		return b
	}
	if b.IsFalse() {
		return a
	}
	if a.IsTrue() || b.IsTrue() || compl(a, b) {
		return True
	}
	a, b = order(a, b)
	return c.mk(OOr, Bool, a, b, nil, 0, "", nil)
}

func (c *Ctx) Ite(x, a, b *Term) *Term {
	if x.IsConst() {
		if x.K != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if x.Op == ONot {
		return c.Ite(x.A, b, a)
	}
	if a.S.K == KBool {
		if a.IsTrue() {
			return c.Or(x, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(x), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(x), a)
		}
		if b.IsFalse() {
			return c.And(x, a)
		}
	}
	return c.mk(OIte, a.S, x, a, b, 0, "", nil)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.IsConst() && b.IsConst() {
		return Bc(a.K == b.K)
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq: sorts %v %v", a.S, b.S))
	}
	if a.S.K == KBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.Op {
		case OIte:
			if a.B.IsConst() || a.C.IsConst() {
				return c.Ite(a.A, c.Eq(a.B, b), c.Eq(a.C, b))
			}
		case OZext:
			if b.K > mask(a.A.S.W) {
				return False
			}
			return c.Eq(a.A, Const(a.A.S, b.K))
		case OSext:
			w := a.A.S.W
			n := Const(a.A.S, b.K)
			if Const(b.S, uint64(n.Int())).K != b.K {
				return False
			}
			_ = w
			return c.Eq(a.A, n)
		case OAdd:
			if a.B.IsConst() {
				return c.Eq(a.A, Const(a.S, b.K-a.B.K))
			}
		case OConcat:
			w := a.B.S.W
			return c.And(c.Eq(a.A, Const(a.A.S, b.K>>w)), c.Eq(a.B, Const(a.B.S, b.K)))
		}
	}
	a, b = order(a, b)
	return c.mk(OEq, Bool, a, b, nil, 0, "", nil)
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func sx(k uint64, w uint8) int64 {
	if w == 64 {
		return int64(k)
	}
	return int64(k<<(64-w)) >> (64 - w)
}

func foldBin(op Op, w uint8, a, b uint64) (uint64, bool) {
	switch op {
	case OAdd:
		return a + b, true
	case OSub:
		return a - b, true
	case OMul:
		return a * b, true
	case OUDiv:
		if b == 0 {
			return mask(w), true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1, true
			}
			return mask(w), true
		}
		if y == -1 {
			return uint64(-x), true
		}
		return uint64(x / y), true
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x % y), true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return a << b, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x >> b), true
	}
	return 0, false
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

// Bin builds a bit-vector operation.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.S.W
	if a.S != b.S {
		panic(fmt.Sprintf("Bin %d: sorts %v %v", op, a.S, b.S))
	}
	if a.IsConst() && b.IsConst() {
		k, _ := foldBin(op, w, a.K, b.K)
		return Const(a.S, k)
	}
	if commut(op) && a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLshr, OAshr:
			if b.K == 0 {
				return a
			}
		case OMul:
			if b.K == 0 {
				return b
			}
			if b.K == 1 {
				return a
			}
		case OUDiv, OSDiv:
			if b.K == 1 {
				return a
			}
		case OBAnd:
			if b.K == 0 {
				return b
			}
			if b.K == mask(w) {
				return a
			}
		}
		if op == OSub {
			return c.Bin(OAdd, a, Const(a.S, -b.K))
		}
		if op == OAdd && a.Op == OAdd && a.B.IsConst() {
			return c.Bin(OAdd, a.A, Const(a.S, a.B.K+b.K))
		}
		if a.Op == OIte && a.B.IsConst() && a.C.IsConst() {
			return c.Ite(a.A, c.Bin(op, a.B, b), c.Bin(op, a.C, b))
		}
		if op == OBAnd && a.Op == OZext && b.K&mask(a.A.S.W) == mask(a.A.S.W) {
			return a
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return Const(a.S, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	if commut(op) && !b.IsConst() {
		a, b = order(a, b)
	}
	return c.mk(op, a.S, a, b, nil, 0, "", nil)
}

func foldCmp(op Op, w uint8, a, b uint64) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sx(a, w) < sx(b, w)
	case OSle:
		return sx(a, w) <= sx(b, w)
	}
	panic("cmp")
}

// Cmp builds a bit-vector comparison.
func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Bc(foldCmp(op, a.S.W, a.K, b.K))
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Cmp: sorts %v %v", a.S, b.S))
	}
	if a == b {
		return Bc(op == OUle || op == OSle)
	}
	// narrow comparisons of zero-extended values with constants
	if a.Op == OZext && b.IsConst() {
		m := mask(a.A.S.W)
		if sx(b.K, b.S.W) >= 0 || op == OUlt || op == OUle {
			if b.K > m {
				return True
			}
			uop := OUlt
			if op == OUle || op == OSle {
				uop = OUle
			}
			return c.Cmp(uop, a.A, Const(a.A.S, b.K))
		}
		return False // signed compare with a negative constant: x >= 0 > b
	}
	if b.Op == OZext && a.IsConst() {
		m := mask(b.A.S.W)
		if sx(a.K, a.S.W) >= 0 || op == OUlt || op == OUle {
			if a.K > m {
				return False
			}
			uop := OUlt
			if op == OUle || op == OSle {
				uop = OUle
			}
			return c.Cmp(uop, Const(b.A.S, a.K), b.A)
		}
		return True
	}
	if op == OUlt && b.IsConst() && b.K == 0 {
		return False
	}
	if op == OUle && a.IsConst() && a.K == 0 {
		return True
	}
	return c.mk(op, Bool, a, b, nil, 0, "", nil)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.IsConst() {
		return Const(a.S, -a.K)
	}
	return c.mk(ONeg, a.S, a, nil, nil, 0, "", nil)
}
func (c *Ctx) BNot(a *Term) *Term {
	if a.IsConst() {
		return Const(a.S, ^a.K)
	}
	return c.mk(OBNot, a.S, a, nil, nil, 0, "", nil)
}

func (c *Ctx) Zext(a *Term, w int) *Term {
	if int(a.S.W) == w {
		return a
	}
	if a.IsConst() {
		return BVc(w, a.K)
	}
	if a.Op == OZext {
		return c.Zext(a.A, w)
	}
	return c.mk(OZext, BV(w), a, nil, nil, 0, "", nil)
}
func (c *Ctx) Sext(a *Term, w int) *Term {
	if int(a.S.W) == w {
		return a
	}
	if a.IsConst() {
		return BVc(w, uint64(a.Int()))
	}
	if a.Op == OZext {
		return c.Zext(a.A, w)
	}
	return c.mk(OSext, BV(w), a, nil, nil, 0, "", nil)
}
func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == int(a.S.W) {
		return a
	}
	if a.IsConst() {
		return BVc(w, a.K>>lo)
	}
	switch a.Op {
	case OZext, OSext:
		iw := int(a.A.S.W)
		if hi < iw {
			return c.Extract(a.A, hi, lo)
		}
		if lo == 0 {
			if a.Op == OZext {
				return c.Zext(a.A, w)
			}
			return c.Sext(a.A, w)
		}
		if lo >= iw && a.Op == OZext {
			return BVc(w, 0)
		}
	case OConcat:
		bw := int(a.B.S.W)
		if hi < bw {
			return c.Extract(a.B, hi, lo)
		}
		if lo >= bw {
			return c.Extract(a.A, hi-bw, lo-bw)
		}
	case OExtract:
		l0 := int(a.K & 255)
		return c.Extract(a.A, hi+l0, lo+l0)
	case OTable:
		if lo == 0 {
			return c.Tab(tabMap(a.T, uint8(w), func(v uint64) uint64 { return v }), a.A)
		}
	case OIte:
		if a.B.IsConst() && a.C.IsConst() {
			return c.Ite(a.A, c.Extract(a.B, hi, lo), c.Extract(a.C, hi, lo))
		}
	}
	return c.mk(OExtract, BV(w), a, nil, nil, uint64(hi)<<8|uint64(lo), "", nil)
}
func (c *Ctx) Concat(a, b *Term) *Term {
	w := int(a.S.W) + int(b.S.W)
	if a.IsConst() && b.IsConst() {
		return BVc(w, a.K<<b.S.W|b.K)
	}
	if a.IsConst() && a.K == 0 {
		return c.Zext(b, w)
	}
	return c.mk(OConcat, BV(w), a, b, nil, 0, "", nil)
}

var tabMaps sync.Map

type tabMapKey struct {
	t *Table
	w uint8
}

func tabMap(t *Table, w uint8, f func(uint64) uint64) *Table {
	k := tabMapKey{t, w}
	if v, ok := tabMaps.Load(k); ok {
		return v.(*Table)
	}
	n := &Table{W: w, Vals: make([]uint64, len(t.Vals))}
	for i, v := range t.Vals {
		n.Vals[i] = f(v) & mask(w)
	}
	v, _ := tabMaps.LoadOrStore(k, n)
	return v.(*Table)
}

// Tab looks idx up in a constant table.
func (c *Ctx) Tab(t *Table, idx *Term) *Term {
	if idx.IsConst() {
		if idx.K < uint64(len(t.Vals)) {
			return Const(BV(int(t.W)), t.Vals[idx.K])
		}
		return Const(BV(int(t.W)), 0)
	}
	return c.mk(OTable, BV(int(t.W)), idx, nil, nil, 0, "", t)
}

// ---- floating point

func fv(t *Term) float64 { return t.Float() }

func fres(s Sort, f float64) *Term {
	if s.W == 32 {
		return Const(s, uint64(math.Float32bits(float32(f))))
	}
	return Const(s, math.Float64bits(f))
}

func foldF(op Op, w uint8, a, b uint64) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OFAdd:
		r = x + y
	case OFSub:
		r = x - y
	case OFMul:
		r = x * y
	case OFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(a.S, foldF(op, a.S.W, a.K, b.K))
	}
	switch op {
	case OFMul:
		if isOne(a) {
			return b
		}
		fallthrough
	case OFDiv:
		if isOne(b) {
			return a
		}
		// rounding to nearest is symmetric
		if a.Op == OFNeg {
			return c.FNeg(c.FBin(op, a.A, b))
		}
		if b.Op == OFNeg {
			return c.FNeg(c.FBin(op, a, b.A))
		}
	}
	if op == OFAdd || op == OFMul {
		a, b = order(a, b)
	}
	return c.mk(op, a.S, a, b, nil, 0, "", nil)
}

func isOne(t *Term) bool { return t.IsConst() && fv(t) == 1 }

func (c *Ctx) FNeg(a *Term) *Term {
	if a.IsConst() {
		return Const(a.S, a.K^(1<<(a.S.W-1)))
	}
	if a.Op == OFNeg {
		return a.A
	}
	return c.mk(OFNeg, a.S, a, nil, nil, 0, "", nil)
}
func (c *Ctx) FAbs(a *Term) *Term {
	if a.IsConst() {
		return Const(a.S, a.K&^(1<<(a.S.W-1)))
	}
	return c.mk(OFAbs, a.S, a, nil, nil, 0, "", nil)
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := fv(a), fv(b)
		switch op {
		case OFEq:
			return Bc(x == y)
		case OFLt:
			return Bc(x < y)
		case OFLe:
			return Bc(x <= y)
		}
	}
	if a == b {
		if op == OFLt {
			return False
		}
		return c.Not(c.FIsNaN(a))
	}
	if op == OFEq {
		a, b = order(a, b)
	}
	return c.mk(op, Bool, a, b, nil, 0, "", nil)
}

func (c *Ctx) FIsNaN(a *Term) *Term {
	if a.IsConst() {
		return Bc(math.IsNaN(fv(a)))
	}
	switch a.Op {
	case OFFromS, OFFromU:
		return False
	case OFNeg, OFAbs, OFToF:
		return c.FIsNaN(a.A)
	}
	return c.mk(OFNaN, Bool, a, nil, nil, 0, "", nil)
}
func (c *Ctx) FIsInf(a *Term) *Term {
	if a.IsConst() {
		return Bc(math.IsInf(fv(a), 0))
	}
	return c.mk(OFInf, Bool, a, nil, nil, 0, "", nil)
}

func (c *Ctx) FFromS(a *Term, s Sort) *Term {
	if a.IsConst() {
		if s.W == 32 {
			return Const(s, uint64(math.Float32bits(float32(a.Int()))))
		}
		return Fc(float64(a.Int()))
	}
	return c.mk(OFFromS, s, a, nil, nil, 0, "", nil)
}
func (c *Ctx) FFromU(a *Term, s Sort) *Term {
	if a.IsConst() {
		if s.W == 32 {
			return Const(s, uint64(math.Float32bits(float32(a.K))))
		}
		return Fc(float64(a.K))
	}
	return c.mk(OFFromU, s, a, nil, nil, 0, "", nil)
}

// FToS is truncation to a signed integer; the caller guards the range.
func (c *Ctx) FToS(a *Term, w int) *Term {
	if a.IsConst() {
		return BVc(w, uint64(int64(fv(a))))
	}
	if a.Op == OFFromS && int(a.A.S.W) <= w && a.A.S.W <= 32 && a.S.W == 64 {
		return c.Sext(a.A, w)
	}
	return c.mk(OFToS, BV(w), a, nil, nil, 0, "", nil)
}
func (c *Ctx) FToU(a *Term, w int) *Term {
	if a.IsConst() {
		return BVc(w, uint64(fv(a)))
	}
	return c.mk(OFToU, BV(w), a, nil, nil, 0, "", nil)
}
func (c *Ctx) FToF(a *Term, s Sort) *Term {
	if a.S == s {
		return a
	}
	if a.IsConst() {
		return fres(s, fv(a))
	}
	return c.mk(OFToF, s, a, nil, nil, 0, "", nil)
}
func (c *Ctx) FFromBits(a *Term, s Sort) *Term {
	if a.IsConst() {
		return Const(s, a.K)
	}
	return c.mk(OFFromBits, s, a, nil, nil, 0, "", nil)
}
func (c *Ctx) FRoundZ(a *Term) *Term {
	if a.IsConst() {
		return fres(a.S, math.Trunc(fv(a)))
	}
	return c.mk(OFRoundZ, a.S, a, nil, nil, 0, "", nil)
}

// ---- concrete evaluation

// Eval evaluates t under a model (missing variables are 0).
func Eval(t *Term, m map[*Term]uint64) uint64 {
	memo := make(map[*Term]uint64, 16)
	for k, v := range m {
		memo[k] = v
	}
	return evalMemo(t, memo)
}

// EvalMemo evaluates with a caller-held memo table that starts as the model.
func EvalMemo(t *Term, memo map[*Term]uint64) uint64 { return evalMemo(t, memo) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalMemo(t *Term, m map[*Term]uint64) uint64 {
	if t.Op == OConst {
		return t.K
	}
	if v, ok := m[t]; ok {
		return v
	}
	if t.Op == OVar {
		return 0
	}
	r := evalWith(t, func(u *Term) uint64 { return evalMemo(u, m) })
	m[t] = r
	return r
}

func evalWith(t *Term, ev func(*Term) uint64) uint64 {
	var r uint64
	w := t.S.W
	switch t.Op {
	case ONot:
		r = 1 - ev(t.A)
	case OAnd:
		r = b2u(ev(t.A) != 0 && ev(t.B) != 0)
	case OOr:
		r = b2u(ev(t.A) != 0 || ev(t.B) != 0)
	case OIte:
		if ev(t.A) != 0 {
			r = ev(t.B)
		} else {
			r = ev(t.C)
		}
	case OEq:
		r = b2u(ev(t.A) == ev(t.B))
	case ONeg:
		r = -ev(t.A) & mask(w)
	case OBNot:
		r = ^ev(t.A) & mask(w)
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		r, _ = foldBin(t.Op, w, ev(t.A), ev(t.B))
		r &= mask(w)
	case OUlt, OUle, OSlt, OSle:
		r = b2u(foldCmp(t.Op, t.A.S.W, ev(t.A), ev(t.B)))
	case OConcat:
		r = ev(t.A)<<t.B.S.W | ev(t.B)
	case OExtract:
		r = ev(t.A) >> (t.K & 255) & mask(w)
	case OZext:
		r = ev(t.A)
	case OSext:
		r = uint64(sx(ev(t.A), t.A.S.W)) & mask(w)
	case OTable:
		if i := ev(t.A); i < uint64(len(t.T.Vals)) {
			r = t.T.Vals[i]
		}
	default:
		a := Const(t.A.S, ev(t.A))
		var b *Term
		if t.B != nil {
			b = Const(t.B.S, ev(t.B))
		}
		var cc Ctx
		switch t.Op {
		case OFAdd, OFSub, OFMul, OFDiv:
			r = cc.FBin(t.Op, a, b).K
		case OFNeg:
			r = cc.FNeg(a).K
		case OFAbs:
			r = cc.FAbs(a).K
		case OFEq, OFLt, OFLe:
			r = cc.FCmp(t.Op, a, b).K
		case OFNaN:
			r = cc.FIsNaN(a).K
		case OFInf:
			r = cc.FIsInf(a).K
		case OFFromS:
			r = cc.FFromS(a, t.S).K
		case OFFromU:
			r = cc.FFromU(a, t.S).K
		case OFToS:
			r = cc.FToS(a, int(w)).K
		case OFToU:
			r = cc.FToU(a, int(w)).K
		case OFToF:
			r = cc.FToF(a, t.S).K
		case OFFromBits:
			r = cc.FFromBits(a, t.S).K
		case OFRoundZ:
			r = cc.FRoundZ(a).K
		default:
			panic(fmt.Sprint("eval op ", t.Op))
		}
	}
	return r
}

// Vars collects the variables below t.
func Vars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t == nil || t.Op == OConst || seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OVar {
		*out = append(*out, t)
		return
	}
	Vars(t.A, seen, out)
	Vars(t.B, seen, out)
	Vars(t.C, seen, out)
}

func PopCount(s *[8]uint64) int {
	n := 0
	for _, x := range s {
		n += bits.OnesCount64(x)
	}
	return n
}

var opNames = []string{"const", "var", "not", "and", "or", "ite", "=", "neg", "bnot", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "u<", "u<=", "s<", "s<=", "concat", "extract", "zext", "sext", "f+", "f-", "f*", "f/", "fneg", "fabs", "f=", "f<", "f<=", "fnan", "finf", "ffroms", "ffromu", "ftos", "ftou", "ftof", "ffrombits", "froundz", "table"}

// Show writes a term for debugging, cut at a depth.
func (t *Term) Show(depth int) string {
	if t == nil {
		return "true"
	}
	switch {
	case t.Op == OConst:
		return fmt.Sprintf("%#x", t.K)
	case t.Op == OVar:
		return t.Name
	case depth == 0:
		return "…"
	}
	r := "(" + opNames[t.Op]
	if t.Op == OTable {
		r += fmt.Sprintf("%d", len(t.T.Vals))
	}
	for _, a := range []*Term{t.A, t.B, t.C} {
		if a != nil {
			r += " " + a.Show(depth-1)
		}
	}
	return r + ")"
}
