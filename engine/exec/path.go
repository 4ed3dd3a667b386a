package exec

import (
	"fmt"
	"go/types"
	"maps"
	"math"
	"math/bits"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/llvm"
	"verif/engine/smt"
)

// decision is one recorded choice of a path.
type decision struct {
	ch  int32
	val uint64
}

// task is a path to run: the choices it starts with, and a model of them when
// one is known.
type task struct {
	prefix []decision
	seed   map[string]uint64
}

// abort ends a path for a reason of the engine's own.
type abort struct {
	kind string // "infeasible", "unsupported", "bound", "done", "unknown"
	msg  string
}

var debugQ = os.Getenv("GOSYM_QUERIES") != ""

func unsupported(msg string) abort { return abort{"unsupported", msg} }

// tpanic is a panic of the program under test.
type tpanic struct {
	v   Iface
	msg string
	rt  bool
}

// Violation is a counterexample candidate.
type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Model   map[string]uint64 `json:"model"`
	Trace   []string          `json:"trace,omitempty"`
	Choices []int             `json:"-"`
	Sure    bool              `json:"-"`
}

// Sample is one completed path with a model and what the engine observed on it.
type Sample struct {
	Model map[string]uint64 `json:"model"`
	Obs   []string          `json:"obs"`
	Why   string            `json:"-"`
}

// Path is the state of one path.
type Path struct {
	w      *Worker
	e      *Engine
	c      *smt.Ctx
	prefix []decision
	taken  []decision
	pos    int

	pc          []*smt.Term
	asserted    int
	pushed      bool
	absPushed   bool
	absAsserted int
	dom         map[*smt.Term]*[8]uint64
	tangled     map[*smt.Term]bool
	vars        []*smt.Term
	varOf       map[string]*smt.Term
	names       map[string]int
	model       map[*smt.Term]uint64
	modelOK     bool
	seed        map[string]uint64 // a model of the prefix, by name
	hardPC      bool              // pc has float arithmetic in it
	found       map[*smt.Term]uint64

	steps   int
	depth   int
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	cm      *CMem
	obs     []obsRec
	log     []string
	events  []Event
	goDepth int // depth of go statements being run
	gw      *goWatch
	covers  map[string]bool
	locks   map[*Value]int
	sureFin bool

	strtodVal  *smt.Term // value the next strtod call returns
	strtodSeen map[string]*smt.Term
	lexMode    *lexStub
	stack      []string // debugging
	domSent    map[*smt.Term]*[8]uint64
	nowCtr     int
	fresh      int
	randN      int
	tags       map[string]Value
	numText    map[string]*smt.Term
	slot       Value // see sym.Put
	initFn     *ssa.Function
	opaque     map[*smt.Term]int
	floatText  map[*smt.Term]string
	proc       *proc
}

type obsRec struct {
	label string
	v     Value
}

// Event is one step of the concurrency trace.
type Event struct {
	Kind string
	Arg  string
}

func (x *Path) fail(kind, msg string) { panic(abort{kind, msg}) }

// NewVar declares a symbolic input.
func (x *Path) NewVar(name string, s smt.Sort) *smt.Term {
	n := x.names[name]
	x.names[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	full = fmt.Sprintf("%s:%d.%d", full, s.K, s.W)
	t := x.c.Var(full, s)
	x.vars = append(x.vars, t)
	x.varOf[full] = t
	if k, ok := x.seed[full]; ok {
		x.model[t] = k
	}
	if t.SingleVar() == t {
		var d [8]uint64
		n := 1 << s.W
		if s.K == smt.KBool {
			n = 2
		}
		for i := 0; i < n; i++ {
			d[i>>6] |= 1 << (i & 63)
		}
		x.dom[t] = &d
	}
	return t
}

func and8(a, b *[8]uint64) (r [8]uint64, any bool) {
	for i := range a {
		r[i] = a[i] & b[i]
		if r[i] != 0 {
			any = true
		}
	}
	return
}

// assume adds c to the path condition without asking whether it is satisfiable.
func (x *Path) assume(c *smt.Term) {
	if c.IsConst() {
		if c.K == 0 {
			x.fail("infeasible", "")
		}
		return
	}
	if c.Op == smt.OAnd {
		x.assume(c.A)
		x.assume(c.B)
		return
	}
	x.pc = append(x.pc, c)
	x.hardPC = x.hardPC || x.isHard(c)
	if v := c.SingleVar(); v != nil {
		r, any := and8(x.dom[v], c.Truth())
		if !any {
			x.fail("infeasible", "")
		}
		x.dom[v] = &r
	} else {
		var vs []*smt.Term
		smt.Vars(c, map[*smt.Term]bool{}, &vs)
		for _, v := range vs {
			x.tangled[v] = true
		}
	}
	if x.modelOK && smt.Eval(c, x.model) == 0 {
		x.modelOK = false
	}
}

const (
	no = iota
	yes
	maybe
)

// domKnows decides c from the value sets of single variables, when it can:
// no = c cannot hold, yes = c always holds, maybe = both feasible, -1 = not known.
func (x *Path) domKnows(c *smt.Term) int {
	v := c.SingleVar()
	if v == nil {
		return -1
	}
	d := x.dom[v]
	if d == nil {
		return -1
	}
	r, any := and8(d, c.Truth())
	if !any {
		return no
	}
	if r == *d {
		return yes
	}
	if !x.tangled[v] {
		x.w.st.DomainForks++
		if n := x.w.st.DomainForks; n <= 2 || n%16384 == 0 && x.w.st.DomainChecked < 100 {
			x.crossCheck(c)
		}
		return maybe
	}
	return -1
}

// crossCheck asks the solver to confirm a fork that was decided from a value
// set: both sides must be satisfiable under the path condition.
func (x *Path) crossCheck(c *smt.Term) {
	for _, t := range []*smt.Term{c, x.c.Not(c)} {
		if x.check(t, false) == smt.Unsat {
			panic("domain decision refuted by the solver")
		}
	}
	x.w.st.DomainChecked++
}

// inDom is the membership of v in a set of its values.
func (x *Path) inDom(v *smt.Term, d *[8]uint64) *smt.Term {
	n := uint64(1) << v.S.W
	in := func(k uint64) bool { return d[k>>6]>>(k&63)&1 != 0 }
	r := smt.False
	if v.S.K == smt.KBool {
		if in(0) && in(1) {
			return smt.True
		}
		if in(1) {
			return v
		}
		return x.c.Not(v)
	}
	for k := uint64(0); k < n; {
		if !in(k) {
			k++
			continue
		}
		e := k
		for e+1 < n && in(e+1) {
			e++
		}
		lo, hi := smt.Const(v.S, k), smt.Const(v.S, e)
		r = x.c.Or(r, x.c.And(x.c.Cmp(smt.OUle, lo, v), x.c.Cmp(smt.OUle, v, hi)))
		k = e + 1
	}
	return r
}

func (x *Path) flushPC() {
	s := x.w.s
	if !x.pushed {
		s.Push()
		x.pushed = true
	}
	// conditions on one small variable are sent as the variable's value set
	for ; x.asserted < len(x.pc); x.asserted++ {
		c := x.pc[x.asserted]
		if v := c.SingleVar(); v != nil && x.dom[v] != nil {
			if x.domSent == nil {
				x.domSent = map[*smt.Term]*[8]uint64{}
			}
			if x.domSent[v] != x.dom[v] {
				x.domSent[v] = x.dom[v]
				s.Assert(x.inDom(v, x.dom[v]))
			}
			continue
		}
		s.Assert(c)
	}
}

// inTime gives the path up when the exploration is over.
func (x *Path) inTime() {
	if x.w.x.late.Load() {
		x.fail("unknown", "the time of the exploration is over")
	}
}

// check asks the solver about pc and c.
func (x *Path) check(c *smt.Term, needModel bool) smt.Result {
	if debugQ {
		fmt.Fprintln(os.Stderr, "QUERY", strings.Join(x.stack, ">"), c.Show(8))
	}
	x.inTime()
	if x.isHard(c) && x.absUnsat(c) {
		return smt.Unsat
	}
	x.flushPC()
	m := map[*smt.Term]uint64{}
	r, err := x.w.s.Check(c, x.vars, m)
	if err != nil {
		x.w.solverBroken = true
		x.fail("unknown", "solver: "+err.Error())
	}
	if r == smt.Sat {
		x.w.lastModel = m
	}
	return r
}

var guessF = []float64{0, 1, -1, 0.5, -0.5, 2, 3, 10, 0.1, 49, 1e10, -1e10, 1e300, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}
var guessI = []int64{0, 1, -1, 2, 3, 1000000, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32}

// guess looks for a model of pc and c near the current one, by replacing the
// value of one or two variables of c or tied to it; nil when it finds none.
func (x *Path) guess(c *smt.Term) map[*smt.Term]uint64 {
	var vs []*smt.Term
	smt.Vars(c, map[*smt.Term]bool{}, &vs)
	if len(vs) > 3 {
		vs = vs[:3]
	}
	// the numbers the conditions so far tie to those of c
	for i := len(x.pc) - 1; i >= 0 && len(vs) < 4; i-- {
		if !x.isHard(x.pc[i]) {
			continue
		}
		var ws []*smt.Term
		smt.Vars(x.pc[i], map[*smt.Term]bool{}, &ws)
		if !slices.ContainsFunc(ws, func(w *smt.Term) bool { return slices.Contains(vs, w) }) {
			continue
		}
		for _, w := range ws {
			if len(vs) < 4 && !slices.Contains(vs, w) {
				vs = append(vs, w)
			}
		}
	}
	ok := func(m map[*smt.Term]uint64) bool {
		if smt.Eval(c, m) == 0 {
			return false
		}
		for i := len(x.pc) - 1; i >= 0; i-- {
			if smt.Eval(x.pc[i], m) == 0 {
				return false
			}
		}
		return true
	}
	near := x.values(c)
	vals := func(v *smt.Term) []uint64 {
		var r []uint64
		for _, f := range near {
			switch {
			case v.S == smt.F64:
				r = append(r, math.Float64bits(f), math.Float64bits(math.Nextafter(f, math.Inf(1))), math.Float64bits(math.Nextafter(f, math.Inf(-1))))
			case v.S == smt.F32:
				g := float32(f)
				r = append(r, uint64(math.Float32bits(g)), uint64(math.Float32bits(math.Nextafter32(g, float32(math.Inf(1))))), uint64(math.Float32bits(math.Nextafter32(g, float32(math.Inf(-1))))))
			case v.S.K == smt.KBV && math.Abs(f) < 1<<63:
				for _, d := range []int64{0, 1, -1} {
					r = append(r, uint64(int64(f)+d)&(1<<(v.S.W-1)<<1-1))
				}
			}
		}
		switch v.S {
		case smt.F64:
			for _, f := range guessF {
				r = append(r, math.Float64bits(f))
			}
		case smt.F32:
			for _, f := range guessF {
				r = append(r, uint64(math.Float32bits(float32(f))))
			}
		default:
			if v.S.K == smt.KBV {
				for _, i := range guessI {
					r = append(r, uint64(i)&(1<<(v.S.W-1)<<1-1))
				}
			}
		}
		return r
	}
	m := map[*smt.Term]uint64{}
	for k, v := range x.model {
		m[k] = v
	}
	set := func(v *smt.Term, k uint64, had bool) {
		if had {
			m[v] = k
		} else {
			delete(m, v)
		}
	}
	for i, v := range vs {
		old, had := m[v]
		for _, k := range vals(v) {
			m[v] = k
			if ok(m) {
				return m
			}
			for _, w := range vs[i+1:] {
				oldw, hadw := m[w]
				for _, kw := range vals(w) {
					m[w] = kw
					if ok(m) {
						return m
					}
				}
				set(w, oldw, hadw)
			}
		}
		set(v, old, had)
	}
	return nil
}

// values are the numbers the terms in c have in the current model.
func (x *Path) values(c *smt.Term) []float64 {
	var r []float64
	seen := map[*smt.Term]bool{}
	had := map[float64]bool{}
	var walk func(t *smt.Term)
	walk = func(t *smt.Term) {
		if t == nil || seen[t] || len(r) == 8 {
			return
		}
		seen[t] = true
		var f float64
		switch {
		case t.S == smt.F64:
			f = math.Float64frombits(smt.Eval(t, x.model))
		case t.S == smt.F32:
			f = float64(math.Float32frombits(uint32(smt.Eval(t, x.model))))
		case t.S.K == smt.KBV && t.S.W <= 64:
			k := 64 - t.S.W
			f = float64(int64(smt.Eval(t, x.model)<<k) >> k)
		default:
			f = math.NaN()
		}
		if f == f && !had[f] {
			had[f] = true
			r = append(r, f)
		}
		walk(t.A)
		walk(t.B)
		walk(t.C)
	}
	walk(c)
	return r
}

// isHard says whether t has float arithmetic or conversions in it.
func (x *Path) isHard(t *smt.Term) bool {
	if t == nil || t.SingleVar() != nil {
		return false
	}
	if h, ok := x.w.hard[t]; ok {
		return h
	}
	h := smt.HardOp(t.Op) || x.isHard(t.A) || x.isHard(t.B) || x.isHard(t.C)
	x.w.hard[t] = h
	return h
}

// absUnsat asks about pc and c with float arithmetic and conversions taken for
// unknown values: unsatisfiable then is unsatisfiable, and quickly found.
func (x *Path) absUnsat(c *smt.Term) bool {
	s := x.w.abs
	if s == nil {
		o := x.e.Opt
		t, err := smt.NewSolver(o.Solver, 2000)
		if err != nil {
			return false
		}
		t.Abstract = true
		x.w.abs, s = t, t
	}
	if !x.absPushed {
		s.Push()
		x.absPushed = true
	}
	for ; x.absAsserted < len(x.pc); x.absAsserted++ {
		s.Assert(x.pc[x.absAsserted])
	}
	r, err := s.Check(c, nil, nil)
	if err != nil {
		x.w.solverBroken = true
		return false
	}
	return r == smt.Unsat
}

// feasible says whether pc and c may hold together, and leaves a model of both
// in x.found when it has come upon one.
func (x *Path) feasible(c *smt.Term) bool {
	x.found = nil
	if c.IsConst() {
		return c.K != 0
	}
	switch x.domKnows(c) {
	case no:
		return false
	case yes, maybe:
		if x.hardPC && x.modelOK {
			x.found = x.model
			if smt.Eval(c, x.model) == 0 {
				v := c.SingleVar()
				r, _ := and8(x.dom[v], c.Truth())
				for i, b := range r {
					if b != 0 {
						x.found = maps.Clone(x.model)
						x.found[v] = uint64(i<<6 + bits.TrailingZeros64(b))
						break
					}
				}
			}
		}
		return true
	}
	if !x.modelOK && !x.hardPC && x.isHard(c) {
		if r := x.check(nil, true); r == smt.Sat {
			x.model, x.modelOK = x.w.lastModel, true
		}
	}
	if x.modelOK && smt.Eval(c, x.model) != 0 {
		x.found = x.model
		return true
	}
	if x.modelOK && (x.hardPC || x.isHard(c)) {
		if m := x.guess(c); m != nil {
			x.found = m
			return true
		}
	}
	switch x.check(c, true) {
	case smt.Unsat:
		return false
	case smt.Sat:
		x.found = x.w.lastModel
		if !x.modelOK {
			x.model, x.modelOK = x.w.lastModel, true
		}
		return true
	}
	x.w.st.UnknownForks++
	return true
}

func (x *Path) replaying() bool { return x.pos < len(x.prefix) }

func (x *Path) record(d decision) {
	x.taken = append(x.taken, d)
	x.pos++
	if len(x.taken) > x.e.Opt.MaxDecisions {
		x.fail("bound", "decision bound")
	}
}

func (x *Path) pushAlt(d decision) { x.pushAltWith(d, nil, nil) }

// pushAltWith leaves a path for later that takes d here. m is a model of it,
// when one is known; c is the condition it adds. Models are kept where finding
// them takes long.
func (x *Path) pushAltWith(d decision, m map[*smt.Term]uint64, c *smt.Term) {
	p := make([]decision, len(x.taken)+1)
	copy(p, x.taken)
	p[len(x.taken)] = d
	var seed map[string]uint64
	if m != nil && (x.hardPC || x.isHard(c)) {
		seed = make(map[string]uint64, len(m))
		for v, k := range m {
			seed[v.Name] = k
		}
	}
	x.w.push(task{p, seed})
}

// assumeIn is assume for a condition that m is a model of (with pc), if m is
// not nil.
func (x *Path) assumeIn(c *smt.Term, m map[*smt.Term]uint64) {
	x.assume(c)
	if !x.modelOK && m != nil {
		x.model, x.modelOK = maps.Clone(m), true
	}
}

// branch forks on a Boolean term and returns the side taken on this path.
func (x *Path) branch(c *smt.Term) bool {
	if c.IsConst() {
		return c.K != 0
	}
	if x.domKnowsConst(c) == yes {
		return true
	}
	if x.domKnowsConst(c) == no {
		return false
	}
	if x.replaying() {
		d := x.prefix[x.pos]
		x.record(d)
		if d.ch == 0 {
			x.assume(c)
			return true
		}
		x.assume(x.c.Not(c))
		return false
	}
	nc := x.c.Not(c)
	t := x.feasible(c)
	mt := x.found
	f := x.feasible(nc)
	mf := x.found
	switch {
	case t && f:
		x.pushAltWith(decision{ch: 1}, mf, c)
		x.record(decision{ch: 0})
		x.assumeIn(c, mt)
		return true
	case t:
		x.record(decision{ch: 0})
		x.assumeIn(c, mt)
		return true
	case f:
		x.record(decision{ch: 1})
		x.assumeIn(nc, mf)
		return false
	}
	x.fail("infeasible", "")
	return false
}

// domKnowsConst is domKnows restricted to the decided answers (it is the same
// on replays, so no decision is recorded for them).
func (x *Path) domKnowsConst(c *smt.Term) int {
	v := c.SingleVar()
	if v == nil {
		return -1
	}
	d := x.dom[v]
	if d == nil {
		return -1
	}
	r, any := and8(d, c.Truth())
	if !any {
		return no
	}
	if r == *d {
		return yes
	}
	return -1
}

// choose forks over 0..n-1 (all feasible: the choice is a fresh variable).
func (x *Path) choose(n int) int {
	if n <= 0 {
		x.fail("infeasible", "empty choice")
	}
	if n == 1 {
		return 0
	}
	if x.replaying() {
		d := x.prefix[x.pos]
		x.record(d)
		return int(d.ch)
	}
	for i := n - 1; i > 0; i-- {
		if x.modelOK {
			x.pushAltWith(decision{ch: int32(i)}, x.model, nil)
		} else {
			x.pushAlt(decision{ch: int32(i)})
		}
	}
	x.record(decision{ch: 0})
	return 0
}

// concretize forks until t has one value on this path.
func (x *Path) concretize(t *smt.Term) uint64 {
	if t.IsConst() {
		return t.K
	}
	if v := t.SingleVar(); v != nil && x.dom[v] != nil {
		// all values by the variable's remaining domain
		vals := map[uint64]bool{}
		d := x.dom[v]
		n := uint64(1) << v.S.W
		for k := uint64(0); k < n; k++ {
			if d[k>>6]>>(k&63)&1 == 0 {
				continue
			}
			vals[t.At(k)] = true
		}
		var ks []uint64
		for k := range vals {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
		if len(ks) == 1 {
			return ks[0]
		}
		if x.replaying() {
			dd := x.prefix[x.pos]
			x.record(dd)
			x.assume(x.c.Eq(t, smt.Const(t.S, dd.val)))
			return dd.val
		}
		var ok []uint64
		for _, k := range ks {
			if !x.tangled[v] || x.feasible(x.c.Eq(t, smt.Const(t.S, k))) {
				ok = append(ok, k)
			}
		}
		if len(ok) == 0 {
			x.fail("infeasible", "")
		}
		for i := len(ok) - 1; i > 0; i-- {
			x.pushAlt(decision{ch: 2, val: ok[i]})
		}
		x.record(decision{ch: 2, val: ok[0]})
		x.assume(x.c.Eq(t, smt.Const(t.S, ok[0])))
		return ok[0]
	}
	for n := 0; ; n++ {
		if n > x.e.Opt.MaxConcretize {
			x.fail("bound", "concretization bound")
		}
		if x.replaying() {
			d := x.prefix[x.pos]
			x.record(d)
			eq := x.c.Eq(t, smt.Const(t.S, d.val))
			if d.ch == 0 {
				x.assume(eq)
				return d.val
			}
			x.assume(x.c.Not(eq))
			continue
		}
		if !x.modelOK {
			switch x.check(nil, true) {
			case smt.Unsat:
				x.fail("infeasible", "")
			case smt.Unknown:
				x.fail("unknown", "concretization")
			}
			x.model, x.modelOK = x.w.lastModel, true
		}
		v := smt.Eval(t, x.model)
		eq := x.c.Eq(t, smt.Const(t.S, v))
		if ne := x.c.Not(eq); x.feasible(ne) {
			x.pushAltWith(decision{ch: 1, val: v}, x.found, ne)
		}
		x.record(decision{ch: 0, val: v})
		x.assume(eq)
		return v
	}
}

// fullModel returns values for every symbolic input of the path (and extra).
func (x *Path) fullModel(extra *smt.Term) (map[*smt.Term]uint64, smt.Result) {
	if extra == nil && x.hardPC && x.modelOK {
		return maps.Clone(x.model), smt.Sat
	}
	r := x.check(extra, true)
	if r != smt.Sat {
		return nil, r
	}
	return x.w.lastModel, r
}

func (x *Path) modelByName(m map[*smt.Term]uint64) map[string]uint64 {
	r := map[string]uint64{}
	for _, v := range x.vars {
		r[v.Name] = m[v]
	}
	return r
}

// assert checks that c holds for every value on this path.
func (x *Path) assert(c *smt.Term, msg string) {
	x.w.st.Asserts++
	if c.IsTrue() {
		x.w.st.AssertsTrivial++
		return
	}
	nc := x.c.Not(c)
	x.w.st.AssertQueries++
	var m map[*smt.Term]uint64
	r := smt.Sat
	if x.modelOK && x.isHard(nc) {
		m = x.guess(nc)
	}
	if m == nil {
		m, r = x.fullModel(nc)
	}
	switch r {
	case smt.Unsat:
		x.assume(c)
		return
	case smt.Unknown:
		x.w.st.AssertUnknown++
		x.w.note("assertion undecided: " + msg)
		x.assume(c)
		return
	}
	x.report(msg, m)
	if !x.feasible(c) {
		x.fail("done", "assertion always fails here")
	}
	x.assume(c)
}

// violate reports a property violation at the current point unconditionally.
func (x *Path) violate(msg string) {
	m, r := x.fullModel(nil)
	switch r {
	case smt.Unsat:
		x.fail("infeasible", "")
	case smt.Unknown:
		x.w.note("violation undecided: " + msg)
		x.fail("unknown", msg)
	}
	x.report(msg, m)
	x.fail("done", msg)
}

func (x *Path) report(msg string, m map[*smt.Term]uint64) {
	v := Violation{Harness: x.e.Opt.Harness, Msg: msg, Model: x.modelByName(m)}
	for k, t := range x.tagModel(m) {
		v.Model[k] = t
	}
	x.w.violation(v)
}

// tagModel adds forked choices (which are not solver variables) to the model.
func (x *Path) tagModel(m map[*smt.Term]uint64) map[string]uint64 {
	r := map[string]uint64{}
	for k, v := range x.tags {
		if t, ok := v.(*smt.Term); ok {
			r[k] = smt.Eval(t, m)
		}
	}
	return r
}

func (x *Path) tag(name string, v *smt.Term) {
	n := x.names["!"+name]
	x.names["!"+name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	x.tags[name] = v
}

// rtPanic raises a Go run-time error.
func (x *Path) rtPanic(msg string) {
	panic(tpanic{v: Iface{T: x.e.rtErrType, V: Str{S: msg}}, msg: "runtime error: " + msg, rt: true})
}

func (x *Path) global(g *ssa.Global) *Value {
	if p, ok := x.globals[g]; ok {
		return p
	}
	if g.Pkg != nil && !x.e.perPath(g.Pkg) {
		if p, ok := x.w.globals[g]; ok {
			return p
		}
		x.ensureInit(g.Pkg)
		if p, ok := x.w.globals[g]; ok {
			return p
		}
		v := zero(g.Type().(*types.Pointer).Elem())
		x.w.globals[g] = &v
		return &v
	}
	v := zero(g.Type().(*types.Pointer).Elem())
	x.globals[g] = &v
	if g.Pkg != nil {
		x.ensureInit(g.Pkg)
	}
	return x.globals[g]
}

// ensureInit runs a package's initializer once (per path for the packages under
// test, once per worker for libraries).
func (x *Path) ensureInit(p *ssa.Package) {
	if x.e.perPath(p) {
		if x.inited[p] {
			return
		}
		x.inited[p] = true
	} else {
		if x.w.inited[p] {
			return
		}
		x.w.inited[p] = true
	}
	init := p.Func("init")
	p.Build()
	if init == nil || init.Blocks == nil || skipInit[p.Pkg.Path()] {
		return
	}
	steps, depth, old := x.steps, x.depth, x.initFn
	x.initFn = init
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if a, ok := r.(abort); ok && a.kind != "unsupported" {
				panic(r)
			}
			if x.e.isRepo(p.Pkg.Path()) || strings.HasPrefix(p.Pkg.Path(), HarnessPath) {
				panic(r)
			}
			switch r := r.(type) {
			case abort:
				x.w.note("init of " + p.Pkg.Path() + " cut short: " + r.msg)
			default:
				x.w.note(fmt.Sprintf("init of %s cut short: %v", p.Pkg.Path(), r))
			}
		}()
		x.callSSA(init, nil, nil)
	}()
	x.steps, x.depth, x.initFn = steps, depth, old
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/poll": true, "internal/godebug": true,
	"internal/cpu": true, "internal/testlog": true, "reflect": true, "net": true, "crypto/internal/fips140": true}

var _ = llvm.TVoid
