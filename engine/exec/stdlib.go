package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Library functions whose bodies are assembly, runtime hooks or built on
// unsafe layouts, by what they are documented to do.

func (x *Path) named(pkg, name string) types.Type {
	p := x.e.prog.ImportedPackage(pkg)
	if p == nil || p.Pkg.Scope().Lookup(name) == nil {
		panic(unsupported(pkg + "." + name))
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

// intText is the decimal text of an integer: exact for small ones, a
// placeholder for the others.
func (x *Path) intText(t *smt.Term, exact func(t *smt.Term) string) Str {
	if !t.IsConst() {
		if t.S.W > 8 && !x.branch(x.c.Cmp(smt.OUlt, t, smt.BVc(int(t.S.W), 16))) {
			return x.placeholder(t)
		}
		t = smt.Const(t.S, x.concretize(t))
	}
	return Str{S: exact(t)}
}

func (x *Path) round(t *smt.Term, up bool) *smt.Term {
	if t.IsConst() {
		if up {
			return smt.Fc(math.Ceil(t.Float()))
		}
		return smt.Fc(math.Floor(t.Float()))
	}
	c := x.c
	r := c.FRoundZ(t)
	if up {
		return c.Ite(c.FCmp(smt.OFLt, r, t), c.FBin(smt.OFAdd, r, smt.Fc(1)), r)
	}
	return c.Ite(c.FCmp(smt.OFLt, t, r), c.FBin(smt.OFSub, r, smt.Fc(1)), r)
}

// minmax is the builtin min or max of two floats.
func (x *Path) minmax(p, q *smt.Term, max bool) *smt.Term {
	c := x.c
	z := smt.Const(p.S, 0)
	zero := c.FBin(smt.OFAdd, p, q)
	pick := c.FCmp(smt.OFLt, q, p)
	if !max {
		zero = c.FNeg(c.FBin(smt.OFAdd, c.FNeg(p), c.FNeg(q)))
		pick = c.FCmp(smt.OFLt, p, q)
	}
	r := c.Ite(pick, p, q)
	r = c.Ite(c.And(c.FCmp(smt.OFEq, p, z), c.FCmp(smt.OFEq, q, z)), zero, r)
	return c.Ite(c.FIsNaN(p), p, c.Ite(c.FIsNaN(q), q, r))
}

func (x *Path) mathMinMax(p, q *smt.Term, max bool) *smt.Term {
	if p.IsConst() && q.IsConst() {
		if max {
			return smt.Fc(math.Max(p.Float(), q.Float()))
		}
		return smt.Fc(math.Min(p.Float(), q.Float()))
	}
	c := x.c
	inf := smt.Fc(math.Inf(-1))
	if max {
		inf = smt.Fc(math.Inf(1))
	}
	return c.Ite(c.Or(c.FCmp(smt.OFEq, p, inf), c.FCmp(smt.OFEq, q, inf)), inf, x.minmax(p, q, max))
}

func (x *Path) bitLen(t *smt.Term) *smt.Term {
	w := int(t.S.W)
	r := smt.BVc(64, 0)
	for i := 0; i < w; i++ {
		r = x.c.Ite(x.c.Cmp(smt.OUle, smt.BVc(w, uint64(1)<<i), t), smt.BVc(64, uint64(i+1)), r)
	}
	return r
}

// ---- errors

func (x *Path) unwrapErr(e Iface) []Iface {
	fn := x.methodByName(e.T, "Unwrap")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	switch r := x.callSSA(fn, []Value{copyVal(e.V)}, nil).(type) {
	case Iface:
		return []Iface{r}
	case Slice:
		var l []Iface
		for _, v := range r {
			l = append(l, v.(Iface))
		}
		return l
	}
	return nil
}

func (x *Path) errorsIs(e, target Iface, d int) bool {
	if e.T == nil || d > 50 {
		return false
	}
	if types.Comparable(target.T) && types.Identical(e.T, target.T) && x.branch(x.eqVals(e, target)) {
		return true
	}
	if fn := x.methodByName(e.T, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
		if r, ok := x.callSSA(fn, []Value{copyVal(e.V), target}, nil).(*smt.Term); ok && x.branch(r) {
			return true
		}
	}
	for _, u := range x.unwrapErr(e) {
		if x.errorsIs(u, target, d+1) {
			return true
		}
	}
	return false
}

func (x *Path) errorsAs(e Iface, t types.Type, p *Value, target Iface, d int) bool {
	if e.T == nil || d > 50 {
		return false
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if types.Implements(e.T, it) {
			*p = e
			return true
		}
	} else if types.Identical(e.T, t) {
		storeInto(p, copyVal(e.V))
		return true
	}
	if fn := x.methodByName(e.T, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
		if r, ok := x.callSSA(fn, []Value{copyVal(e.V), target}, nil).(*smt.Term); ok && x.branch(r) {
			return true
		}
	}
	for _, u := range x.unwrapErr(e) {
		if x.errorsAs(u, t, p, target, d+1) {
			return true
		}
	}
	return false
}

// errorf is fmt.Errorf: errors named by %w stay reachable.
func errorf(x *Path, a []Value) Value {
	f, args := str(a[0]), a[1].(Slice)
	msg := x.sprintf(f, args)
	var wrapped []Value
	if f.B == nil {
		n := 0
		for i := 0; i < len(f.S); i++ {
			if f.S[i] != '%' {
				continue
			}
			for i++; i < len(f.S) && strings.IndexByte("+-# 0123456789.", f.S[i]) >= 0; i++ {
			}
			if i >= len(f.S) || f.S[i] == '%' {
				continue
			}
			if f.S[i] == 'w' && n < len(args) {
				if e := args[n].(Iface); e.T != nil && x.methodByName(e.T, "Error") != nil {
					wrapped = append(wrapped, e)
				}
			}
			n++
		}
	}
	switch len(wrapped) {
	case 0:
		return x.mkErr(msg)
	case 1:
		var v Value = Struct{msg, wrapped[0]}
		return Iface{types.NewPointer(x.named("fmt", "wrapError")), GPtr{&v}}
	}
	var v Value = Struct{msg, Slice(wrapped)}
	return Iface{types.NewPointer(x.named("fmt", "wrapErrors")), GPtr{&v}}
}

// ---- sync.Map: a map kept in the first field, outside the watch of races

func syncMap(x *Path, v Value) *MapObj {
	p := ptrKey(v)
	if p == nil {
		x.nilDeref()
	}
	s := (*p).(Struct)
	if m, ok := s[0].(*MapObj); ok && m != nil {
		return m
	}
	m := &MapObj{idx: map[string]*mapEnt{}}
	s[0] = m
	return m
}

func (x *Path) quiet(f func()) {
	gw := x.gw
	x.gw = nil
	defer func() { x.gw = gw }()
	f()
}

func syncIntrinsics() map[string]intrinsic {
	f1 := func(f func(x *Path, a []Value) Value) intrinsic {
		return func(x *Path, _ *ssa.Function, a []Value) Value { return f(x, a) }
	}
	onMap := func(f func(x *Path, m *MapObj, a []Value) Value) intrinsic {
		return func(x *Path, _ *ssa.Function, a []Value) Value {
			var r Value
			x.quiet(func() { r = f(x, syncMap(x, a[0]), a[1:]) })
			return r
		}
	}
	get := func(x *Path, m *MapObj, k Value) (Value, bool) {
		if v, ok := x.mapGet(m, k); ok {
			return v, true
		}
		return Iface{}, false
	}
	return map[string]intrinsic{
		"(*sync.Map).Load": onMap(func(x *Path, m *MapObj, a []Value) Value {
			v, ok := get(x, m, a[0])
			return Tuple{v, smt.Bc(ok)}
		}),
		"(*sync.Map).Store": onMap(func(x *Path, m *MapObj, a []Value) Value {
			x.mapSet(m, a[0], a[1])
			return nil
		}),
		"(*sync.Map).LoadOrStore": onMap(func(x *Path, m *MapObj, a []Value) Value {
			if v, ok := get(x, m, a[0]); ok {
				return Tuple{v, smt.True}
			}
			x.mapSet(m, a[0], a[1])
			return Tuple{a[1], smt.False}
		}),
		"(*sync.Map).LoadAndDelete": onMap(func(x *Path, m *MapObj, a []Value) Value {
			v, ok := get(x, m, a[0])
			x.mapDel(m, a[0])
			return Tuple{v, smt.Bc(ok)}
		}),
		"(*sync.Map).Swap": onMap(func(x *Path, m *MapObj, a []Value) Value {
			v, ok := get(x, m, a[0])
			x.mapSet(m, a[0], a[1])
			return Tuple{v, smt.Bc(ok)}
		}),
		"(*sync.Map).Delete": onMap(func(x *Path, m *MapObj, a []Value) Value { x.mapDel(m, a[0]); return nil }),
		"(*sync.Map).Clear": onMap(func(x *Path, m *MapObj, a []Value) Value {
			*m = MapObj{idx: map[string]*mapEnt{}}
			return nil
		}),
		"(*sync.Map).CompareAndSwap": onMap(func(x *Path, m *MapObj, a []Value) Value {
			v, ok := get(x, m, a[0])
			if ok && x.branch(x.eqVals(v, a[1])) {
				x.mapSet(m, a[0], a[2])
				return smt.True
			}
			return smt.False
		}),
		"(*sync.Map).Range": f1(func(x *Path, a []Value) Value {
			m := syncMap(x, a[0])
			ents := append([]*mapEnt{}, m.ents...)
			for _, e := range ents {
				if !e.del && !x.branch(term(x.call(a[1].(*Closure), []Value{e.k, e.v}))) {
					break
				}
			}
			return nil
		}),
		"(*sync/atomic.Value).Load": f1(func(x *Path, a []Value) Value {
			if f, ok := (*ptrKey(a[0])).(Struct)[0].(Iface); ok {
				return f
			}
			return Iface{}
		}),
		"(*sync/atomic.Value).Store": f1(func(x *Path, a []Value) Value {
			if a[1].(Iface).T == nil {
				x.reflectPanic("sync/atomic: store of nil value into Value")
			}
			(*ptrKey(a[0])).(Struct)[0] = a[1]
			return nil
		}),
		"(*sync/atomic.Value).Swap": f1(func(x *Path, a []Value) Value {
			s := (*ptrKey(a[0])).(Struct)
			old, _ := s[0].(Iface)
			s[0] = a[1]
			return old
		}),
		"(*sync.WaitGroup).Add":  goroutineNop,
		"(*sync.WaitGroup).Done": goroutineNop,
		"(*sync.WaitGroup).Wait": goroutineNop,
		"(*sync.WaitGroup).Go": f1(func(x *Path, a []Value) Value {
			x.w.note("go statement run synchronously")
			x.call(a[1].(*Closure), nil)
			return nil
		}),
	}
}

// ---- regular expressions: leftmost-first search with captures

func (x *Path) reRunes(s Str) (rs []*smt.Term, off []int) {
	for i := 0; i < s.Len(); {
		r, n := x.decodeRune(s, i)
		rs = append(rs, x.narrow(r))
		off = append(off, i)
		i += n
	}
	return rs, append(off, s.Len())
}

// reFind gives the capture offsets of the first match at rune from or later,
// deciding every character test as it meets it.
func (x *Path) reFind(re *symRegexp, rs []*smt.Term, from int) []int {
	c := x.c
	n := len(rs)
	isNL := func(i int) bool { return x.branch(c.Eq(rs[i], smt.Const(rs[i].S, '\n'))) }
	isWord := func(i int) bool {
		if i < 0 || i >= n {
			return false
		}
		w := smt.False
		for _, p := range [][2]uint64{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}} {
			w = c.Or(w, c.And(c.Cmp(smt.OUle, smt.Const(rs[i].S, p[0]), rs[i]), c.Cmp(smt.OUle, rs[i], smt.Const(rs[i].S, p[1]))))
		}
		return x.branch(w)
	}
	caps := make([]int, 2*(re.ncap+1))
	var seen map[[2]int]bool
	var run func(pc uint32, pos int) bool
	run = func(pc uint32, pos int) bool {
		for {
			k := [2]int{int(pc), pos}
			in := &re.prog.Inst[pc]
			if in.Op != syntax.InstMatch {
				if seen[k] {
					return false
				}
				seen[k] = true
			}
			switch in.Op {
			case syntax.InstFail:
				return false
			case syntax.InstMatch:
				caps[1] = pos
				return true
			case syntax.InstAlt, syntax.InstAltMatch:
				if run(in.Out, pos) {
					return true
				}
				pc = in.Arg
			case syntax.InstNop:
				pc = in.Out
			case syntax.InstCapture:
				if int(in.Arg) < len(caps) {
					old := caps[in.Arg]
					caps[in.Arg] = pos
					if run(in.Out, pos) {
						return true
					}
					caps[in.Arg] = old
					return false
				}
				pc = in.Out
			case syntax.InstEmptyWidth:
				f := syntax.EmptyOp(in.Arg)
				if f&syntax.EmptyBeginText != 0 && pos != 0 || f&syntax.EmptyEndText != 0 && pos != n {
					return false
				}
				if f&syntax.EmptyBeginLine != 0 && pos != 0 && !isNL(pos-1) {
					return false
				}
				if f&syntax.EmptyEndLine != 0 && pos != n && !isNL(pos) {
					return false
				}
				if f&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					b := isWord(pos-1) != isWord(pos)
					if f&syntax.EmptyWordBoundary != 0 && !b || f&syntax.EmptyNoWordBoundary != 0 && b {
						return false
					}
				}
				pc = in.Out
			default:
				if pos >= n || !x.branch(re.runeMatch(x, in, rs[pos])) {
					return false
				}
				pc = in.Out
				pos++
			}
		}
	}
	for start := from; start <= n; start++ {
		for i := range caps {
			caps[i] = -1
		}
		caps[0] = start
		seen = map[[2]int]bool{}
		if run(uint32(re.prog.Start), start) {
			caps[0] = start
			return caps
		}
	}
	return nil
}

// reAll gives the byte offsets of up to max successive matches.
func (x *Path) reAll(re *symRegexp, s Str, max int) [][]int {
	rs, off := x.reRunes(s)
	var all [][]int
	prevEnd := -1
	for pos := 0; pos <= len(rs) && (max < 0 || len(all) < max); {
		m := x.reFind(re, rs, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prevEnd { // an empty match after a match
				accept = false
			}
			pos++
		} else {
			pos = m[1]
		}
		if m[1] == m[0] && m[0] == prevEnd {
			accept = false
		}
		prevEnd = m[1]
		if accept {
			b := make([]int, len(m))
			for i, k := range m {
				b[i] = -1
				if k >= 0 {
					b[i] = off[k]
				}
			}
			all = append(all, b)
		}
	}
	return all
}

func (x *Path) reExpand(re *symRegexp, tmpl Str, s Str, m []int) Str {
	if tmpl.B != nil {
		for i := 0; i < tmpl.Len(); i++ {
			if t := tmpl.At(i); !t.IsConst() && x.branch(x.c.Eq(t, smt.BVc(8, '$'))) {
				panic(unsupported("symbolic regexp template"))
			}
		}
	}
	r := Str{}
	for i := 0; i < tmpl.Len(); {
		t := tmpl.At(i)
		if !t.IsConst() || t.K != '$' {
			r = catStr(r, tmpl.Slice(i, i+1))
			i++
			continue
		}
		if i+1 < tmpl.Len() && tmpl.At(i+1).IsConst() && tmpl.At(i+1).K == '$' {
			r = catStr(r, Str{S: "$"})
			i += 2
			continue
		}
		j := i + 1
		brace := j < tmpl.Len() && tmpl.At(j).IsConst() && tmpl.At(j).K == '{'
		if brace {
			j++
		}
		k := j
		for k < tmpl.Len() && tmpl.At(k).IsConst() {
			c := byte(tmpl.At(k).K)
			if c != '_' && !(c >= '0' && c <= '9') && !(c|32 >= 'a' && c|32 <= 'z') {
				break
			}
			k++
		}
		name := ""
		for q := j; q < k; q++ {
			name += string(rune(tmpl.At(q).K))
		}
		if name == "" || brace && !(k < tmpl.Len() && tmpl.At(k).IsConst() && tmpl.At(k).K == '}') {
			r = catStr(r, Str{S: "$"})
			i++
			continue
		}
		if brace {
			k++
		}
		i = k
		g, err := strconv.Atoi(name)
		if err != nil {
			g = -1
			for q, nm := range re.names {
				if nm == name {
					g = q
				}
			}
		}
		if g >= 0 && 2*g+1 < len(m) && m[2*g] >= 0 {
			r = catStr(r, s.Slice(m[2*g], m[2*g+1]))
		}
	}
	return r
}

func (x *Path) reReplace(re *symRegexp, s Str, f func(m []int) Str) Str {
	r := Str{}
	at := 0
	for _, m := range x.reAll(re, s, -1) {
		r = catStr(r, s.Slice(at, m[0]))
		r = catStr(r, f(m))
		at = m[1]
	}
	return catStr(r, s.Slice(at, s.Len()))
}

func ints(l []int) Value {
	r := make(Slice, len(l))
	for i, k := range l {
		r[i] = i64(k)
	}
	return r
}

func regexpIntrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	type fn = func(x *Path, re *symRegexp, s Str, a []Value) Value
	def := func(name string, f fn) {
		m["(*regexp.Regexp)."+name] = func(x *Path, _ *ssa.Function, a []Value) Value {
			p := ptrKey(a[0])
			if p == nil {
				x.nilDeref()
			}
			re, ok := (*p).(*symRegexp)
			if !ok {
				panic(unsupported("regexp value"))
			}
			if len(a) < 2 {
				return f(x, re, Str{}, nil)
			}
			s, ok := a[1].(Str)
			if !ok {
				if sl, ok := a[1].(Slice); ok {
					s = sliceStr(sl)
				} else {
					return f(x, re, Str{}, a[1:])
				}
			}
			return f(x, re, s, a[2:])
		}
	}
	sub := func(s Str, m []int, g int) Str {
		if m[2*g] < 0 {
			return Str{}
		}
		return s.Slice(m[2*g], m[2*g+1])
	}
	subs := func(s Str, m []int, bytes bool) Slice {
		r := Slice{}
		for g := 0; 2*g < len(m); g++ {
			switch {
			case !bytes:
				r = append(r, sub(s, m, g))
			case m[2*g] < 0:
				r = append(r, Slice(nil))
			default:
				r = append(r, strSlice(sub(s, m, g)))
			}
		}
		return r
	}
	first := func(f func(s Str, m []int) Value, none Value) fn {
		return func(x *Path, re *symRegexp, s Str, a []Value) Value {
			if l := x.reAll(re, s, 1); len(l) > 0 {
				return f(s, l[0])
			}
			return none
		}
	}
	all := func(f func(s Str, m []int) Value) fn {
		return func(x *Path, re *symRegexp, s Str, a []Value) Value {
			n := int(int64(x.concretize(term(a[0]))))
			var r Slice
			for _, m := range x.reAll(re, s, n) {
				r = append(r, f(s, m))
			}
			return r
		}
	}
	fStr := func(s Str, m []int) Value { return sub(s, m, 0) }
	fBytes := func(s Str, m []int) Value { return strSlice(sub(s, m, 0)) }
	fIdx := func(s Str, m []int) Value { return ints(m[:2]) }
	fSubs := func(s Str, m []int) Value { return subs(s, m, false) }
	fBSubs := func(s Str, m []int) Value { return subs(s, m, true) }
	fSubIdx := func(s Str, m []int) Value { return ints(m) }
	for name, f := range map[string]func(s Str, m []int) Value{
		"String": fStr, "": fBytes, "Index": fIdx, "StringIndex": fIdx, "StringSubmatch": fSubs, "Submatch": fBSubs,
		"StringSubmatchIndex": fSubIdx, "SubmatchIndex": fSubIdx,
	} {
		var none Value = Slice(nil)
		if name == "String" {
			none = Str{}
		}
		def("Find"+name, first(f, none))
		def("FindAll"+name, all(f))
	}
	def("ReplaceAllString", func(x *Path, re *symRegexp, s Str, a []Value) Value {
		return x.reReplace(re, s, func(m []int) Str { return x.reExpand(re, str(a[0]), s, m) })
	})
	def("ReplaceAllLiteralString", func(x *Path, re *symRegexp, s Str, a []Value) Value {
		return x.reReplace(re, s, func(m []int) Str { return str(a[0]) })
	})
	def("ReplaceAllStringFunc", func(x *Path, re *symRegexp, s Str, a []Value) Value {
		return x.reReplace(re, s, func(m []int) Str { return str(x.call(a[0].(*Closure), []Value{sub(s, m, 0)})) })
	})
	def("ReplaceAll", func(x *Path, re *symRegexp, s Str, a []Value) Value {
		return strSlice(x.reReplace(re, s, func(m []int) Str { return x.reExpand(re, sliceStr(a[0]), s, m) }))
	})
	def("ReplaceAllLiteral", func(x *Path, re *symRegexp, s Str, a []Value) Value {
		return strSlice(x.reReplace(re, s, func(m []int) Str { return sliceStr(a[0]) }))
	})
	def("ReplaceAllFunc", func(x *Path, re *symRegexp, s Str, a []Value) Value {
		return strSlice(x.reReplace(re, s, func(m []int) Str {
			return sliceStr(x.call(a[0].(*Closure), []Value{strSlice(sub(s, m, 0))}))
		}))
	})
	def("Split", func(x *Path, re *symRegexp, s Str, a []Value) Value {
		n := int(int64(x.concretize(term(a[0]))))
		if n == 0 {
			return Slice(nil)
		}
		if re.src.Len() > 0 && s.Len() == 0 {
			return Slice{Str{}}
		}
		beg, end := 0, 0
		r := Slice{}
		for _, m := range x.reAll(re, s, n) {
			if n > 0 && len(r) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				r = append(r, s.Slice(beg, end))
			}
			beg = m[1]
		}
		if end != s.Len() {
			r = append(r, s.Slice(beg, s.Len()))
		}
		return r
	})
	def("NumSubexp", func(x *Path, re *symRegexp, s Str, a []Value) Value { return i64(re.ncap) })
	def("SubexpNames", func(x *Path, re *symRegexp, s Str, a []Value) Value {
		r := Slice{}
		for _, n := range re.names {
			r = append(r, Str{S: n})
		}
		return r
	})
	def("SubexpIndex", func(x *Path, re *symRegexp, s Str, a []Value) Value {
		k := x.cstring(s)
		for i, n := range re.names {
			if k != "" && n == k {
				return i64(i)
			}
		}
		return i64(-1)
	})
	def("Longest", func(x *Path, re *symRegexp, s Str, a []Value) Value { panic(unsupported("regexp Longest")) })
	return m
}

// ---- sorting through reflectlite, and the rest

func swapper(x *Path, v Iface) Value {
	sl, ok := v.V.(Slice)
	if !ok {
		x.reflectPanic("reflect: call of Swapper on " + kindOf(v.T).String() + " Value")
	}
	return &Closure{Nat: func(x *Path, a []Value) Value {
		i, _ := x.index(a[0], len(sl), false)
		j, _ := x.index(a[1], len(sl), false)
		p, q := copyVal(sl[i]), copyVal(sl[j])
		storeInto(&sl[i], q)
		storeInto(&sl[j], p)
		return nil
	}}
}

func stdlibIntrinsics() map[string]intrinsic {
	f1 := func(f func(x *Path, a []Value) Value) intrinsic {
		return func(x *Path, _ *ssa.Function, a []Value) Value { return f(x, a) }
	}
	m := map[string]intrinsic{
		"errors.Is": f1(func(x *Path, a []Value) Value {
			e, t := a[0].(Iface), a[1].(Iface)
			if e.T == nil || t.T == nil {
				return smt.Bc(e.T == nil && t.T == nil)
			}
			return smt.Bc(x.errorsIs(e, t, 0))
		}),
		"errors.As": f1(func(x *Path, a []Value) Value {
			e, t := a[0].(Iface), a[1].(Iface)
			if e.T == nil {
				return smt.False
			}
			g, ok := t.V.(GPtr)
			if !ok || g.P == nil {
				x.reflectPanic("errors: target must be a non-nil pointer")
			}
			return smt.Bc(x.errorsAs(e, deref(t.T), g.P, t, 0))
		}),
		"fmt.Errorf":   f1(errorf),
		"math.Floor":   f1(func(x *Path, a []Value) Value { return x.round(term(a[0]), false) }),
		"math.Ceil":    f1(func(x *Path, a []Value) Value { return x.round(term(a[0]), true) }),
		"math.Max":     f1(func(x *Path, a []Value) Value { return x.mathMinMax(term(a[0]), term(a[1]), true) }),
		"math.Min":     f1(func(x *Path, a []Value) Value { return x.mathMinMax(term(a[0]), term(a[1]), false) }),
		"math.Signbit": f1(func(x *Path, a []Value) Value { return x.signbit(term(a[0])) }),
		"math.Copysign": f1(func(x *Path, a []Value) Value {
			t := x.c.FAbs(term(a[0]))
			return x.c.Ite(x.signbit(term(a[1])), x.c.FNeg(t), t)
		}),
		"math.Float32bits": f1(func(x *Path, a []Value) Value {
			t := term(a[0])
			if t.IsConst() {
				return smt.BVc(32, t.K)
			}
			b := x.NewVar("f32bits", smt.BV(32))
			x.assume(x.c.Eq(x.c.FFromBits(b, smt.F32), t))
			return b
		}),
		"math/bits.Len64": f1(func(x *Path, a []Value) Value { return x.bitLen(term(a[0])) }),
		"math/bits.Len32": f1(func(x *Path, a []Value) Value { return x.bitLen(term(a[0])) }),
		"math/bits.Len16": f1(func(x *Path, a []Value) Value { return x.bitLen(term(a[0])) }),
		"math/bits.Len8":  f1(func(x *Path, a []Value) Value { return x.bitLen(term(a[0])) }),
		"math/bits.Len":   f1(func(x *Path, a []Value) Value { return x.bitLen(term(a[0])) }),
		"strconv.Itoa": f1(func(x *Path, a []Value) Value {
			return x.intText(term(a[0]), func(t *smt.Term) string { return strconv.Itoa(int(t.Int())) })
		}),
		"strconv.FormatInt": f1(func(x *Path, a []Value) Value {
			base := int(x.concretize(term(a[1])))
			return x.intText(term(a[0]), func(t *smt.Term) string { return strconv.FormatInt(t.Int(), base) })
		}),
		"strconv.FormatUint": f1(func(x *Path, a []Value) Value {
			base := int(x.concretize(term(a[1])))
			return x.intText(term(a[0]), func(t *smt.Term) string { return strconv.FormatUint(t.K, base) })
		}),
		"internal/reflectlite.Swapper": f1(func(x *Path, a []Value) Value { return swapper(x, a[0].(Iface)) }),
		"reflect.Swapper":              f1(func(x *Path, a []Value) Value { return swapper(x, a[0].(Iface)) }),
		"internal/reflectlite.ValueOf": f1(func(x *Path, a []Value) Value {
			f := a[0].(Iface)
			if f.T == nil {
				return RVal{}
			}
			return RVal{T: f.T, V: f.V}
		}),
		"(internal/reflectlite.Value).Len": f1(func(x *Path, a []Value) Value {
			r, _ := a[0].(RVal)
			switch v := r.V.(type) {
			case Slice:
				return i64(len(v))
			case Str:
				return i64(v.Len())
			}
			panic(unsupported("reflectlite Len"))
		}),
		"internal/reflectlite.TypeOf": f1(func(x *Path, a []Value) Value {
			f := a[0].(Iface)
			if f.T == nil {
				return Iface{}
			}
			return Iface{T: x.named("internal/reflectlite", "rtype"), V: RType{f.T}}
		}),
		"os.NewFile": f1(func(x *Path, a []Value) Value {
			var v Value = Struct{GPtr{}}
			return GPtr{&v}
		}),
		"(*os.File).Write": f1(func(x *Path, a []Value) Value {
			x.procWrite(x.fdOf(a[0]), sliceStr(a[1].(Slice)))
			return Tuple{i64(len(a[1].(Slice))), Iface{}}
		}),
		"(*os.File).WriteString": f1(func(x *Path, a []Value) Value {
			x.procWrite(x.fdOf(a[0]), str(a[1]))
			return Tuple{i64(str(a[1]).Len()), Iface{}}
		}),
		"(*os.File).Sync":       f1(func(x *Path, a []Value) Value { return Iface{} }),
		"(*log.Logger).output":  f1(func(x *Path, a []Value) Value { x.procWrite(2, Str{S: "log"}); return Iface{} }),
		"(*log.Logger).Fatal":   f1(func(x *Path, a []Value) Value { return x.fatal("log.Fatal") }),
		"(*log.Logger).Fatalf":  f1(func(x *Path, a []Value) Value { return x.fatal("log.Fatal") }),
		"(*log.Logger).Fatalln": f1(func(x *Path, a []Value) Value { return x.fatal("log.Fatal") }),
		"log.Fatalln":           f1(func(x *Path, a []Value) Value { return x.fatal("log.Fatal") }),
		"maps.clone": f1(func(x *Path, a []Value) Value {
			f := a[0].(Iface)
			m, _ := f.V.(*MapObj)
			if m == nil {
				return f
			}
			x.mapAccess(m, "r")
			n := &MapObj{idx: map[string]*mapEnt{}, sym: m.sym, n: m.n}
			for _, e := range m.ents {
				if e.del {
					continue
				}
				c := &mapEnt{k: copyVal(e.k), v: copyVal(e.v)}
				n.ents = append(n.ents, c)
				if ck, ok := concKey(c.k); ok {
					n.idx[ck] = c
				}
			}
			return Iface{f.T, n}
		}),
		"(*encoding/json.Encoder).Encode": func(x *Path, fn *ssa.Function, a []Value) Value {
			st := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
			s := (*ptrKey(a[0])).(Struct)
			var w Iface
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Name() {
				case "w":
					w = s[i].(Iface)
				case "escapeHTML":
					if t := term(s[i]); !t.IsTrue() {
						panic(unsupported("json without HTML escapes"))
					}
				case "indentPrefix", "indentValue":
					if str(s[i]).Len() > 0 {
						panic(unsupported("json indentation"))
					}
				}
			}
			t, err := x.jsonVal(a[1].(Iface), 0)
			if err != nil {
				return err
			}
			r := x.fwrite(w, catStr(t, Str{S: "\n"})).(Tuple)
			return r[1]
		},
		"encoding/json.NewEncoder": func(x *Path, fn *ssa.Function, a []Value) Value {
			t := deref(fn.Signature.Results().At(0).Type())
			v := zero(t)
			st := t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Name() {
				case "w":
					v.(Struct)[i] = a[0]
				case "escapeHTML":
					v.(Struct)[i] = smt.True
				}
			}
			return GPtr{&v}
		},
	}
	for k, v := range syncIntrinsics() {
		m[k] = v
	}
	for k, v := range regexpIntrinsics() {
		m[k] = v
	}
	return m
}

func (x *Path) signbit(t *smt.Term) *smt.Term {
	if t.IsConst() {
		return smt.Bc(math.Signbit(t.Float()))
	}
	b := term(intrinsics["math.Float64bits"](x, nil, []Value{t}))
	return x.c.Eq(x.c.Extract(b, 63, 63), smt.BVc(1, 1))
}

// ---- more of reflect

func numKind(k reflect.Kind) (isInt, isUint, isFloat bool) {
	return k >= reflect.Int && k <= reflect.Int64, k >= reflect.Uint && k <= reflect.Uintptr, k == reflect.Float32 || k == reflect.Float64
}

func (x *Path) isZero(t types.Type, v Value) *smt.Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if s, ok := v.(Str); ok {
			return smt.Bc(s.Len() == 0)
		}
		if tt, ok := v.(*smt.Term); ok {
			if tt.S.K == smt.KFP {
				return x.c.Eq(tt, smt.Const(tt.S, 0))
			}
			if tt.S.K == smt.KBool {
				return x.c.Not(tt)
			}
			return x.c.Eq(tt, smt.Const(tt.S, 0))
		}
		return smt.Bc(isNilPtr(v))
	case *types.Struct:
		r := smt.True
		for i, f := range v.(Struct) {
			r = x.c.And(r, x.isZero(u.Field(i).Type(), f))
		}
		return r
	case *types.Array:
		r := smt.True
		for _, f := range v.(Array) {
			r = x.c.And(r, x.isZero(u.Elem(), f))
		}
		return r
	}
	switch v := v.(type) {
	case Slice:
		return smt.Bc(v == nil)
	case *MapObj:
		return smt.Bc(v == nil)
	case Iface:
		return smt.Bc(v.T == nil)
	case *Closure:
		return smt.Bc(v == nil)
	case *ChanObj:
		return smt.Bc(v == nil)
	}
	return smt.Bc(isNilPtr(v))
}

func (x *Path) structField(t types.Type, i int) Value {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		x.reflectPanic("reflect: Field of non-struct type " + typeName(t))
	}
	if i < 0 || i >= st.NumFields() {
		x.reflectPanic("reflect: Field index out of bounds")
	}
	f := st.Field(i)
	ft := x.named("reflect", "StructField")
	v := zero(ft).(Struct)
	s := ft.Underlying().(*types.Struct)
	for k := 0; k < s.NumFields(); k++ {
		switch s.Field(k).Name() {
		case "Name":
			v[k] = Str{S: f.Name()}
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				v[k] = Str{S: f.Pkg().Path()}
			}
		case "Type":
			v[k] = x.rtypeOf(f.Type())
		case "Tag":
			v[k] = Str{S: st.Tag(i)}
		case "Index":
			v[k] = Slice{i64(i)}
		case "Anonymous":
			v[k] = smt.Bc(f.Embedded())
		}
	}
	return v
}

func (x *Path) rtypeOf(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{T: types.NewPointer(x.named("reflect", "rtype")), V: RType{t}}
}

func (x *Path) rtypeMore(name string, t types.Type, args []Value) (Value, bool) {
	switch name {
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{S: n.Obj().Pkg().Path()}, true
		}
		return Str{}, true
	case "NumField":
		if st, ok := t.Underlying().(*types.Struct); ok {
			return i64(st.NumFields()), true
		}
		x.reflectPanic("reflect: NumField of non-struct type " + typeName(t))
	case "Field":
		return x.structField(t, int(int64(x.concretize(term(args[1]))))), true
	case "FieldByName":
		n := x.cstring(args[1])
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					return Tuple{x.structField(t, i), smt.True}, true
				}
			}
			return Tuple{zero(x.named("reflect", "StructField")), smt.False}, true
		}
	case "Key":
		if m, ok := t.Underlying().(*types.Map); ok {
			return x.rtypeOf(m.Key()), true
		}
	case "Len":
		if m, ok := t.Underlying().(*types.Array); ok {
			return i64(int(m.Len())), true
		}
	case "Bits", "Size":
		n := types.SizesFor("gc", "amd64").Sizeof(t)
		if name == "Bits" {
			n *= 8
		}
		return i64(int(n)), true
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return i64(it.NumMethods()), true
		}
		n := 0
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return i64(n), true
	case "NumIn", "NumOut":
		if s, ok := t.Underlying().(*types.Signature); ok {
			if name == "NumIn" {
				return i64(s.Params().Len()), true
			}
			return i64(s.Results().Len()), true
		}
	}
	return nil, false
}

func reflectMore() map[string]intrinsic {
	m := map[string]intrinsic{}
	def := func(name string, f func(x *Path, r RVal, a []Value) Value) {
		m["(reflect.Value)."+name] = func(x *Path, _ *ssa.Function, a []Value) Value {
			r, _ := a[0].(RVal)
			return f(x, r, a[1:])
		}
	}
	kk := func(r RVal) reflect.Kind {
		if r.T == nil {
			return reflect.Invalid
		}
		return kindOf(r.T)
	}
	bad := func(x *Path, name string, r RVal) {
		if k := kk(r); k == reflect.Invalid {
			x.reflectPanic("reflect: call of reflect.Value." + name + " on zero Value")
		} else {
			x.reflectPanic("reflect: call of reflect.Value." + name + " on " + k.String() + " Value")
		}
	}
	def("CanInt", func(x *Path, r RVal, a []Value) Value { i, _, _ := numKind(kk(r)); return smt.Bc(i) })
	def("CanUint", func(x *Path, r RVal, a []Value) Value { _, u, _ := numKind(kk(r)); return smt.Bc(u) })
	def("CanFloat", func(x *Path, r RVal, a []Value) Value { _, _, f := numKind(kk(r)); return smt.Bc(f) })
	def("CanComplex", func(x *Path, r RVal, a []Value) Value {
		return smt.Bc(kk(r) == reflect.Complex64 || kk(r) == reflect.Complex128)
	})
	def("CanInterface", func(x *Path, r RVal, a []Value) Value {
		if r.T == nil {
			bad(x, "CanInterface", r)
		}
		return smt.Bc(!r.RO)
	})
	def("CanAddr", func(x *Path, r RVal, a []Value) Value { return smt.Bc(r.P != nil) })
	def("CanSet", func(x *Path, r RVal, a []Value) Value { return smt.Bc(r.P != nil && !r.RO) })
	def("Addr", func(x *Path, r RVal, a []Value) Value {
		if r.P == nil {
			x.reflectPanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{T: types.NewPointer(r.T), V: GPtr{r.P}, RO: r.RO}
	})
	def("Set", func(x *Path, r RVal, a []Value) Value {
		if r.P == nil {
			x.reflectPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		v, _ := a[0].(RVal)
		if types.IsInterface(r.T) {
			*r.P = asIface(v.T, copyVal(v.V))
		} else {
			storeInto(r.P, copyVal(v.V))
		}
		return nil
	})
	def("Int", func(x *Path, r RVal, a []Value) Value {
		if i, _, _ := numKind(kk(r)); !i {
			bad(x, "Int", r)
		}
		return x.c.Sext(term(r.V), 64)
	})
	def("Uint", func(x *Path, r RVal, a []Value) Value {
		if _, u, _ := numKind(kk(r)); !u {
			bad(x, "Uint", r)
		}
		return x.c.Zext(term(r.V), 64)
	})
	def("Float", func(x *Path, r RVal, a []Value) Value {
		if _, _, f := numKind(kk(r)); !f {
			bad(x, "Float", r)
		}
		return x.c.FToF(term(r.V), smt.F64)
	})
	def("Bool", func(x *Path, r RVal, a []Value) Value {
		if kk(r) != reflect.Bool {
			bad(x, "Bool", r)
		}
		return r.V
	})
	def("IsZero", func(x *Path, r RVal, a []Value) Value {
		if r.T == nil {
			bad(x, "IsZero", r)
		}
		return x.isZero(r.T, r.V)
	})
	def("NumField", func(x *Path, r RVal, a []Value) Value {
		if kk(r) != reflect.Struct {
			bad(x, "NumField", r)
		}
		return i64(len(r.V.(Struct)))
	})
	field := func(x *Path, r RVal, i int) Value {
		st := r.T.Underlying().(*types.Struct)
		s := r.V.(Struct)
		if r.P != nil {
			if q, ok := (*r.P).(Struct); ok {
				s = q
			}
		}
		f := RVal{T: st.Field(i).Type(), V: s[i], RO: r.RO || !st.Field(i).Exported()}
		if r.P != nil {
			f.P = &s[i]
		}
		return f
	}
	def("Field", func(x *Path, r RVal, a []Value) Value {
		if kk(r) != reflect.Struct {
			bad(x, "Field", r)
		}
		i := int(int64(x.concretize(term(a[0]))))
		if i < 0 || i >= len(r.V.(Struct)) {
			x.reflectPanic("reflect: Field index out of range")
		}
		return field(x, r, i)
	})
	def("FieldByName", func(x *Path, r RVal, a []Value) Value {
		if kk(r) != reflect.Struct {
			bad(x, "FieldByName", r)
		}
		n := x.cstring(a[0])
		st := r.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return field(x, r, i)
			}
		}
		return RVal{}
	})
	def("MapKeys", func(x *Path, r RVal, a []Value) Value {
		if kk(r) != reflect.Map {
			bad(x, "MapKeys", r)
		}
		out := Slice{}
		mo, _ := r.V.(*MapObj)
		if mo != nil {
			x.mapAccess(mo, "r")
			for _, e := range mo.ents {
				if !e.del {
					out = append(out, RVal{T: r.T.Underlying().(*types.Map).Key(), V: e.k})
				}
			}
		}
		return out
	})
	def("MapIndex", func(x *Path, r RVal, a []Value) Value {
		if kk(r) != reflect.Map {
			bad(x, "MapIndex", r)
		}
		mt := r.T.Underlying().(*types.Map)
		k, _ := a[0].(RVal)
		var key Value = k.V
		if types.IsInterface(mt.Key()) {
			key = asIface(k.T, k.V)
		}
		mo, _ := r.V.(*MapObj)
		if mo == nil {
			return RVal{}
		}
		v, ok := x.mapGet(mo, key)
		if !ok {
			return RVal{}
		}
		return RVal{T: mt.Elem(), V: v}
	})
	def("CanConvert", func(x *Path, r RVal, a []Value) Value {
		t := a[0].(Iface).V.(RType).T
		if r.T == nil {
			bad(x, "CanConvert", r)
		}
		return smt.Bc(types.ConvertibleTo(r.T, t))
	})
	def("Convert", func(x *Path, r RVal, a []Value) Value {
		t := a[0].(Iface).V.(RType).T
		if r.T == nil || !types.ConvertibleTo(r.T, t) {
			x.reflectPanic("reflect.Value.Convert: value of type " + typeName(r.T) + " cannot be converted to type " + typeName(t))
		}
		if types.IsInterface(t) {
			return RVal{T: t, V: asIface(r.T, copyVal(r.V))}
		}
		if basicOf(r.T) == nil && basicOf(t) == nil && types.Identical(r.T.Underlying(), t.Underlying()) {
			return RVal{T: t, V: copyVal(r.V)}
		}
		return RVal{T: t, V: x.convert(r.V, r.T, t)}
	})
	m["reflect.Zero"] = func(x *Path, _ *ssa.Function, a []Value) Value {
		t := a[0].(Iface).V.(RType).T
		return RVal{T: t, V: zero(t)}
	}
	m["reflect.MakeSlice"] = func(x *Path, _ *ssa.Function, a []Value) Value {
		t := a[0].(Iface).V.(RType).T
		u, ok := t.Underlying().(*types.Slice)
		n, c := int(int64(x.concretize(term(a[1])))), int(int64(x.concretize(term(a[2]))))
		if !ok || n < 0 || c < n {
			x.reflectPanic("reflect.MakeSlice of bad type or length")
		}
		s := make(Slice, c)
		for i := range s {
			s[i] = zero(u.Elem())
		}
		return RVal{T: t, V: s[:n]}
	}
	m["reflect.New"] = func(x *Path, _ *ssa.Function, a []Value) Value {
		t := a[0].(Iface).V.(RType).T
		v := zero(t)
		return RVal{T: types.NewPointer(t), V: GPtr{&v}}
	}
	m["(reflect.StructTag).Get"] = func(x *Path, _ *ssa.Function, a []Value) Value {
		return Str{S: reflect.StructTag(x.cstring(a[0])).Get(x.cstring(a[1]))}
	}
	return m
}

func sortedEnts(x *Path, m *MapObj, key func(Value) string) []*mapEnt {
	var l []*mapEnt
	for _, e := range m.ents {
		if !e.del {
			l = append(l, e)
		}
	}
	ks := map[*mapEnt]string{}
	for _, e := range l {
		ks[e] = key(e.k)
	}
	sort.SliceStable(l, func(i, j int) bool { return ks[l[i]] < ks[l[j]] })
	return l
}

var _ = fmt.Sprint
var _ = token.LSS

// selectStmt takes the first case that is ready.
func (x *Path) selectStmt(fr *frame, ci *cinstr, in *ssa.Select) Value {
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	res := make(Tuple, 2+nrecv)
	res[0], res[1] = i64(-1), smt.False
	k := 2
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			res[k] = zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
			k++
		}
	}
	k = 2
	op := 0
	for i, s := range in.States {
		c, _ := x.get(fr, &ci.ops[op]).(*ChanObj)
		op += 2
		if s.Dir == types.RecvOnly {
			if c != nil && len(c.buf) > 0 {
				res[0], res[1], res[k] = i64(i), smt.True, c.buf[0]
				c.buf = c.buf[1:]
				x.chanEvent(c)
				return res
			}
			k++
			continue
		}
		v := x.get(fr, &ci.ops[op-1])
		if c != nil && len(c.buf) < c.cap {
			c.buf = append(c.buf, v)
			x.chanEvent(c)
			res[0] = i64(i)
			return res
		}
	}
	if in.Blocking {
		panic(unsupported("select that blocks"))
	}
	return res
}
