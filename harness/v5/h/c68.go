package h

import (
	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

// ---- grouping without parentheses

// H_C68_logic: NOT binds tighter than AND, AND tighter than OR, equals group to the left.
func H_C68_logic() {
	n := 2 + sym.Choose("len", sym.Param("chain", 4)-1)
	var t []tok
	var ors, ands []tsl.Node // operands of the open OR and AND chains
	fold := func(ns []tsl.Node, f string) tsl.Node {
		r := ns[0]
		for _, n := range ns[1:] {
			r = tsl.Node{Func: f, Left: r, Right: n}
		}
		return r
	}
	for i := 0; i < n; i++ {
		e := cmp(ident("a"), "=", number("v"))
		for k := sym.Choose("nots", 3); k > 0; k-- {
			e = not(e)
		}
		if i > 0 {
			op := pick("op", "and", "or")
			t = cat(t, w(op))
			if op == "or" {
				ors = append(ors, fold(ands, tsl.AndOp))
				ands = nil
			}
		}
		t = cat(t, e.t)
		ands = append(ands, e.n)
	}
	check(E{t, fold(append(ors, fold(ands, tsl.AndOp)), tsl.OrOp)})
}

type mathItem struct {
	e   E
	lit bool
}

// standard groups a chain of operands as arithmetic does.
func standard(xs []mathItem, ops []string) tsl.Node {
	var terms []tsl.Node
	var adds []string
	cur := xs[0].e.n
	for i, op := range ops {
		if op == "+" || op == "-" {
			terms, adds = append(terms, cur), append(adds, op)
			cur = xs[i+1].e.n
		} else {
			cur = tsl.Node{Func: mathFunc[op], Left: cur, Right: xs[i+1].e.n}
		}
	}
	terms = append(terms, cur)
	r := terms[0]
	for i, op := range adds {
		r = tsl.Node{Func: mathFunc[op], Left: r, Right: terms[i+1]}
	}
	return r
}

// published groups a chain as the published grammar does: a literal on the right
// is one operand, anything else extends to the end of the chain.
func published(xs []mathItem, ops []string) tsl.Node {
	r := xs[0].e.n
	for i, op := range ops {
		if !xs[i+1].lit {
			return tsl.Node{Func: mathFunc[op], Left: r, Right: published(xs[i+1:], ops[i+1:])}
		}
		r = tsl.Node{Func: mathFunc[op], Left: r, Right: xs[i+1].e.n}
	}
	return r
}

func sameShape(a, b tsl.Node) bool {
	if a.Func != b.Func {
		return false
	}
	al, ok := a.Left.(tsl.Node)
	bl, ok2 := b.Left.(tsl.Node)
	if ok != ok2 {
		return false
	}
	if ok && !sameShape(al, bl) {
		return false
	}
	ar, ok := a.Right.(tsl.Node)
	br, ok2 := b.Right.(tsl.Node)
	if ok != ok2 {
		return false
	}
	return !ok || sameShape(ar, br)
}

// H_C68_math: arithmetic groups by the usual precedence.
func H_C68_math() {
	n := 1 + sym.Choose("len", sym.Param("math", 2))
	xs := []mathItem{{e: ident("a")}}
	var ops []string
	t := xs[0].e.t
	for i := 0; i < n; i++ {
		op := mathOps[sym.Choose("op", len(mathOps))]
		x := mathItem{e: ident("b")}
		if sym.Choose("lit", 2) == 1 {
			x = mathItem{number("v"), true}
		}
		t = cat(t, w(op), x.e.t)
		xs, ops = append(xs, x), append(ops, op)
	}
	z := number("z")
	got := parsed(E{t: cat(t, w(">"), z.t)})
	l, ok := got.Left.(tsl.Node)
	sym.Assert(got.Func == tsl.GtOp && ok, "a comparison of arithmetic is another operator")
	std, pub := standard(xs, ops), published(xs, ops)
	if sameShape(l, std) {
		sameTree(std, l, "the left side")
	} else {
		sameTree(pub, l, "the left side")
	}
	sym.Known(mathFinding, !sameShape(std, pub), sameShape(l, std), "arithmetic groups against the usual precedence")
}

// ---- the texts that are accepted

var vocab []tok

func init() {
	for _, s := range []string{"(", ")", ",", "<", "<=", ">", ">=", "=", "!=", "<>", "~=", "~!", "*", "/", "%", "+", "-",
		"like", "ilike", "and", "or", "between", "in", "is", "null", "not"} {
		vocab = append(vocab, w(s)...)
	}
	vocab = append(vocab, tok{tIdent, "a"}, numTok("1"), tok{tString, "'x'"})
	if v5 {
		vocab = append(vocab, cat(w("true", "false"), []tok{{tDate, "2020-01-01"}, {tStamp, "2020-01-01T00:00:00Z"}, {tTime, "12:30:00"}})...)
	} else {
		vocab = append(vocab, w(".")...)
	}
}

// reader is a recogniser of the grammar in TSL.g4 that keeps every reading.
type reader struct{ t []tok }

func (r *reader) at(i int) int {
	if i < len(r.t) {
		return r.t[i].typ
	}
	return -1
}

func (r *reader) is(i int, words ...string) bool {
	for _, s := range words {
		if r.at(i) == fixed[s] {
			return true
		}
	}
	return false
}

func add(s []int, i int) []int {
	if i < 0 {
		return s
	}
	for _, x := range s {
		if x == i {
			return s
		}
	}
	return append(s, i)
}

// literal returns the end of a literal, or -1, and whether it is a text.
func (r *reader) literal(i int) (int, bool) {
	switch r.at(i) {
	case tString:
		return i + 1, true
	case tDate, tStamp, tTrue, tFalse, tNumber:
		return i + 1, false
	}
	if r.is(i, "+", "-") && r.at(i+1) == tNumber {
		return i + 2, false
	}
	return -1, false
}

// math returns the ends of the math expressions that start at i.
func (r *reader) math(i int) []int {
	s := r.column(i)
	if r.is(i, "(") {
		for _, e := range r.math(i + 1) {
			if r.is(e, ")") {
				s = add(s, e+1)
			}
		}
	}
	for k := 0; k < len(s); k++ {
		e := s[k]
		if r.is(e, mathOps...) {
			if l, text := r.literal(e + 1); !text {
				s = add(s, l) // a text is no operand of arithmetic
			}
			for _, m := range r.math(e + 1) {
				s = add(s, m)
			}
		}
	}
	return s
}

// column returns the ends of the columns, in any parentheses, that start at i.
func (r *reader) column(i int) []int {
	var s []int
	if r.at(i) == tIdent {
		s = add(s, i+1)
		for k := 0; k < 2 && !v5 && r.is(i+1, ".") && r.at(i+2) == tIdent; k++ { // at most three names
			i += 2
			s = add(s, i+1)
		}
		return s
	}
	if r.is(i, "(") {
		for _, e := range r.column(i + 1) {
			if r.is(e, ")") {
				s = add(s, e+1)
			}
		}
	}
	return s
}

func (r *reader) list(i int) int {
	if !r.is(i, "(") {
		return -1
	}
	if r.is(i+1, ")") {
		return i + 2
	}
	for {
		i, _ = r.literal(i + 1)
		if i < 0 {
			return -1
		}
		if r.is(i, ")") {
			return i + 1
		}
		if !r.is(i, ",") {
			return -1
		}
	}
}

// expr returns the ends of the filters that start at i.
func (r *reader) expr(i int) []int {
	var s []int
	for _, m := range r.math(i) {
		if r.is(m, cmpOps...) {
			l, _ := r.literal(m + 1)
			s = add(s, l)
			if v5 {
				for _, e := range r.math(m + 1) {
					s = add(s, e)
				}
			}
		}
		if r.is(m, "~=", "~!") {
			if l, text := r.literal(m + 1); text {
				s = add(s, l)
			}
			if v5 {
				for _, e := range r.column(m + 1) {
					s = add(s, e)
				}
			}
		}
		if r.is(m, "is") {
			j := m + 1
			if r.is(j, "not") {
				j++
			}
			if r.is(j, "null") {
				s = add(s, j+1)
			}
			l, _ := r.literal(j)
			s = add(s, l)
		}
		j := m
		if r.is(j, "not") {
			j++
		}
		switch {
		case r.is(j, "like", "ilike"):
			if l, text := r.literal(j + 1); text {
				s = add(s, l)
			}
		case r.is(j, "between"):
			if l, _ := r.literal(j + 1); l >= 0 && r.is(l, "and") {
				l, _ = r.literal(l + 1)
				s = add(s, l)
			}
		case r.is(j, "in"):
			s = add(s, r.list(j+1))
		}
	}
	if r.is(i, "not") {
		for _, e := range r.expr(i + 1) {
			s = add(s, e)
		}
	}
	if r.is(i, "(") {
		for _, e := range r.expr(i + 1) {
			if r.is(e, ")") {
				s = add(s, e+1)
			}
		}
	}
	for k := 0; k < len(s); k++ {
		if r.is(s[k], "and", "or") {
			for _, e := range r.expr(s[k] + 1) {
				s = add(s, e)
			}
		}
	}
	return s
}

func accepted(t []tok) bool {
	r := &reader{t}
	for _, e := range r.expr(0) {
		if e == len(t) {
			return true
		}
	}
	return false
}

func decide(t []tok) {
	n, err := parseToks(t)
	ok := accepted(t)
	sym.Observe("accepted", err == nil)
	if ok {
		sym.Assert(err == nil, "a text of the grammar is rejected")
		sym.Assert(n.Func != "", "a text of the grammar has no tree")
	} else {
		sym.Assert(err != nil, "a text outside the grammar is accepted")
	}
}

// H_C68_short: every sequence of a few tokens.
func H_C68_short() {
	var t []tok
	for i := sym.Choose("len", sym.Param("tokens", 2)+1); i > 0; i-- {
		t = append(t, vocab[sym.Choose("token", len(vocab))])
	}
	decide(t)
}

func templates() [][]tok {
	a := E{t: []tok{{tIdent, "a"}}}
	b := E{t: []tok{{tIdent, "b"}}}
	x := E{t: []tok{{tString, "'x'"}}}
	one := E{t: []tok{numTok("1")}}
	if !v5 {
		dotted := E{t: cat(b.t, w("."), a.t, w("."), b.t)}
		return [][]tok{
			cmp(dotted, "<=", one).t,
			cmp(a, "~=", x).t,
			like(a, true, true, x).t,
			isNull(a, true).t,
			isLit(a, false, x).t,
			between(a, true, one, x).t,
			in(a, true, one, x).t,
			in(a, false).t,
			not(cmp(a, "=", x)).t,
			and(cmp(a, "=", one), or(isNull(a, false), cmp(b, "!=", x))).t,
			paren(and(paren(cmp(a, "=", x)), not(isNull(b, false)))).t,
			cmp(paren(arith(arith(a, "*", one), "+", b)), ">", x).t,
			cmp(a, "<>", E{t: cat(w("-"), one.t)}).t,
		}
	}
	d := E{t: []tok{{tDate, "2020-01-01"}}}
	return [][]tok{
		cmp(a, "<=", one).t,
		cmp(a, "~=", x).t,
		like(a, true, true, x).t,
		isNull(a, true).t,
		isLit(a, false, x).t,
		between(a, true, one, d).t,
		in(a, true, one, x).t,
		in(a, false).t,
		not(cmp(a, "=", boolLit(true))).t,
		and(cmp(a, "=", one), or(isNull(a, false), cmp(a, "!=", b))).t,
		paren(and(paren(cmp(a, "=", x)), not(isNull(b, false)))).t,
		cmp(paren(arith(arith(a, "*", one), "+", b)), ">", arith(b, "-", paren(a))).t,
		cmp(a, "<>", E{t: cat(w("-"), one.t)}).t,
	}
}

// H_C68_edit: every text one token away from a filter of the grammar.
func H_C68_edit() {
	ts := templates()
	t := ts[sym.Choose("template", len(ts))]
	i := sym.Choose("at", len(t)+1)
	head, tail := t[:i], t[i:]
	switch sym.Choose("edit", 3) {
	case 0:
		if len(tail) == 0 {
			return
		}
		decide(cat(head, tail[1:]))
	case 1:
		if len(tail) == 0 {
			return
		}
		decide(cat(head, vocab[sym.Choose("token", len(vocab)):][:1], tail[1:]))
	case 2:
		decide(cat(head, vocab[sym.Choose("token", len(vocab)):][:1], tail))
	}
}

// ---- characters

// free is one ASCII character; the lexer takes every path it allows.
func free(name string) string {
	s := sym.Str(name, 1)
	sym.Assume(sym.And(s[0] > 0, s[0] < 0x80))
	return sym.ConcreteStr(s)
}

func isTree(text string, want tsl.Node) {
	n, err := tsl.ParseTSL(text)
	sym.Assert(err == nil, "a text of the grammar is rejected")
	sameTree(want, n, "the tree")
}

func isError(text string) {
	_, err := tsl.ParseTSL(text)
	sym.Assert(err != nil, "a text outside the grammar is accepted")
}

func eq(name string, right tsl.Node) tsl.Node {
	return tsl.Node{Func: tsl.EqOp, Left: leaf(tsl.IdentOp, name), Right: right}
}

// H_C68_charString: every character inside a string literal.
func H_C68_charString() {
	c := free("c")
	if c == "'" {
		isError("a = 'x'y'")
		isTree("a = 'x''y'", eq("a", leaf(tsl.StringOp, "x'y")))
		return
	}
	isTree("a = 'x"+c+"y'", eq("a", leaf(tsl.StringOp, "x"+c+"y")))
}

func identChar(c byte) bool {
	return c == '_' || c == '.' || c == '/' && v5 || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// quotedName is the name a quoted identifier stands for.
func quotedName(q, s, end string) string {
	if v5 {
		return s
	}
	return q + s + end
}

// H_C68_charIdent: every character inside an identifier, plain and quoted.
func H_C68_charIdent() {
	c := free("c")
	one := leaf(tsl.NumberOp, 1.0)
	switch q := pick("quote", "", "`", "\"", "["); q {
	case "":
		switch {
		case identChar(c[0]):
			isTree("a"+c+"b = 1", eq("a"+c+"b", one))
		case c == "*" || c == "%" || c == "+" || c == "-" || c == "/":
			isTree("a"+c+"b = 1", tsl.Node{Func: tsl.EqOp, Left: tsl.Node{Func: mathFunc[c], Left: leaf(tsl.IdentOp, "a"), Right: leaf(tsl.IdentOp, "b")}, Right: one})
		default:
			isError("a" + c + "b = 1")
		}
	case "[":
		if c == "]" {
			isError("[a]b] = 1")
		} else {
			isTree("[a"+c+"b] = 1", eq(quotedName("[", "a"+c+"b", "]"), one))
		}
	default:
		if c == q {
			isError(q + "a" + q + "b" + q + " = 1")
		} else {
			isTree(q+"a"+c+"b"+q+" = 1", eq(quotedName(q, "a"+c+"b", q), one))
		}
	}
}

// H_C68_charNumber: every character inside a numeral.
func H_C68_charNumber() {
	c := free("c")
	num := func(f float64) tsl.Node { return eq("a", leaf(tsl.NumberOp, f)) }
	switch {
	case c[0] >= '0' && c[0] <= '9':
		isTree("a = 1"+c+"2", num(102+10*float64(c[0]-'0')))
	case c == ".":
		isTree("a = 1.2", num(1.2))
	case c == "e" || c == "E":
		isTree("a = 1"+c+"2", num(100))
	default:
		isError("a = 1" + c + "2")
	}
}

// H_C68_charEnd: a character after a filter.
func H_C68_charEnd() {
	c := free("c")
	num := func(f float64) tsl.Node { return eq("a", leaf(tsl.NumberOp, f)) }
	switch {
	case c[0] >= '0' && c[0] <= '9':
		isTree("a = 1"+c, num(10+float64(c[0]-'0')))
	case c == "." || c == " " || c == "\t" || c == "\n" || c == "\r" || c == "\v":
		isTree("a = 1"+c, num(1))
		if c == "." && !v5 {
			isError("a. = 1")
		} else {
			isTree("a"+c+"= 1", eq(ifElse(c == ".", "a.", "a"), leaf(tsl.NumberOp, 1.0)))
		}
	case v5 && (c == "K" || c == "M" || c == "G" || c == "T" || c == "P"):
		m := 1.0
		for i := 0; i < 5 && "KMGTP"[i] != c[0]; i++ {
			m *= 1024
		}
		isTree("a = 1"+c, num(m*1024))
		isTree("a = 1"+c+"i", num(m*1024))
	default:
		isError("a = 1" + c)
		isError("a = 1 " + c)
	}
}

// H_C68_charCase: keywords in any case.
func H_C68_charCase() {
	x := func(kw string) string {
		b := []byte(kw)
		if i := sym.Choose("at", len(b)+1); i < len(b) {
			b[i] -= 32
		} else {
			for i := range b {
				b[i] -= 32
			}
		}
		return string(b)
	}
	a := leaf(tsl.IdentOp, "a")
	one := leaf(tsl.NumberOp, 1.0)
	list := func(f string, ns ...tsl.Node) tsl.Node {
		return tsl.Node{Func: f, Left: a, Right: tsl.Node{Func: tsl.ArrayOp, Right: ns}}
	}
	words := []string{"like", "ilike", "and", "or", "between", "in", "is", "null", "not", "true", "false"}
	if !v5 {
		words = words[:9]
	}
	switch k := pick("word", words...); k {
	case "like":
		isTree("a "+x(k)+" 'p'", tsl.Node{Func: tsl.LikeOp, Left: a, Right: leaf(tsl.StringOp, "p")})
	case "ilike":
		isTree("a "+x(k)+" 'p'", tsl.Node{Func: tsl.ILikeOp, Left: a, Right: leaf(tsl.StringOp, "p")})
	case "and":
		isTree("a = 1 "+x(k)+" a = 1", tsl.Node{Func: tsl.AndOp, Left: eq("a", one), Right: eq("a", one)})
	case "or":
		isTree("a = 1 "+x(k)+" a = 1", tsl.Node{Func: tsl.OrOp, Left: eq("a", one), Right: eq("a", one)})
	case "between":
		isTree("a "+x(k)+" 1 and 1", list(tsl.BetweenOp, one, one))
	case "in":
		isTree("a "+x(k)+" (1)", list(tsl.InOp, one))
	case "is":
		isTree("a "+x(k)+" null", tsl.Node{Func: tsl.IsNilOp, Left: a})
	case "null":
		isTree("a is not "+x(k), tsl.Node{Func: tsl.IsNotNilOp, Left: a})
	case "not":
		isTree(x(k)+" a = 1", tsl.Node{Func: tsl.NotOp, Left: eq("a", one)})
	case "true":
		isTree("a = "+x(k), eq("a", leaf(booleanOp, true)))
	case "false":
		isTree("a = "+x(k), eq("a", leaf(booleanOp, false)))
	}
}
