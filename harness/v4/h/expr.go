// Code generated by tools/reg.py from harness/v5. DO NOT EDIT.

package h

import (
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
)

// E is an expression: the tokens it is written with and the tree it denotes.
type E struct {
	t []tok
	n tsl.Node
}

func pick(name string, opts ...string) string { return opts[sym.Choose(name, len(opts))] }

// ascii is a text of n free characters.
func ascii(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] != 0, s[i] < 0x80))
	}
	return s
}

func leaf(f string, v interface{}) tsl.Node { return tsl.Node{Func: f, Left: v} }

func letter(c byte) bool {
	return sym.Or(sym.And(c >= 'a', c <= 'z'), sym.Or(sym.And(c >= 'A', c <= 'Z'), c == '_'))
}

// name is a plain identifier; no keyword ends in an underscore.
func name(n string) string {
	s := sym.Str(n, 2)
	sym.Assume(letter(s[0]))
	second := sym.Or(letter(s[1]), sym.And(s[1] >= '0', s[1] <= '9'))
	if v5 { // in v4 a dot is a token
		second = sym.Or(second, sym.Or(s[1] == '.', s[1] == '/'))
	}
	sym.Assume(second)
	return s + "_"
}

func ident(n string) E {
	s := name(n)
	return E{[]tok{{tIdent, s}}, leaf(tsl.IdentOp, s)}
}

// fieldE is a fixed identifier.
func fieldE(s string) E { return E{[]tok{{tIdent, s}}, leaf(tsl.IdentOp, s)} }

// quotedIdent is an identifier in one of the quoting styles.
func quotedIdent(n string, l int) E {
	q := [][2]string{{"`", "`"}, {"\"", "\""}, {"[", "]"}}[sym.Choose(n+".quote", 3)]
	s := ascii(n, l)
	for i := 0; i < l; i++ {
		sym.Assume(s[i] != q[1][0])
	}
	e := leaf(tsl.IdentOp, s)
	if !v5 {
		e.Left = q[0] + s + q[1] // v4 keeps the quotes
	}
	return E{[]tok{{tIdent, q[0] + s + q[1]}}, e}
}

// posNum is a number that has a text.
func posNum(n string) float64 {
	f := sym.Float64(n)
	sym.Assume(sym.Or(sym.SameFloat(f, 0), sym.And(f >= 1e-6, f <= 1e18)))
	return f
}

func numTok(text string) tok { return tok{tNumber, text} }

func number(n string) E {
	f := posNum(n)
	return E{[]tok{numTok(sym.NumText(f))}, leaf(tsl.NumberOp, f)}
}

// quote writes a string literal.
func quote(s string) string {
	r := "'"
	for i := 0; i < len(s); i++ {
		if sym.Fork(s[i] == '\'') {
			r += "''"
		} else {
			r += s[i : i+1]
		}
	}
	return r + "'"
}

func strLit(n string, l int) E {
	s := ascii(n, l)
	return E{[]tok{{tString, quote(s)}}, leaf(tsl.StringOp, s)}
}

func boolLit(b bool) E {
	if b {
		return E{w("true"), leaf(booleanOp, true)}
	}
	return E{w("false"), leaf(booleanOp, false)}
}

func dateLit(text string) E {
	t, err := time.Parse("2006-01-02", text)
	if err != nil {
		panic(err)
	}
	return E{[]tok{{tDate, text}}, leaf(dateOp, t)}
}

func stampLit(text string) E {
	t, err := time.Parse(time.RFC3339, text)
	if err != nil {
		panic(err)
	}
	return E{[]tok{{tStamp, text}}, leaf(dateOp, t)}
}

// litKinds is the number of kinds of literals, texts are of kind 2.
func litKinds() int {
	if v5 {
		return 6
	}
	return 3
}

// literal is the k-th kind of literal.
func literal(n string, k int) E {
	switch k {
	case 0:
		return number(n)
	case 1:
		e := number(n)
		sign := pick(n+".sign", "-", "+")
		if sign == "-" {
			e.n.Left = -e.n.Left.(float64)
		}
		return E{cat(w(sign), e.t), e.n}
	case 2:
		return strLit(n, 1)
	case 3:
		return boolLit(sym.Fork(sym.Bool(n)))
	case 4:
		return dateLit("2021-02-28")
	}
	return stampLit("2020-02-29T23:59:59.25+05:30")
}

var mathFunc = map[string]string{"+": tsl.AddOp, "-": tsl.SubtractOp, "*": tsl.MultiplyOp, "/": tsl.DivideOp, "%": tsl.ModuloOp}
var mathOps = []string{"+", "-", "*", "/", "%"}

var cmpFunc = map[string]string{"<": tsl.LtOp, "<=": tsl.LteOp, ">": tsl.GtOp, ">=": tsl.GteOp, "=": tsl.EqOp, "!=": tsl.NotEqOp,
	"<>": tsl.NotEqOp, "~=": tsl.RegexOp, "~!": tsl.NotRegexOp}
var cmpOps = []string{"<", "<=", ">", ">=", "=", "!=", "<>"}

func infix(a E, op, fn string, b E) E {
	return E{cat(a.t, w(op), b.t), tsl.Node{Func: fn, Left: a.n, Right: b.n}}
}

func arith(a E, op string, b E) E { return infix(a, op, mathFunc[op], b) }
func cmp(a E, op string, b E) E   { return infix(a, op, cmpFunc[op], b) }
func paren(e E) E                 { return E{par(e.t), e.n} }
func and(a, b E) E                { return infix(a, "and", tsl.AndOp, b) }
func or(a, b E) E                 { return infix(a, "or", tsl.OrOp, b) }
func not(a E) E                   { return E{cat(w("not"), a.t), tsl.Node{Func: tsl.NotOp, Left: a.n}} }

func notTok(neg bool) []tok {
	if neg {
		return w("not")
	}
	return nil
}

func ifElse(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func like(a E, neg, ilike bool, p E) E {
	n := tsl.Node{Func: ifElse(ilike, tsl.ILikeOp, tsl.LikeOp), Left: a.n, Right: p.n}
	if neg {
		n = tsl.Node{Func: tsl.NotOp, Left: n}
	}
	return E{cat(a.t, notTok(neg), w(ifElse(ilike, "ilike", "like")), p.t), n}
}

func isNull(a E, neg bool) E {
	return E{cat(a.t, w("is"), notTok(neg), w("null")), tsl.Node{Func: ifElse(neg, tsl.IsNotNilOp, tsl.IsNilOp), Left: a.n}}
}

func isLit(a E, neg bool, b E) E {
	return E{cat(a.t, w("is"), notTok(neg), b.t), tsl.Node{Func: ifElse(neg, tsl.NotEqOp, tsl.EqOp), Left: a.n, Right: b.n}}
}

func between(a E, neg bool, b, c E) E {
	return E{cat(a.t, notTok(neg), w("between"), b.t, w("and"), c.t),
		tsl.Node{Func: ifElse(neg, tsl.NotBetweenOp, tsl.BetweenOp), Left: a.n, Right: tsl.Node{Func: tsl.ArrayOp, Right: []tsl.Node{b.n, c.n}}}}
}

func in(a E, neg bool, es ...E) E {
	t := cat(a.t, notTok(neg), w("in", "("))
	ns := []tsl.Node{}
	for i, e := range es {
		if i > 0 {
			t = cat(t, w(","))
		}
		t = cat(t, e.t)
		ns = append(ns, e.n)
	}
	return E{cat(t, w(")")), tsl.Node{Func: ifElse(neg, tsl.NotInOp, tsl.InOp), Left: a.n, Right: tsl.Node{Func: tsl.ArrayOp, Right: ns}}}
}

// ---- comparison of trees

func sameLeaf(a, b interface{}, where string) {
	switch u := a.(type) {
	case nil:
		sym.Assert(b == nil, where+" is not empty")
	case string:
		v, ok := b.(string)
		sym.Assert(ok, where+" is not a text")
		sym.Assert(sym.EqStr(u, v), where+" has another text")
	case float64:
		v, ok := b.(float64)
		sym.Assert(ok, where+" is not a number")
		sym.Assert(sym.SameFloat(u, v), where+" is another number")
	case bool:
		v, ok := b.(bool)
		sym.Assert(ok, where+" is not a boolean")
		sym.Assert(u == v, where+" is the other boolean")
	case time.Time:
		v, ok := b.(time.Time)
		sym.Assert(ok, where+" is not a date")
		sym.Assert(u.Equal(v), where+" is another instant")
	default:
		sym.Fail(where + " holds " + sym.TypeName(a))
	}
}

// sameTree asserts that got is the tree want.
func sameTree(want, got tsl.Node, where string) {
	sym.Assert(want.Func == got.Func, where+" is "+got.Func+", not "+want.Func)
	sameChild(want.Left, got.Left, where+".left")
	ws, ok := want.Right.([]tsl.Node)
	if !ok {
		sameChild(want.Right, got.Right, where+".right")
		return
	}
	gs, ok := got.Right.([]tsl.Node)
	sym.Assert(ok, where+" has no list")
	sym.Assert(len(ws) == len(gs), where+" has a list of another length")
	for i := range ws {
		sameTree(ws[i], gs[i], where+".item")
	}
}

func sameChild(want, got interface{}, where string) {
	if n, ok := want.(tsl.Node); ok {
		g, ok := got.(tsl.Node)
		sym.Assert(ok, where+" is missing")
		sameTree(n, g, where)
		return
	}
	sameLeaf(want, got, where)
}

// parsed is the tree the real parser makes of e.
func parsed(e E) tsl.Node {
	n, err := parseToks(e.t)
	sym.Assert(err == nil, "a text of the grammar is rejected")
	return n
}

// check asserts that e parses to the tree it denotes.
func check(e E) {
	n := parsed(e)
	sym.Observe("func", n.Func)
	sameTree(e.n, n, "the tree")
}

// rejected asserts that e is an error.
func rejected(e E) {
	_, err := parseToks(e.t)
	sym.Observe("rejected", err != nil)
	sym.Assert(err != nil, "an operand of the wrong type is accepted")
}
