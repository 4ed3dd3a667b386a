// Code generated by tools/reg.py from harness/v5. DO NOT EDIT.

package h

import (
	"fmt"
	"strings"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
)

// ---- large instances: sizes beyond any threshold a small one could stay below,
// with free values and free characters at chosen places

// bigText is a long text with a free character at its start, in its middle or at its end.
func bigText(n string) string {
	k := []int{17, 70, 300}[sym.Choose(n+".long", 3)]
	fill := strings.Repeat(pick(n+".fill", "abcdefghij", "\\\"'?|"), k)[:k]
	at := []int{0, k / 2, k - 1}[sym.Choose(n+".at", 3)]
	return fill[:at] + ascii(n, 1) + fill[at+1:]
}

func bigName(n string) string {
	k := []int{17, 70, 300}[sym.Choose(n+".long", 3)]
	return strings.Repeat("ab_c9", k)[:k-1] + "z"
}

func textE(s string) E { return E{[]tok{{tString, quote(s)}}, leaf(tsl.StringOp, s)} }

func plainNum(f float64) E {
	return E{[]tok{numTok(sym.NumText(f))}, leaf(tsl.NumberOp, f)}
}

func place(n string, k int) int { return []int{0, k / 2, k - 1}[sym.Choose(n+".at", 3)] }

// bigE is a long list, chain or nest with a free value at a chosen place.
func bigE(sizes ...int) E {
	k := sizes[sym.Choose("size", len(sizes))]
	at := -1
	item := func(i int) E {
		if i == at {
			return number("free")
		}
		return plainNum(float64(i))
	}
	cond := func(i int) E {
		x := fieldE(fmt.Sprintf("x%d", i))
		switch i % 4 {
		case 0:
			return isNull(x, i%8 == 0)
		case 1:
			return cmp(x, cmpOps[i%len(cmpOps)], item(i))
		case 2:
			return between(x, i%3 == 0, item(i), plainNum(1))
		}
		return in(x, i%3 == 0, item(i))
	}
	switch pick("shape", "list", "texts", "left", "right", "not", "sum", "prod", "text", "name") {
	case "list":
		at = place("list", k)
		es := []E{}
		for i := 0; i < k; i++ {
			es = append(es, item(i))
		}
		return in(fieldE("x"), k%2 == 0, es...)
	case "texts":
		es := []E{}
		for i := 0; i < k; i++ {
			es = append(es, textE([]string{"a", "b", "a", ""}[i%4]))
		}
		es[k/2] = strLit("free", 1)
		return in(fieldE("x"), k%2 == 1, es...)
	case "left":
		at = place("left", k)
		e := cond(0)
		for i := 1; i < k; i++ {
			f := and
			if i%5 == 0 {
				e, f = paren(e), or
			} else if i%5 == 1 && i > 1 {
				e = paren(e)
			}
			e = f(e, cond(i))
		}
		return e
	case "right":
		at = place("right", k)
		e := cond(0)
		for i := 1; i < k && i < 12; i++ {
			f := or
			if i%3 == 0 {
				f = and
			}
			e = f(cond(i), paren(e))
		}
		return e
	case "not":
		at = 1
		e := cond(1)
		for i := 1; i < k && i < 16; i++ {
			e = not(e)
		}
		return e
	case "sum":
		e := fieldE("x")
		at = place("sum", k)
		for i := 0; i < k; i++ {
			e = arith(e, "+", item(i))
		}
		return cmp(e, "<", plainNum(1))
	case "prod":
		e, deep := fieldE("x0"), 10
		if !v5 {
			deep = 7 // the parser of v4 takes time exponential in the depth here
		}
		for i := 1; i < k && i < deep; i++ {
			e = paren(arith(e, mathOps[i%len(mathOps)], fieldE(fmt.Sprintf("x%d", i))))
		}
		return isNull(e, false)
	case "text":
		return or(cmp(fieldE("x"), "=", textE(bigText("text"))), like(fieldE("y"), false, true, textE("%")))
	}
	return and(cmp(fieldE(bigName("name")), ">=", plainNum(2)), isNull(fieldE("y"), true))
}

func H_C80_big() {
	e := bigE(9, 17, 33)
	if e.n.Func == tsl.InOp || e.n.Func == tsl.NotInOp {
		checkIn(e)
		return
	}
	sameTree(e.n, parsed(e), "the tree")
}

// long texts and names decode as short ones do
func H_C81_long() {
	if sym.Choose("name", 2) == 1 {
		q := [][2]string{{"`", "`"}, {"\"", "\""}, {"[", "]"}}[sym.Choose("quote", 3)]
		k := []int{17, 70, 300}[sym.Choose("long", 3)]
		at := place("name", k)
		c := ascii("c", 1)
		sym.Assume(c[0] != q[1][0])
		s := strings.Repeat("ab c.d/e", k)
		s = s[:at] + c + s[at+1:k]
		n := s
		if !v5 {
			n = q[0] + s + q[1]
		}
		check(isNull(E{[]tok{{tIdent, q[0] + s + q[1]}}, leaf(tsl.IdentOp, n)}, false))
		return
	}
	check(cmp(fieldE("a"), "=", textE(bigText("s"))))
}

// a long chain and a deep nest: every condition counts
func H_C82_big() {
	k := []int{9, 17, 33, 130}[sym.Choose("size", 4)]
	f, fill := tsl.AndOp, 1.0
	if sym.Choose("or", 2) == 1 {
		f, fill = tsl.OrOp, 0
	}
	at, shape := place("chain", k), sym.Choose("shape", 3)
	x := sym.Float64("x")
	y := pick("y", "num", "bad", "null")
	c := func(i int) tsl.Node {
		if i == at {
			return op2(tsl.GtOp, id("x"), num(1.5))
		}
		if i == k/3 && y != "num" {
			return op2(tsl.EqOp, id("y"), num(1))
		}
		return op2(tsl.EqOp, id("c"), num(1))
	}
	r := rec{"x": x, "c": fill, "y": nil}
	if y == "bad" {
		r["y"] = "text"
	}
	n := c(0)
	for i := 1; i < k; i++ {
		switch shape {
		case 0:
			n = op2(f, n, c(i))
		case 1:
			n = op2(f, c(i), n)
		default:
			n = op2(f, op1(tsl.NotOp, op1(tsl.NotOp, n)), c(i))
		}
	}
	meaning(n, r)
}

// long texts and patterns
func H_C82_long() {
	k := []int{17, 70, 130}[sym.Choose("size", 3)]
	at := place("v", k)
	ab := strings.Repeat("ab", k)[:k]
	v := ab[:at] + ascii("v", 1) + ab[at+1:]
	f := pick("op", tsl.EqOp, tsl.LtOp, tsl.GteOp, tsl.NotEqOp, tsl.LikeOp, tsl.ILikeOp)
	p := ab
	if f == tsl.LikeOp || f == tsl.ILikeOp {
		p = []string{ab, "%" + ab[1:], ab[:k-1] + "%", strings.Repeat("_", k), ab[:k/2] + "_%" + ab[k/2+1:]}[sym.Choose("pat", 5)]
	}
	meaning(op2(f, id("v"), str(p)), rec{"v": v})
}

// a long list: every item counts
func H_C83_big() {
	k := []int{9, 17, 33, 130}[sym.Choose("size", 4)]
	at := place("list", k)
	items := []tsl.Node{}
	var v interface{}
	kind := sym.Choose("kind", 3)
	for i := 0; i < k; i++ {
		switch {
		case kind == 0 && i == at:
			items = append(items, num(sym.Float64("free")))
		case kind == 0:
			items = append(items, num(float64(i)))
		case i == at:
			items = append(items, str(ascii("free", 2)))
		default:
			items = append(items, str(fmt.Sprintf("t%d", i)))
		}
	}
	switch kind {
	case 0:
		v = sym.Float64("v")
	case 1:
		v = ascii("v", 2)
	default:
		v = []string{"zz", ascii("v", 2)}
	}
	if kind == 0 && sym.Choose("bad", 2) == 1 {
		items[k-1] = str("x")
	}
	meaning(op2(pick("op", tsl.InOp, tsl.NotInOp), id("v"), list(items...)), rec{"v": v})
}

func bigN() tsl.Node { return bigE(9, 33, 130).n }

func H_C84_big() { sqlCheck(bigN()) }
func H_C85_big() { mongoCheck(bigN()) }
func H_C87_big() { dotCheck(bigE(9, 17, 33).n) }

// large trees in which one name is mapped or refused
func H_C86_big() {
	n := bigN()
	keep := copyTree(n)
	names := map[string]bool{}
	identsOf(keep, names)
	x := ""
	for _, s := range sortedNames(names) {
		x = s
		if sym.Choose("this", 2) == 1 {
			break
		}
	}
	m := &mapping{map[string]int{}, map[string]int{}, 1}
	for s := range names {
		m.out[s] = mSame
	}
	m.out[x] = sym.Choose("out", 2)
	identCheckWith(n, m)
}
