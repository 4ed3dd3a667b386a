package h

import (
	"fmt"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

// leftSide is the left operand of a comparison.
func leftSide(n string) E {
	switch sym.Choose(n+".kind", 5) {
	case 0:
		return ident(n)
	case 1:
		return quotedIdent(n, 1)
	case 2:
		return paren(ident(n))
	case 3:
		return arith(ident(n), mathOps[sym.Choose(n+".op", len(mathOps))], number(n+".r"))
	}
	return paren(arith(ident(n), mathOps[sym.Choose(n+".op", len(mathOps))], ident(n+".r")))
}

// H_C60_compare: every comparison over every kind of operand.
func H_C60_compare() {
	op := cmpOps[sym.Choose("op", len(cmpOps))]
	if !v5 && sym.Choose("field", 2) == 1 { // literals only
		x, y, z := fieldE("a"), fieldE("b"), fieldE("c")
		rejected(cmp(x, op, []E{y, paren(arith(y, "+", z)), arith(y, "-", z)}[sym.Choose("right", 3)]))
		return
	}
	a := leftSide("a")
	n := litKinds()
	if v5 {
		n += 3
	}
	switch k := sym.Choose("right", n); k {
	case litKinds():
		check(cmp(a, op, ident("b")))
	case litKinds() + 1:
		check(cmp(a, op, paren(arith(ident("b"), mathOps[sym.Choose("bop", len(mathOps))], number("c")))))
	case litKinds() + 2:
		check(cmp(a, op, arith(ident("b"), mathOps[sym.Choose("bop", len(mathOps))], ident("c"))))
	default:
		check(cmp(a, op, literal("b", k)))
	}
}

// H_C60_pattern: ~=, ~!, LIKE, ILIKE and their NOT forms take a text or a column.
func H_C60_pattern() {
	a := leftSide("a")
	k := sym.Choose("right", litKinds()+1)
	if op := pick("op", "~=", "~!", "like", "ilike"); op[0] == '~' {
		if k == litKinds() {
			if v5 {
				check(cmp(a, op, ident("b")))
			} else {
				rejected(cmp(fieldE("a"), op, fieldE("b")))
			}
			return
		}
		e := cmp(a, op, literal("b", k))
		if k == 2 {
			check(e)
		} else {
			rejected(e)
		}
	} else if k < litKinds() {
		e := like(a, sym.Choose("not", 2) == 1, op == "ilike", literal("b", k))
		if k == 2 {
			check(e)
		} else {
			rejected(e)
		}
	}
}

// H_C60_is: IS [NOT] NULL and IS [NOT] literal.
func H_C60_is() {
	a, neg := leftSide("a"), sym.Choose("not", 2) == 1
	if k := sym.Choose("right", litKinds()+1); k == litKinds() {
		check(isNull(a, neg))
	} else {
		check(isLit(a, neg, literal("b", k)))
	}
}

// H_C60_between: [NOT] BETWEEN keeps begin and end in order.
func H_C60_between() {
	a, neg := leftSide("a"), sym.Choose("not", 2) == 1
	check(between(a, neg, literal("b", sym.Choose("begin", litKinds())), literal("c", sym.Choose("end", litKinds()))))
}

// H_C60_in: [NOT] IN holds exactly the listed literals. Their order is free: it
// has no meaning, and the walker lists them from the last to the first.
func H_C60_in() {
	a, neg := leftSide("a"), sym.Choose("not", 2) == 1
	var es []E
	for i := sym.Choose("len", sym.Param("list", 3)+1); i > 0; i-- {
		es = append(es, literal("item", sym.Choose("kind", litKinds())))
	}
	checkIn(in(a, neg, es...))
}

// H_C60_list: longer lists of literals of one kind or of several in turn.
func H_C60_list() {
	n := litKinds()
	first, step := sym.Choose("kind", n), sym.Choose("step", 2)
	es := []E{}
	for i, m := 0, sym.Choose("len", sym.Param("list", 5)+1); i < m; i++ {
		es = append(es, literal(fmt.Sprintf("i%d", i), (first+i*step)%n))
	}
	checkIn(in(ident("a"), sym.Choose("not", 2) == 1, es...))
}

func checkIn(e E) {
	n := parsed(e)
	sym.Assert(n.Func == e.n.Func, "the list test is another operator")
	sameChild(e.n.Left, n.Left, "the left side")
	r, ok := n.Right.(tsl.Node)
	sym.Assert(ok && r.Func == tsl.ArrayOp && r.Left == nil, "the right side is no list")
	got, ok := r.Right.([]tsl.Node)
	want := e.n.Right.(tsl.Node).Right.([]tsl.Node)
	sym.Assert(ok && len(got) == len(want), "the list has another length")
	fwd, rev := true, true
	for i := range want {
		fwd = sym.And(fwd, eqLeaf(want[i], got[i]))
		rev = sym.And(rev, eqLeaf(want[i], got[len(got)-1-i]))
	}
	sym.Assert(sym.Or(fwd, rev), "the list holds other literals")
}

func eqLeaf(a, b tsl.Node) bool {
	if a.Func != b.Func || b.Right != nil {
		return false
	}
	switch u := a.Left.(type) {
	case string:
		v, ok := b.Left.(string)
		return ok && sym.EqStr(u, v)
	case float64:
		v, ok := b.Left.(float64)
		return ok && sym.SameFloat(u, v)
	case bool:
		v, ok := b.Left.(bool)
		return ok && u == v
	}
	v, ok := b.Left.(time.Time)
	return ok && a.Left.(time.Time).Equal(v)
}

// H_C60_math: arithmetic over every kind of operand; a text is rejected.
func H_C60_math() {
	op := mathOps[sym.Choose("op", len(mathOps))]
	a := ident("a")
	switch sym.Choose("left", 3) {
	case 1:
		a = paren(arith(ident("p"), mathOps[sym.Choose("lop", len(mathOps))], number("q")))
	case 2:
		a = paren(paren(a))
	}
	k := sym.Choose("right", litKinds()+2)
	b := E{}
	switch k {
	case litKinds():
		b = ident("b")
	case litKinds() + 1:
		b = paren(arith(ident("r"), mathOps[sym.Choose("rop", len(mathOps))], number("s")))
	default:
		b = literal("b", k)
	}
	e := cmp(arith(a, op, b), "=", number("z"))
	if k == 2 {
		rejected(e)
	} else {
		check(e)
	}
}

// atom is a small filter.
func atom(n string) E {
	switch sym.Choose(n+".atom", 4) {
	case 0:
		return cmp(ident(n), "=", number(n+".v"))
	case 1:
		return isNull(ident(n), true)
	case 2:
		return like(ident(n), true, false, strLit(n+".v", 1))
	}
	return between(ident(n), false, number(n+".v"), number(n+".w"))
}

// logic is a tree of AND, OR and NOT with every compound operand in parentheses.
func logic(n string, d int) E {
	if d == 0 {
		return atom(n)
	}
	sub := func(m string) E {
		if d > 1 && sym.Choose(m+".deep", 2) == 1 {
			return paren(logic(m, d-1))
		}
		return cmp(ident(m), ">", number(m+".v"))
	}
	switch sym.Choose(n+".op", 4) {
	case 0:
		return and(sub(n+"l"), sub(n+"r"))
	case 1:
		return or(sub(n+"l"), sub(n+"r"))
	case 2:
		return not(sub(n + "l"))
	}
	return paren(atom(n))
}

// H_C60_logic: AND, OR and NOT nest as derived.
func H_C60_logic() { check(logic("e", sym.Param("depth", 2))) }
