// Code generated by tools/reg.py from harness/v5. DO NOT EDIT.

package h

import (
	"fmt"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
)

// Trees of every shape the grammar allows, for the walkers that translate.

var fixedNums = []float64{0.30000000000000004, -123456789.015625, 0, 1e21, 1e-7, 123456789}

var fixedDates = []time.Time{
	time.Date(2021, 2, 28, 0, 0, 0, 0, time.UTC),
	time.Date(2020, 2, 29, 23, 59, 59, 250000000, time.FixedZone("", 19800)),
	time.Date(1969, 12, 31, 1, 2, 3, 1, time.FixedZone("", -3600)),
}

// gen makes trees; free tells whether literals are symbolic.
type gen struct {
	free bool
	ids  int
	lits int // kinds of literals to choose from, 0 for all
	// plain operands are fields and literals only
	plain bool
}

func (g *gen) id() tsl.Node {
	g.ids++
	return id([]string{"a", "b.c", "t_1", "D", "e", "f", "g", "h", "i", "j", "k", "l"}[g.ids-1])
}

// lit is a literal; strings only where allowed.
func (g *gen) lit(name string, strings bool) tsl.Node {
	kinds := []int{0}
	if strings {
		kinds = append(kinds, 1)
	}
	if v5 {
		kinds = append(kinds, 2, 3)
	}
	if g.lits > 0 && g.lits < len(kinds) {
		kinds = kinds[:g.lits]
	}
	switch kinds[sym.Choose(name+".kind", len(kinds))] {
	case 0:
		if g.free && strings {
			return num(sym.Float64(name))
		}
		return num(fixedNums[sym.Choose(name, sym.Param("nums", 3))])
	case 1:
		return g.text(name)
	case 2:
		if g.free {
			return boo(sym.Fork(sym.Bool(name)))
		}
		return boo(sym.Choose(name, 2) == 1)
	}
	return day(fixedDates[sym.Choose(name, sym.Param("dates", 2))])
}

func (g *gen) text(name string) tsl.Node {
	if g.free {
		return str(ascii(name, sym.Choose(name+".len", sym.Param("strlen", 1)+1)))
	}
	return str(pick(name, "x", "it's ?", ""))
}

// math is an arithmetic expression with up to depth operations below the first.
func (g *gen) math(name string, depth int) tsl.Node {
	f := mathFuncs[sym.Choose(name+".m", len(mathFuncs))]
	l := g.id()
	if depth > 0 && sym.Choose(name+".lm", 2) == 1 {
		l = g.math(name+"l", depth-1)
	}
	k := 2
	if depth > 0 {
		k = 3
	}
	switch sym.Choose(name+".rm", k) {
	case 0:
		return op2(f, l, g.lit(name+"r", false))
	case 1:
		return op2(f, l, g.id())
	}
	return op2(f, l, g.math(name+"r", depth-1))
}

func (g *gen) left(name string, depth int) tsl.Node {
	if g.plain || sym.Choose(name+".left", 2) == 0 {
		return g.id()
	}
	return g.math(name, depth)
}

func (g *gen) right(name string, depth int) tsl.Node {
	k := 1
	if v5 {
		k = 3
		if g.plain {
			k = 2
		}
	}
	switch sym.Choose(name+".right", k) {
	case 0:
		return g.lit(name, true)
	case 1:
		return g.id()
	}
	return g.math(name, depth)
}

func (g *gen) list(name string) tsl.Node {
	items := []tsl.Node{}
	for i := 1 + sym.Choose(name+".n", sym.Param("list", 2)); i > 0; i-- {
		items = append(items, g.lit(fmt.Sprintf("%s%d", name, i), true))
	}
	return list(items...)
}

// longList is a list of up to n free literals, of one kind or of two.
func longList(n int) tsl.Node {
	kind := sym.Choose("kind", 3)
	items := []tsl.Node{}
	for i, n := 0, sym.Choose("n", n+1); i < n; i++ {
		s := fmt.Sprintf("i%d", i)
		if kind == 0 || kind == 2 && i%2 == 0 {
			items = append(items, num(sym.Float64(s)))
		} else {
			items = append(items, str(ascii(s, 1)))
		}
	}
	return list(items...)
}

const kindsOfCond = 7

// cond is one comparison of the k-th kind.
func (g *gen) cond(name string, k, depth int) tsl.Node {
	switch k {
	case 0:
		f := compareFuncs[sym.Choose(name+".op", len(compareFuncs))]
		return op2(f, g.left(name+"l", depth), g.right(name+"r", depth))
	case 1, 2:
		f := pick(name+".op", tsl.LikeOp, tsl.ILikeOp)
		if k == 2 {
			f = pick(name+".op", tsl.RegexOp, tsl.NotRegexOp)
		}
		l := g.left(name+"l", 0)
		r := g.text(name + "p")
		if v5 && sym.Choose(name+".id", 2) == 1 {
			r = g.id()
		}
		n := op2(f, l, r)
		if k == 1 && sym.Choose(name+".not", 2) == 1 {
			n = op1(tsl.NotOp, n)
		}
		return n
	case 3:
		return op2(pick(name+".op", tsl.InOp, tsl.NotInOp), g.left(name+"l", 0), g.list(name+"i"))
	case 4:
		return op2(pick(name+".op", tsl.BetweenOp, tsl.NotBetweenOp), g.left(name+"l", 0), list(g.lit(name+"b", true), g.lit(name+"e", true)))
	case 5:
		return op1(pick(name+".op", tsl.IsNilOp, tsl.IsNotNilOp), g.left(name+"l", 0))
	}
	return op1(tsl.NotOp, g.cond(name+"n", sym.Choose(name+".in", kindsOfCond-1), 0))
}

// logic is a tree of AND, OR and NOT over a few comparisons.
func (g *gen) logic(name string, depth int) tsl.Node {
	k := 5
	if depth > 0 {
		k = 8
	}
	switch sym.Choose(name+".logic", k) {
	case 0:
		return op2(tsl.EqOp, g.id(), num(1))
	case 1:
		return op2(tsl.NotInOp, g.id(), list(str("x"), str("y")))
	case 2:
		return op2(tsl.BetweenOp, g.id(), list(num(1), num(2)))
	case 3:
		return op1(tsl.IsNotNilOp, g.id())
	case 4:
		if v5 {
			return op2(tsl.GtOp, g.id(), op2(tsl.SubtractOp, g.id(), num(1)))
		}
		return op2(tsl.GtOp, op2(tsl.SubtractOp, g.id(), num(1)), num(2))
	case 5:
		return op1(tsl.NotOp, g.logic(name+"n", depth-1))
	case 6:
		return op2(tsl.AndOp, g.logic(name+"l", depth-1), g.logic(name+"r", depth-1))
	}
	return op2(tsl.OrOp, g.logic(name+"l", depth-1), g.logic(name+"r", depth-1))
}

// chain is a long AND/OR chain, leaning to either side.
func (g *gen) chain() tsl.Node {
	n := op2(tsl.EqOp, g.id(), num(0))
	for i := 0; i < sym.Param("links", 5); i++ {
		c := op2(tsl.EqOp, g.id(), num(float64(i+1)))
		f := pick(fmt.Sprintf("f%d", i), tsl.AndOp, tsl.OrOp)
		if sym.Choose(fmt.Sprintf("s%d", i), 2) == 0 {
			n = op2(f, n, c)
		} else {
			n = op2(f, c, n)
		}
	}
	return n
}
