// Code generated by tools/reg.py from harness/v5. DO NOT EDIT.

package h

import (
	"errors"
	"sort"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
	idents "github.com/yaacov/tree-search-language/v4/pkg/walkers/ident"
)

var errRefused = errors.New("refused")

// mapping has a free outcome for every name.
type mapping struct {
	out   map[string]int
	calls map[string]int
	kinds int
}

const (
	mRename = iota
	mRefuse
	mQuote
	mSame
)

func (m *mapping) check(s string) (string, error) {
	m.calls[s]++
	k, ok := m.out[s]
	if !ok {
		k = sym.Choose("map."+s, m.kinds)
		m.out[s] = k
	}
	switch k {
	case mRename:
		return "new_" + s, nil
	case mRefuse:
		return s, errRefused
	case mQuote:
		return s + " 'x", nil
	}
	return s, nil
}

func (m *mapping) mapped(n tsl.Node) tsl.Node {
	if n.Func == tsl.IdentOp {
		s := n.Left.(string)
		switch m.out[s] {
		case mRename:
			n.Left = "new_" + s
		case mQuote:
			n.Left = s + " 'x"
		}
		return n
	}
	if l, ok := n.Left.(tsl.Node); ok {
		n.Left = m.mapped(l)
	}
	if r, ok := n.Right.(tsl.Node); ok {
		n.Right = m.mapped(r)
	}
	return n
}

func identCheck(n tsl.Node, kinds int) {
	identCheckWith(n, &mapping{map[string]int{}, map[string]int{}, kinds})
}

func sortedNames(names map[string]bool) []string {
	r := []string{}
	for s := range names {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

func identCheckWith(n tsl.Node, m *mapping) {
	keep := copyTree(n)
	r, err := idents.Walk(n, m.check)
	names := map[string]bool{}
	identsOf(keep, names)
	bad := false
	for s := range m.calls {
		sym.Assert(names[s], "the check function is called with a name that is not in the tree")
		bad = bad || m.out[s] == mRefuse
	}
	sameTree(keep, n, "the input tree")
	sym.Observe("error", err != nil)
	if bad {
		sym.Assert(err == errRefused, "the error of the check function is not returned")
		return
	}
	sym.Assert(err == nil, "a walk without refused names is an error")
	for s := range names {
		sym.Assert(m.calls[s] > 0, "an identifier is not given to the check function")
	}
	sameTree(m.mapped(keep), r, "the mapped tree")
}

func H_C86_compare() {
	g := &gen{free: true, lits: sym.Param("lits", 3)}
	identCheck(g.cond("c", 0, sym.Param("depth", 0)), 3)
}

func H_C86_other() {
	g := &gen{free: true, lits: sym.Param("lits", 3)}
	identCheck(g.cond("c", 1+sym.Choose("kind", kindsOfCond-1), 0), 3)
}

func H_C86_logic() {
	g := &gen{}
	identCheck(g.logic("l", sym.Param("depth", 2)), sym.Param("out", 2))
}

func H_C86_chain() {
	g := &gen{}
	identCheck(g.chain(), 2)
}

// the same name at several places
func H_C86_same() {
	a := id("a")
	n := op2(tsl.AndOp, op2(tsl.EqOp, a, str("a")), op2(tsl.OrOp, op2(tsl.InOp, a, list(str("a"), num(1))), op1(tsl.NotOp, op1(tsl.IsNilOp, a))))
	if v5 {
		n = op2(tsl.OrOp, n, op2(tsl.LtOp, op2(tsl.AddOp, a, a), op2(tsl.SubtractOp, op2(tsl.MultiplyOp, num(2), a), a)))
		n.Right = op2(tsl.LtOp, op2(tsl.AddOp, a, a), op2(tsl.SubtractOp, op2(tsl.MultiplyOp, a, num(2)), a))
	}
	identCheck(n, 4)
}

// names of any characters
func H_C86_names() {
	s := sym.Str("s", 1+sym.Choose("len", sym.Param("len", 4)))
	t := sym.Str("t", sym.Choose("tlen", 3))
	n := op2(tsl.EqOp, id(s), str(s))
	calls := 0
	r, err := idents.Walk(n, func(x string) (string, error) {
		calls++
		sym.Assert(sym.EqStr(x, s), "the check function gets another name")
		return t, nil
	})
	sym.Assert(err == nil && calls >= 1, "the name is not checked")
	sameTree(op2(tsl.EqOp, id(t), str(s)), r, "the mapped tree")
	sameTree(op2(tsl.EqOp, id(s), str(s)), n, "the input tree")
}

// longer lists, whose items are no names
func H_C86_list() {
	identCheck(op2(pick("op", tsl.InOp, tsl.NotInOp), id("a"), longList(sym.Param("list", 6))), 3)
}
