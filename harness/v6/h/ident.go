package h

import (
	"errors"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
)

var errRefused = errors.New("refused")

// mapping is a check function with a free outcome for every name.
type mapping struct {
	out   map[string]int
	calls map[string]int
	kinds int
}

func newMapping(kinds int) *mapping {
	return &mapping{out: map[string]int{}, calls: map[string]int{}, kinds: kinds}
}

const (
	mSame = iota
	mRename
	mRefuse
	mPath
	mBroken
)

func (m *mapping) outcome(s string) int {
	k, ok := m.out[s]
	if !ok {
		k = sym.Choose("map."+s, m.kinds)
		m.out[s] = k
	}
	return k
}

func (m *mapping) check(s string) (string, error) {
	m.calls[s]++
	switch m.outcome(s) {
	case mRename:
		return "new_" + s, nil
	case mRefuse:
		return s, errRefused
	case mPath:
		return s + ".x/y[0]", nil
	case mBroken:
		return s + " )", nil
	}
	return s, nil
}

// idents lists the identifiers of the tree.
func idents(e *E, to []string) []string {
	if e.K == Id {
		return append(to, e.S)
	}
	for _, a := range e.A {
		to = idents(a, to)
	}
	return to
}

// mapped is the expected tree.
func (m *mapping) mapped(e *E) *E {
	c := *e
	if e.K == Id {
		switch m.out[e.S] {
		case mRename:
			c.S = "new_" + e.S
		case mPath:
			c.S = e.S + ".x/y[0]"
		}
		return &c
	}
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, m.mapped(a))
	}
	return &c
}

// identCheck maps the tree, compares, and frees both trees in either order.
func identCheck(kinds int) func(n *tsl.TSLNode, e *E) {
	return func(n *tsl.TSLNode, e *E) {
		m := newMapping(kinds)
		before := sym.LiveBlocks()
		r, err := ident.Walk(n, m.check)
		bad := false
		seen := map[string]int{}
		for _, s := range idents(e, nil) {
			seen[s]++
			if k, ok := m.out[s]; ok && (k == mRefuse || k == mBroken) {
				bad = true
			}
		}
		for s := range m.calls {
			sym.Assert(seen[s] > 0, "the check function is called with a name that is not in the tree")
		}
		sameTree(n, e, "input tree after the walk")
		if bad {
			sym.Assert(err != nil, "a refused or broken name is no error")
			sym.Assert(r == nil, "an error and a tree")
			sym.Assert(sym.LiveBlocks() == before, "native memory is left allocated after a refused walk")
			return
		}
		sym.Assert(err == nil && r != nil, "a walk without refused names is an error")
		for s, k := range seen {
			sym.Assert(m.calls[s] >= 1, "an identifier is not given to the check function")
			_ = k
		}
		sameTree(r, m.mapped(e), "mapped tree")
		if sym.Choose("free", 2) == 0 {
			r.Free()
			sameTree(n, e, "input tree after freeing the mapped tree")
		} else {
			c := n.Clone()
			n.Free()
			sameTree(r, m.mapped(e), "mapped tree after freeing the input tree")
			r.Free()
			sameTree(c, e, "copy of the input tree")
			c.Free()
			return
		}
		sym.Assert(sym.LiveBlocks() == before, "native memory is left allocated after the walk")
	}
}

var identVocab = []int{tIDENTIFIER, tNUMERICLITERAL, tLPAREN, tRPAREN, tLBRACKET, tRBRACKET, tCOMMA, tMINUS,
	tEQ, tKAND, tKBETWEEN, tKIN, tKIS, tKNULL, tKNOT, tKLEN}
var identArrVocab = []int{tIDENTIFIER, tSTRINGLITERAL, tLBRACKET, tRBRACKET, tCOMMA, tKIN}

func H_C40_full()  { tokenRunThen(fullVocab, sym.Param("len", 3), false, true, identCheck(5)) }
func H_C40_rep()   { tokenRunThen(identVocab, sym.Param("len", 5), false, true, identCheck(3)) }
func H_C40_array() { tokenRunThen(identArrVocab, sym.Param("len", 7), false, true, identCheck(3)) }

// every operator under every operator on either side, a free outcome for each of up to five names
func H_C40_pairs() {
	base := liveAfterWarmup(true)
	var in, e *E
	in = node2("inner", id("a"), id("b"))
	if sym.Choose("side", 2) == 0 {
		e = node2("outer", in, id("c"))
	} else {
		e = node2("outer", id("c"), in)
	}
	n := parse(e)
	identCheck(3)(n, e)
	n.Free()
	sym.Assert(sym.LiveBlocks() == base, "native memory is left allocated after the walk")
}

// the same name at several places, literals in between
func H_C40_same() {
	e := bin("K_AND", bin("EQ", id("a"), text("a")), bin("K_OR", bin("K_IN", id("b"), arr(id("a"), num(1), arr(id("a"), null0(id("b"))))), un("K_NOT", id("a"))))
	n := parse(e)
	identCheck(5)(n, e)
	n.Free()
}

func null0(e *E) *E { return isNull(e) }

// identifiers of any name
func H_C40_names() {
	k := sym.Param("id", 3)
	s := ascii("id", 1+sym.Choose("id.len", k))
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok := sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z'))
		if i > 0 {
			ok = sym.Or(ok, sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(c == '_', sym.Or(c == '.', c == '/'))))
		}
		sym.Assume(ok)
	}
	notWord(s)
	e := bin("EQ", id(s), text("v"))
	n := parse(e)
	calls := 0
	to := "other"
	if len(s) <= 2 {
		// onto a name of any letters
		to = ascii("to", 1+sym.Choose("to.len", 2))
		for i := 0; i < len(to); i++ {
			sym.Assume(sym.Or(sym.And(to[i] >= 'a', to[i] <= 'z'), sym.And(to[i] >= 'A', to[i] <= 'Z')))
		}
		notWord(to)
	}
	r, err := ident.Walk(n, func(x string) (string, error) {
		calls++
		sym.Assert(sym.EqStr(x, s), "the check function gets another name")
		return to, nil
	})
	sym.Assert(err == nil && calls >= 1, "the name is not checked")
	sameTree(r, bin("EQ", id(to), text("v")), "mapped tree")
	sameTree(n, e, "input tree")
	r.Free()
	n.Free()
}

// notWord keeps the keywords out.
func notWord(s string) {
	for _, w := range []string{"like", "ilike", "and", "or", "between", "in", "is", "null", "not", "len", "any", "all", "sum", "true", "false"} {
		if len(w) != len(s) {
			continue
		}
		eq := true
		for i := 0; i < len(s); i++ {
			eq = sym.And(eq, s[i]|0x20 == w[i])
		}
		sym.Assume(sym.Not(eq))
	}
}
