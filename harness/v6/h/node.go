package h

import (
	"fmt"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// equalNodes asserts that two trees are equal at every position.
func equalNodes(a, b *tsl.TSLNode, where string) {
	sym.Assert((a == nil) == (b == nil), where+": a child is missing in one of the trees")
	if a == nil {
		return
	}
	sym.Assert(a.Type() == b.Type(), where+": kinds differ")
	va, vb := a.Value(), b.Value()
	switch x := va.(type) {
	case tsl.TSLExpressionOp:
		y, ok := vb.(tsl.TSLExpressionOp)
		sym.Assert(ok && x.Operator == y.Operator, where+": operators differ")
		equalNodes(x.Left, y.Left, where+".L")
		equalNodes(x.Right, y.Right, where+".R")
	case tsl.TSLArrayLiteral:
		y, ok := vb.(tsl.TSLArrayLiteral)
		sym.Assert(ok && len(x.Values) == len(y.Values), where+": array lengths differ")
		for i := range x.Values {
			equalNodes(x.Values[i], y.Values[i], fmt.Sprintf("%s[%d]", where, i))
		}
	case float64:
		y, ok := vb.(float64)
		sym.Assert(ok && sym.SameFloat(x, y), where+": numbers differ")
	case string:
		y, ok := vb.(string)
		sym.Assert(ok && sym.EqStr(x, y), where+": texts differ")
	case bool:
		y, ok := vb.(bool)
		sym.Assert(ok && x == y, where+": Booleans differ")
	default:
		sym.Assert(fmt.Sprintf("%T", va) == fmt.Sprintf("%T", vb), where+": values differ in type")
	}
}

// outcome of one parse
type outcome struct {
	n   *tsl.TSLNode
	err *tsl.SyntaxError
}

func parseOnce(s string) outcome {
	n, err := tsl.ParseTSL(s)
	if err == nil {
		return outcome{n: n}
	}
	se, ok := err.(*tsl.SyntaxError)
	sym.Assert(ok, "the error is no *SyntaxError")
	return outcome{err: se}
}

// H_C09_repeat: a text parses the same way after any other text as before it.
func H_C09_repeat() {
	probe := pick("probe", "a = 'b\\n' and not [1, c] or x in [1Ki]", "a = ", ")", "\n x", "'a", "2020-01-02", "é", "a = 1 \n b", "")
	first := parseOnce(probe)
	s := oneOf(sym.Str("other", sym.Param("other", 3)), "a1'(\n=,[#")
	o := parseOnce(s)
	second := parseOnce(probe)
	sym.Assert((first.err == nil) == (second.err == nil), "the same text is accepted once and rejected once")
	if first.err != nil {
		sym.Assert(first.err.Position == second.err.Position, "the same text has another error position later")
		sym.Assert(first.err.Message == second.err.Message, "the same text has another error message later")
		sym.Assert(first.err.Context == second.err.Context, "the same text has another error context later")
		sym.Observe("position", second.err.Position)
	} else {
		equalNodes(first.n, second.n, "tree")
		first.n.Free()
		second.n.Free()
	}
	if o.n != nil {
		// the tree of the other text outlives later parses
		toks, ok := specLex(s)
		sym.Assert(ok, "an input that is no expression is accepted")
		e, ok, _ := oracleParse(toks)
		sym.Assert(ok, "an input that is no expression is accepted")
		sameTree(o.n, e, "tree")
		o.n.Free()
	}
}

// cloneCheck: a clone is equal, and survives the original and changes to it.
func cloneCheck(n *tsl.TSLNode, e *E) {
	before := sym.LiveBlocks()
	c := n.Clone()
	sym.Assert(c != nil, "no clone")
	sameTree(c, e, "clone")
	// a change of the clone does not show in the original, and the other way round
	switch sym.Choose("change", 3) {
	case 0:
		if d := c.DetachLeft(); d != nil {
			d.Free()
		}
		if d := c.DetachRight(); d != nil {
			d.Free()
		}
		if d := c.DetachChild(); d != nil {
			d.Free()
		}
		sameTree(n, e, "original after a change of the clone")
		c.Free()
		sameTree(n, e, "original after the clone was freed")
		sym.Assert(sym.LiveBlocks() == before, "freeing the clone does not release exactly its memory")
	case 1:
		if d := n.DetachLeft(); d != nil {
			d.Free()
		}
		if d := n.DetachRight(); d != nil {
			d.Free()
		}
		if d := n.DetachChild(); d != nil {
			d.Free()
		}
		sameTree(c, e, "clone after a change of the original")
		c.Free()
	case 2:
		c2 := c.Clone()
		c.Free()
		n2 := n.Clone()
		sameTree(c2, e, "clone of the clone")
		sameTree(n2, e, "second clone")
		c2.Free()
		n2.Free()
		sym.Assert(sym.LiveBlocks() == before, "freeing the clones does not release exactly their memory")
	}
}

func H_C10_full()  { tokenRunThen(fullVocab, sym.Param("len", 3), false, true, cloneCheck) }
func H_C10_rep()   { tokenRunThen(repVocab, sym.Param("len", 5), false, true, cloneCheck) }
func H_C10_array() { tokenRunThen(arrVocab, sym.Param("len", 7), false, true, cloneCheck) }

// H_C10_values: literals of any value and text.
func H_C10_values() {
	f := sym.Float64("num")
	s := sym.Str("text", sym.Choose("len", sym.Param("text", 2)+1))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 0)
	}
	e := arr(num(f), text(s), bin("EQ", id("i"), boo(true)), isNull(un("K_NOT", boo(false))))
	notDate(s)
	base := liveAfterWarmup(true)
	n := parse(e)
	cloneCheck(n, e)
	n.Free()
	sym.Assert(sym.LiveBlocks() == base, "native memory is left allocated")
}

// ---- ownership

type handle struct {
	n *tsl.TSLNode
	e *E // the tree it should be; nil operands are detached ones
}

// sameOwned is sameTree for trees with detached children.
func sameOwned(n *tsl.TSLNode, e *E, where string) {
	if e == nil {
		sym.Assert(n == nil, where+": a detached child is still there")
		return
	}
	sym.Assert(n != nil, where+": a child is missing")
	switch e.K {
	case Bin:
		op, ok := n.Value().(tsl.TSLExpressionOp)
		sym.Assert(ok && op.Operator == opCode[e.Op] && n.Type() == tsl.Kind(Bin), where+": the operator changed")
		sameOwned(op.Left, e.A[0], where+".L")
		sameOwned(op.Right, e.A[1], where+".R")
	case Un:
		op, ok := n.Value().(tsl.TSLExpressionOp)
		sym.Assert(ok && op.Operator == opCode[e.Op] && n.Type() == tsl.Kind(Un), where+": the operator changed")
		sameOwned(op.Right, e.A[0], where+".C")
	default:
		sameTree(n, e, where)
	}
}

// H_C11_history: any sequence of detach and attach operations on a forest.
func H_C11_history() {
	base := liveAfterWarmup(true)
	x, y := sym.Float64("x"), sym.Float64("y")
	sym.Assume(sym.And(x == x, y == y))
	var es []*E
	switch sym.Choose("forest", 4) {
	case 0:
		es = []*E{bin("K_AND", id("a"), un("K_NOT", id("b"))), un("UMINUS", num(x)), bin("EQ", num(y), id("c"))}
	case 1:
		es = []*E{isNull(id("a")), bin("K_IN", boo(true), arr(num(x))), un("K_NOT", isNull(id("b")))}
	case 2:
		es = []*E{bin("EQ", text("t"), date("2020-01-02")), between(id("a"), num(x), stamp("2020-01-02T03:04:05Z")), un("K_LEN", arr())}
	default:
		es = []*E{un("K_SUM", arr(id("a"), text("s"))), un("K_NOT", boo(false)), arr(num(y))}
	}
	var roots []handle
	for _, e := range es {
		roots = append(roots, handle{parse(e), e})
	}
	for step := 0; step < sym.Param("steps", 2); step++ {
		r := sym.Choose("root", len(roots))
		h := roots[r]
		op := sym.Choose("op", 6)
		slot, kind := 0, Bin
		switch op % 3 {
		case 1:
			slot = 1
		case 2:
			kind = Un
		}
		fits := h.e.K == kind
		if op < 3 {
			var d *tsl.TSLNode
			switch op {
			case 0:
				d = h.n.DetachLeft()
			case 1:
				d = h.n.DetachRight()
			case 2:
				d = h.n.DetachChild()
			}
			if !fits || h.e.A[slot] == nil {
				sym.Assert(d == nil, "detaching from a node without that child returns a node")
			} else {
				sym.Assert(d != nil, "detaching an existing child returns nothing")
				roots = append(roots, handle{d, h.e.A[slot]})
				h.e.A[slot] = nil
			}
		} else {
			o := sym.Choose("other", len(roots)-1)
			if o >= r {
				o++
			}
			c := roots[o]
			ok := false
			switch op {
			case 3:
				ok = h.n.AttachLeft(c.n)
			case 4:
				ok = h.n.AttachRight(c.n)
			case 5:
				ok = h.n.AttachChild(c.n)
			}
			sym.Assert(ok == fits, "attaching succeeds exactly on a node that has that child slot")
			if fits {
				h.e.A[slot] = c.e
				roots = append(append([]handle{}, roots[:o]...), roots[o+1:]...)
			}
		}
		for i, h := range roots {
			sameOwned(h.n, h.e, fmt.Sprintf("tree %d", i))
		}
	}
	for _, h := range roots {
		h.n.Free()
	}
	sym.Assert(sym.LiveBlocks() == base, "freeing every root does not release everything exactly once")
}

// refuseNil: operations on no node at all.
func refuseNil() {
	var n *tsl.TSLNode
	base := liveAfterWarmup(true)
	var c *tsl.TSLNode
	if sym.Choose("nil", 2) == 1 {
		c = parse(id("z"))
	}
	var d *tsl.TSLNode
	ok := false
	switch sym.Choose("op", 7) {
	case 0:
		d = n.DetachLeft()
	case 1:
		d = n.DetachRight()
	case 2:
		d = n.DetachChild()
	case 3:
		ok = n.AttachLeft(c)
	case 4:
		ok = n.AttachRight(c)
	case 5:
		ok = n.AttachChild(c)
	default:
		d = n.Clone()
	}
	sym.Assert(d == nil && !ok, "an operation on no node is not refused")
	if c != nil {
		sameTree(c, id("z"), "refused child")
		c.Free()
	}
	sym.Assert(sym.LiveBlocks() == base, "a refused operation changes what is allocated")
}

// H_C11_refuse: nil handles and nodes of the wrong kind are refused.
func H_C11_refuse() {
	e := id("a")
	var n, c *tsl.TSLNode
	switch sym.Choose("node", 9) {
	case 8:
		refuseNil()
		return
	case 1:
		e = num(sym.Float64("x"))
	case 2:
		e = text("s")
	case 3:
		e = boo(true)
	case 4:
		e = arr(id("a"), num(2))
	case 5:
		e = date("2020-01-02")
	case 6:
		e = bin("K_OR", id("a"), id("b"))
	case 7:
		e = un("K_LEN", id("a"))
	}
	base := liveAfterWarmup(true)
	n = parse(e)
	op := sym.Choose("op", 6)
	wantBin := op == 0 || op == 1 || op == 3 || op == 4
	fits := e.K == Bin && wantBin || e.K == Un && !wantBin
	if op < 3 {
		sym.Assume(!fits)
		var d *tsl.TSLNode
		switch op {
		case 0:
			d = n.DetachLeft()
		case 1:
			d = n.DetachRight()
		default:
			d = n.DetachChild()
		}
		sym.Assert(d == nil, "detaching from a node of another kind returns a node")
	} else {
		if sym.Choose("nil", 2) == 0 {
			fits = false
		} else {
			sym.Assume(!fits)
			c = parse(id("z"))
		}
		ok := true
		switch op {
		case 3:
			ok = n.AttachLeft(c)
		case 4:
			ok = n.AttachRight(c)
		default:
			ok = n.AttachChild(c)
		}
		sym.Assert(!ok, "attaching nothing, or to a node of another kind, is accepted")
		if c != nil {
			sameTree(c, id("z"), "refused child")
			c.Free()
		}
	}
	sameTree(n, e, "refusing node")
	n.Free()
	sym.Assert(sym.LiveBlocks() == base, "a refused operation changes what is allocated")
}
