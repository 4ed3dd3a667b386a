// Code generated by tools/reg.py from harness/v5. DO NOT EDIT.

package h

import (
	"fmt"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
)

// H_C83_in: a field of any type in lists of literals of any kind.
func H_C83_in() {
	f := pick("op", tsl.InOp, tsl.NotInOp)
	items := []tsl.Node{}
	for i := 1 + sym.Choose("n", sym.Param("list", 2)); i > 0; i-- {
		items = append(items, lit(fmt.Sprintf("l%d", i)))
	}
	meaning(op2(f, id("a"), list(items...)), rec{"a": fieldVal("a", allClasses...)})
}

// H_C83_long: lists of one kind, the item that counts anywhere.
func H_C83_long() {
	f := pick("op", tsl.InOp, tsl.NotInOp)
	kind := sym.Choose("kind", 3)
	var a interface{}
	items := []tsl.Node{}
	n := sym.Choose("n", sym.Param("list", 6)+1)
	item := func(s string) tsl.Node {
		switch {
		case kind == 0:
			return num(sym.Float64(s))
		case kind == 1 || !v5:
			return str(ascii(s, 2))
		}
		return day(instantVal(s))
	}
	a = item("a").Left
	for i := 0; i < n; i++ {
		items = append(items, item(fmt.Sprintf("l%d", i)))
	}
	if n > 0 && sym.Choose("odd", 2) == 1 {
		items[n-1] = num(1)
		if kind == 0 {
			items[n-1] = str("1")
		}
	}
	meaning(op2(f, id("a"), list(items...)), rec{"a": a})
}

// H_C83_strings: texts of several lengths, a shorter text is no member.
func H_C83_strings() {
	f := pick("op", tsl.InOp, tsl.NotInOp, tsl.BetweenOp, tsl.NotBetweenOp)
	k := sym.Param("len", 3)
	s := func(n string) string { return sym.Str(n, sym.Choose(n+".len", k+1)) }
	meaning(op2(f, id("a"), list(str(s("x")), str(s("y")))), rec{"a": s("a")})
}

// H_C83_lists: a field that holds a list of texts.
func H_C83_lists() {
	f := pick("op", tsl.InOp, tsl.NotInOp, tsl.BetweenOp, tsl.NotBetweenOp)
	l := []string{}
	for i := sym.Choose("n", sym.Param("elems", 3)+1); i > 0; i-- {
		l = append(l, ascii(fmt.Sprintf("e%d", i), 1))
	}
	items := []tsl.Node{}
	k := sym.Choose("k", sym.Param("list", 3)+1)
	if f == tsl.BetweenOp || f == tsl.NotBetweenOp {
		k = 2
	}
	for i := 0; i < k; i++ {
		if sym.Choose(fmt.Sprintf("kind%d", i), 2) == 0 {
			items = append(items, str(ascii(fmt.Sprintf("i%d", i), 1)))
		} else {
			items = append(items, num(1))
		}
	}
	meaning(op2(f, id("a"), list(items...)), rec{"a": l})
}

// H_C83_between: a field of any type between literals of any kind.
func H_C83_between() {
	f := pick("op", tsl.BetweenOp, tsl.NotBetweenOp)
	meaning(op2(f, id("a"), list(lit("b"), lit("c"))), rec{"a": fieldVal("a", allClasses...)})
}

// H_C83_null: null tests of fields of any type, of missing fields and of sums.
func H_C83_null() {
	f := pick("op", tsl.IsNilOp, tsl.IsNotNilOp)
	r := rec{}
	n := id("a")
	switch sym.Choose("what", 4) {
	case 0:
		r["a"] = fieldVal("a", allClasses...)
	case 1: // missing
	case 2:
		r["a"] = fieldVal("a", cNum, cNil, cStr)
		n = op2(tsl.AddOp, id("a"), num(1))
	case 3:
		r["a"], r["b"] = fieldVal("a", cNum, cNil), fieldVal("b", cNum, cNil, cBool)
		n = op2(tsl.MultiplyOp, id("a"), id("b"))
		if !v5 {
			n.Right = num(2)
		}
	}
	t := op1(f, n)
	if sym.Choose("not", 2) == 1 {
		t = op1(tsl.NotOp, t)
	}
	meaning(t, r)
}

// H_C83_math: sums in lists and ranges.
func H_C83_math() {
	f := pick("op", tsl.InOp, tsl.NotInOp, tsl.BetweenOp, tsl.NotBetweenOp)
	r := rec{"a": fieldVal("a", cNum, cNil, cStr)}
	m := op2(pick("m", tsl.AddOp, tsl.SubtractOp, tsl.ModuloOp), id("a"), num(2))
	meaning(op2(f, m, list(num(sym.Float64("x")), num(sym.Float64("y")))), r)
}
