package h

import (
	"strings"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// ---- large instances: sizes beyond any threshold a small one could stay below,
// with free values and free bytes at chosen places

// bigText is a long text with a free byte at its start, in its middle or at its end.
func bigText(name string) string {
	n := []int{17, 40, 130, 600}[sym.Choose(name+".long", 4)]
	fill := strings.Repeat(pick(name+".fill", "abcdefghij", "\\\"'{|"), n)[:n]
	at := []int{0, n / 2, n - 1}[sym.Choose(name+".at", 3)]
	return fill[:at] + ascii(name, 1) + fill[at+1:]
}

// bigName is a long identifier.
func bigName(name string) string {
	n := []int{17, 40, 130, 600}[sym.Choose(name+".long", 4)]
	return strings.Repeat("ab.cd/e[0].x_", n)[:n-1] + "z"
}

func bigNum(name string) *E {
	f := sym.Float64(name)
	sym.Assume(sym.And(f < 1e300, f > -1e300))
	return num(f)
}

// bigTree is a wide or deep tree.
func bigTree(name string, long bool) *E {
	sizes := []int{9, 17, 33, 70}
	if long {
		sizes = []int{9, 33, 130, 260}
	}
	n := sizes[sym.Choose(name+".size", len(sizes))]
	switch pick(name+".shape", "in", "names", "and", "or", "sum", "right", "not", "arrays", "texts", "balanced") {
	case "in": // a wide list with a free element
		a := arr()
		at := []int{0, n / 2, n - 1}[sym.Choose(name+".at", 3)]
		for i := 0; i < n; i++ {
			if i == at {
				a.A = append(a.A, bigNum(name))
			} else {
				a.A = append(a.A, num(float64(i)))
			}
		}
		return bin("K_IN", id("x"), a)
	case "names":
		a := arr()
		for i := 0; i < n; i++ {
			a.A = append(a.A, id([]string{"a", "b"}[i%2]))
		}
		return bin("K_IN", id("x"), a)
	case "and", "or":
		op := "K_AND"
		if n%2 == 0 {
			op = "K_OR"
		}
		e := bin("EQ", id("x"), bigNum(name))
		for i := 1; i < n; i++ {
			e = bin(op, e, bin("NE", id("x"), num(float64(i))))
		}
		return e
	case "sum":
		e := id("x")
		for i := 1; i < n; i++ {
			e = bin([]string{"PLUS", "MINUS"}[i%2], e, num(float64(i)))
		}
		return bin("GT", e, bigNum(name))
	case "right":
		e := bin("LT", id("x"), bigNum(name))
		for i := 1; i < n; i++ {
			e = bin([]string{"K_AND", "K_OR"}[i%2], bin("GE", id("x"), num(float64(i))), e)
		}
		return e
	case "not":
		e := bin("EQ", id("x"), bigNum(name))
		for i := 1; i < n; i++ {
			e = un("K_NOT", e)
		}
		return e
	case "arrays":
		e := arr(bigNum(name))
		for i := 1; i < n; i++ {
			e = arr(e, num(float64(i)))
		}
		return bin("EQ", id("x"), e)
	case "texts":
		return bin("K_OR", bin("EQ", id("x"), text(bigText(name))), isNull(id(bigName(name+"2"))))
	}
	// balanced
	var mk func(lo, hi int) *E
	mk = func(lo, hi int) *E {
		if hi-lo < 2 {
			if lo == n/2 {
				return bin("EQ", id("x"), bigNum(name))
			}
			return bin("K_BETWEEN", id("x"), arr(num(float64(lo)), num(float64(hi))))
		}
		m := (lo + hi) / 2
		return bin([]string{"K_AND", "K_OR"}[n%2], mk(lo, m), mk(m, hi))
	}
	return mk(0, n)
}

// withBig parses a large tree, compares it, gives it to f and frees it.
func withBig(long bool, f func(n *tsl.TSLNode, e *E)) {
	e := bigTree("big", long)
	base := liveAfterWarmup(true)
	n := parse(e)
	sameTree(n, e, "tree")
	if f != nil {
		f(n, e)
	}
	n.Free()
	sym.Assert(sym.LiveBlocks() == base, "native memory is left allocated")
}

func H_C01_big() { withBig(true, nil) }
func H_C10_big() { withBig(false, cloneCheck) }
func H_C12_big() { withBig(false, bothForms) }
func H_C31_big() { withBig(false, sqlCheck) }
func H_C40_big() { withBig(false, identCheck(3)) }
func H_C50_big() { withBig(false, dotCheck) }

// the literal kinds of other shapes: timestamps with fractions and offsets, long texts,
// numbers of many digits
func litTree() *E {
	var e *E
	switch sym.Choose("lit", 5) {
	case 4:
		e = num([]float64{0.30000000000000004, 123456789.015625, 16777217.1, 1e300, 5e-324}[sym.Choose("num", 5)])
	case 0:
		e = stamp(pick("stamp", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.25Z", "2020-01-02T01:00:00+01:30", "1999-12-31T23:59:59.123456789+11:30", "2020-01-02T03:04:05.000000000000000000000000000000001Z"))
	case 1:
		e = date(pick("date", "2020-01-02", "0001-01-01", "9999-99-99"))
	case 2:
		s := bigText("text")
		e = text(s)
	default:
		e = id(bigName("name"))
	}
	switch sym.Choose("place", 4) {
	case 1:
		e = bin("GE", e, id("z"))
	case 2:
		e = un("K_NOT", e)
	case 3:
		e = bin("K_IN", id("z"), arr(e, num(0)))
	}
	return e
}

func withLit(f func(n *tsl.TSLNode, e *E)) {
	e := litTree()
	base := liveAfterWarmup(true)
	n := parse(e)
	sameTree(n, e, "tree")
	f(n, e)
	n.Free()
	sym.Assert(sym.LiveBlocks() == base, "native memory is left allocated")
}

func H_C10_lit() { withLit(cloneCheck) }
func H_C12_lit() { withLit(bothForms) }
func H_C30_lit() { withLit(sqlCheck) }
func H_C40_lit() { withLit(identCheck(3)) }
func H_C50_lit() { withLit(dotCheck) }

// ---- long texts through the scanner

// longText is a long text with free bytes: quoted text, names, digits, blanks or
// an expression, followed by a free tail.
func longText() string {
	n := []int{25, 70, 140, 520, 1100}[sym.Choose("long", 5)]
	rep := func(s string) string { return strings.Repeat(s, n)[:n] }
	hole := func(s string) string {
		at := []int{1, len(s) / 2, len(s) - 2}[sym.Choose("at", 3)]
		return s[:at] + sym.Str("hole", 1) + s[at+1:]
	}
	switch pick("shape", "quoted", "wide", "word", "digits", "blank", "chain", "open") {
	case "quoted":
		return hole("'"+rep("ab \\n,;")+"x'") + upTo("tail", 0)
	case "wide":
		return "a = '" + strings.Repeat("é日", n/5) + "' " + upTo("tail", 1)
	case "word":
		return hole("x" + rep("b.c/d_9"))
	case "digits":
		if n > 70 {
			n = 70
		}
		return hole(rep("1234567890"))
	case "blank":
		return "a" + hole(rep(" \t\n")) + "= 1" + upTo("tail", 1)
	case "chain":
		return "a = 1" + strings.Repeat(" and b = 'c'", n/12) + upTo("tail", 1)
	}
	return strings.Repeat("(", n) + upTo("tail", 1)
}

func H_C02_long() { textCheck(longText(), what) }
func H_C06_long() { textCheck(longText(), mem) }
func H_C07_long() { textCheck(longText(), errs) }

// quoted text of the shape of a date or a timestamp, or almost
func shapeText() string {
	f := pick("form", "2019-10-28", "abcd-fg-ij", "2019-10-28T13:24:59Z", "2019-10-28T13:24:59.25+01:00", "a-b-c", "T", "xTyZ", "xT+")
	q := pick("quote", "'", "\"", "`")
	switch sym.Choose("edit", 3) {
	case 0: // a free byte put in
		at := sym.Choose("at", len(f)+1)
		f = f[:at] + sym.Str("hole", 1) + f[at:]
	case 1: // a byte made free
		at := sym.Choose("at", len(f))
		f = f[:at] + sym.Str("hole", 1) + f[at+1:]
	default: // bytes after it
		f += upTo("more", 2)
	}
	return q + f + q
}

func H_C04_shape() { textCheck(shapeText(), what) }
func H_C04_long() {
	n := []int{15, 25, 70, 140, 520, 1100}[sym.Choose("long", 6)]
	s := strings.Repeat(pick("fill", "abcdefg ", "\\n\\\\x", "é日"), n)[:n/16*16+8]
	at := []int{0, n/16*8 + 8, len(s)}[sym.Choose("at", 3)]
	q := pick("quote", "'", "\"", "`")
	textCheck(q+s[:at]+sym.Str("hole", 1)+s[at:]+q, what)
}

// ---- evaluation of large instances

func H_C20_long() {
	a, b := bigText("a"), ascii("b", 1)
	// b differs from a in one byte at most
	at := []int{0, len(a) / 2, len(a) - 1}[sym.Choose("b.at", 3)]
	c := a[:at] + b + a[at+1:]
	e := bin(pick("op", "EQ", "NE"), id("a"), id("b"))
	meaning(e, rec{"a": a, "b": c})
}

func H_C23_big() {
	n := []int{9, 17, 33, 130}[sym.Choose("size", 4)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	l := arr()
	kind := sym.Choose("kind", 4)
	var x interface{}
	switch kind {
	case 0:
		x = sym.Float64("x")
	case 1:
		x = sym.Int64("x")
	case 2:
		x = ascii("x", 2)
	case 3:
		x = sym.Bool("x")
	}
	f := sym.Float64("f")
	sym.Assume(f == f)
	s := ascii("s", 2)
	for i := 0; i < n; i++ {
		switch {
		case kind < 2 && i == at:
			l.A = append(l.A, num(f))
		case kind < 2:
			l.A = append(l.A, num(1.5))
		case kind == 2 && i == at:
			l.A = append(l.A, text(s))
		case kind == 2:
			l.A = append(l.A, text("other"))
		default:
			l.A = append(l.A, boo(i == at))
		}
	}
	meaning(neg(bin("K_IN", id("x"), l)), rec{"x": x})
}

func H_C24_long() {
	n := []int{17, 40, 130}[sym.Choose("size", 3)]
	v := strings.Repeat("ab", n)[:n]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	v = v[:at] + ascii("v", 1) + v[at+1:]
	p := ""
	switch sym.Choose("pat", 5) {
	case 0:
		p = strings.Repeat("ab", n)[:n]
	case 1:
		p = "%" + strings.Repeat("ab", n)[1:n]
	case 2:
		p = strings.Repeat("ab", n)[:n-1] + "%"
	case 3:
		p = strings.Repeat("_", n)
	case 4:
		p = strings.Repeat("ab", n)[:n/2] + "_%" + strings.Repeat("ab", n)[n/2+1:n]
	}
	meaning(bin(pick("op", "K_LIKE", "K_ILIKE"), id("v"), text(p)), rec{"v": v})
}

func H_C25_big() {
	n := []int{9, 17, 33, 130}[sym.Choose("size", 4)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	op := pick("op", "K_ANY", "K_ALL", "K_LEN", "K_SUM", "K_NOT", "UMINUS", "EQ", "PLUS", "K_AND")
	a := []interface{}{}
	for i := 0; i < n; i++ {
		switch {
		case i == at:
			a = append(a, element("x"))
		case op == "K_SUM" || op == "UMINUS" || op == "EQ" || op == "PLUS":
			a = append(a, float64(i))
		default:
			a = append(a, op != "K_ANY")
		}
	}
	switch op {
	case "EQ", "PLUS":
		meaning(bin(op, id("a"), num(3)), rec{"a": a})
	case "K_AND":
		meaning(bin(op, id("a"), boo(true)), rec{"a": a})
	default:
		meaning(un(op, id("a")), rec{"a": a})
	}
}

// a deep tree with free values inside
func H_C21_big() {
	n := []int{9, 17, 33, 130}[sym.Choose("size", 4)]
	r := rec{"x": sym.Bool("x"), "y": sym.Bool("y"), "t": true, "f": false, "n": 1.5}
	shape := sym.Choose("shape", 3)
	op, fill := "K_AND", "t"
	if sym.Choose("or", 2) == 1 {
		op, fill = "K_OR", "f"
	}
	last := id(pick("last", "y", "n", "missing"))
	e := id("x")
	for i := 0; i < n; i++ {
		k := id(fill)
		if i == n/2 {
			k = last
		}
		switch shape {
		case 0:
			e = bin(op, e, k)
		case 1:
			e = bin(op, k, e)
		case 2:
			if i == n/2 {
				e = bin(op, e, k)
			} else {
				e = un("K_NOT", e)
			}
		}
	}
	meaning(e, r)
}

func H_C22_big() {
	n := []int{9, 33, 130}[sym.Choose("size", 3)]
	x := sym.Float64("x")
	e := id("x")
	for i := 1; i < n; i++ {
		switch sym.Choose("shape", 1) + i%3 {
		case 0:
			e = bin("PLUS", e, num(float64(i)))
		case 1:
			e = bin("MINUS", num(float64(i)), e)
		default:
			e = un("UMINUS", e)
		}
	}
	meaning(e, rec{"x": x})
}
