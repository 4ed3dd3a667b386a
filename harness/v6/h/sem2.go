package h

import (
	"fmt"
	"regexp"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
)

// ---- C21: Boolean logic

// boolTree is any tree of AND, OR and NOT down to a depth.
func boolTree(depth int, r rec, odd bool) *E {
	k := 0
	if depth > 0 {
		k = sym.Choose("node", 4)
	}
	switch k {
	case 1:
		return un("K_NOT", boolTree(depth-1, r, odd))
	case 2:
		a := boolTree(depth-1, r, odd)
		return bin("K_AND", a, boolTree(depth-1, r, odd))
	case 3:
		a := boolTree(depth-1, r, odd)
		return bin("K_OR", a, boolTree(depth-1, r, odd))
	}
	f := fmt.Sprintf("f%d", len(r))
	if odd {
		switch sym.Choose("leaf", 8) {
		case 1:
			return boo(true)
		case 2:
			return boo(false)
		case 3:
			return id("missing")
		case 4:
			r[f] = sym.Float64(f)
			return id(f)
		case 5:
			r[f] = nil
			return id(f)
		case 6:
			return text("true")
		case 7:
			return bin("EQ", num(1), num(2))
		}
	}
	r[f] = sym.Bool(f)
	return id(f)
}

func H_C21_tree() {
	r := rec{}
	e := boolTree(sym.Param("depth", 3), r, false)
	meaning(e, r)
}

func H_C21_types() {
	r := rec{}
	e := boolTree(sym.Param("depth", 2), r, true)
	meaning(e, r)
}

// ---- C22: arithmetic

var mathOps = []string{"PLUS", "MINUS", "STAR", "SLASH", "PERCENT"}

func H_C22_fields() {
	op := pick("op", mathOps...)
	r := rec{"a": numVal("a", sym.Choose("a.num", numTypes)), "b": numVal("b", sym.Choose("b.num", numTypes))}
	meaning(bin(op, id("a"), id("b")), r)
}

func H_C22_literal() {
	op := pick("op", mathOps...)
	f, g := sym.Float64("f"), sym.Float64("g")
	sym.Assume(sym.And(f == f, g == g))
	r := rec{"a": f}
	switch sym.Choose("shape", 4) {
	case 0:
		meaning(bin(op, id("a"), num(g)), r)
	case 1:
		meaning(bin(op, num(g), id("a")), r)
	case 2:
		meaning(bin(op, num(f), num(g)), r)
	case 3:
		meaning(un("UMINUS", num(f)), r)
	}
}

func H_C22_nested() {
	a, b, c := sym.Float64("a"), sym.Float64("b"), sym.Float64("c")
	r := rec{"a": a, "b": b, "c": c}
	o1, o2 := pick("op1", mathOps...), pick("op2", mathOps...)
	switch sym.Choose("shape", 5) {
	case 0:
		meaning(bin(o2, bin(o1, id("a"), id("b")), id("c")), r)
	case 1:
		meaning(bin(o1, id("a"), bin(o2, id("b"), id("c"))), r)
	case 2:
		meaning(un("UMINUS", bin(o1, un("UMINUS", id("a")), id("b"))), r)
	case 3:
		meaning(bin("LT", bin(o1, id("a"), id("b")), id("c")), r)
	case 4:
		meaning(between(bin(o1, id("a"), id("b")), id("b"), bin(o2, id("b"), id("c"))), r)
	}
}

func H_C22_types() {
	op := pick("op", append([]string{"UMINUS"}, mathOps...)...)
	a, ca := scalar("a")
	if op == "UMINUS" {
		meaning(un(op, id("a")), rec{"a": a})
		return
	}
	b, cb := scalar("b")
	sym.Assume(ca != cNum || cb != cNum)
	meaning(bin(op, id("a"), id("b")), rec{"a": a, "b": b})
}

// ---- C23: IN, BETWEEN, IS NULL

// value chooses a scalar of any class; numbers of one integer and one float type.
func value(name string) interface{} {
	switch sym.Choose(name+".class", 7) {
	case 0:
		return sym.Float64(name)
	case 1:
		return sym.Int64(name)
	case 2:
		return ascii(name, 1+sym.Choose(name+".len", sym.Param("strlen", 2)))
	case 3:
		return sym.Bool(name)
	case 4:
		s := sym.Int64(name)
		sym.Assume(sym.And(s >= -60000000000, s <= 250000000000))
		return time.Unix(s, 0).UTC()
	case 5:
		return pick(name+".date", "2020-01-02", "2020-01-02T03:04:05Z", "2020-01-02T00:00:00+00:00")
	}
	return nil
}

// operand2 is a literal or a field of any class.
func anyOperand(name string, r rec) *E {
	switch sym.Choose(name+".form", 7) {
	case 0:
		f := sym.Float64(name + ".lit")
		sym.Assume(f == f)
		return num(f)
	case 1:
		s := ascii(name+".lit", 1+sym.Choose(name+".len", sym.Param("strlen", 2)))
		notDate(s)
		return text(s)
	case 2:
		return boo(true)
	case 3:
		return date(pick(name+".date", "2020-01-02", "2019-12-31"))
	case 4:
		return stamp(pick(name+".stamp", "2020-01-02T03:04:05Z", "2020-01-02T00:00:00Z", "2020-01-02T01:00:00+01:00"))
	case 5:
		return id("missing")
	}
	r[name] = value(name)
	return id(name)
}

func neg(e *E) *E {
	if sym.Choose("neg", 2) == 1 {
		return un("K_NOT", e)
	}
	return e
}

func H_C23_in() {
	r := rec{}
	x := anyOperand("x", r)
	l := arr()
	for i := sym.Choose("n", sym.Param("n", 1)+1); i > 0; i-- {
		l.A = append(l.A, anyOperand(fmt.Sprintf("e%d", i), r))
	}
	meaning(neg(bin("K_IN", x, l)), r)
}

// lists of several elements of x's class and one of another
func H_C23_list() {
	r := rec{}
	n := 1 + sym.Choose("n", sym.Param("n", 3))
	l := arr()
	cls := sym.Choose("class", 3)
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("e%d", i)
		switch cls {
		case 0:
			f := sym.Float64(k)
			sym.Assume(f == f)
			l.A = append(l.A, num(f))
		case 1:
			s := ascii(k, sym.Param("strlen", 2))
			notDate(s)
			l.A = append(l.A, text(s))
		case 2:
			r[k] = sym.Int32(k)
			l.A = append(l.A, id(k))
		}
	}
	switch cls {
	case 1:
		r["x"] = ascii("x", sym.Param("strlen", 2))
	default:
		r["x"] = sym.Int64("x")
	}
	meaning(neg(bin("K_IN", id("x"), l)), r)
}

// the right side of IN is a field
func H_C23_infield() {
	r := rec{}
	x := anyOperand("x", r)
	switch sym.Choose("right", 3) {
	case 0:
		r["l"] = value("l")
	case 1:
		r["l"] = []interface{}{value("l0"), sym.Bool("l1")}
	case 2:
		r["l"] = []interface{}{}
	}
	meaning(neg(bin("K_IN", x, id("l"))), r)
}

// rangeOperand is an operand of BETWEEN.
func rangeOperand(name string, r rec) *E {
	switch sym.Choose(name+".form", 8) {
	case 0:
		return num(sym.Float64(name + ".lit"))
	case 1:
		return text("x")
	case 2:
		return date(pick(name+".date", "2020-01-02", "2019-12-31"))
	case 3:
		return stamp(pick(name+".stamp", "2020-01-02T03:04:05Z", "2020-01-02T01:00:00+01:00"))
	case 4:
		return id("missing")
	case 5:
		r[name] = sym.Float64(name)
	case 6:
		s := sym.Int64(name)
		sym.Assume(sym.And(s >= -60000000000, s <= 250000000000))
		r[name] = time.Unix(s, 0).UTC()
	case 7:
		switch sym.Choose(name+".odd", 4) {
		case 0:
			r[name] = nil
		case 1:
			r[name] = "2020-01-02"
		case 2:
			r[name] = sym.Bool(name)
		case 3:
			r[name] = []interface{}{sym.Float64(name)}
		}
	}
	return id(name)
}

func H_C23_between() {
	r := rec{}
	x := rangeOperand("x", r)
	a := rangeOperand("lo", r)
	b := rangeOperand("hi", r)
	meaning(neg(between(x, a, b)), r)
}

// numbers of every Go type
func H_C23_range() {
	r := rec{"x": numVal("x", sym.Choose("x.num", numTypes))}
	e := between(id("x"), num(sym.Float64("lo")), num(sym.Float64("hi")))
	if sym.Choose("swap", 2) == 1 {
		r["lo"] = numVal("lo", sym.Choose("lo.num", numTypes))
		e = between(num(sym.Float64("x.lit")), id("lo"), num(sym.Float64("hi")))
	}
	meaning(neg(e), r)
}

func H_C23_null() {
	r := rec{}
	x := anyOperand("x", r)
	meaning(neg(isNull(x)), r)
}

// ---- C24: LIKE, ILIKE and regular expressions

func H_C24_like() {
	op := pick("op", "K_LIKE", "K_ILIKE")
	p := ascii("p", sym.Choose("p.len", sym.Param("pat", 3)+1))
	s := ascii("s", sym.Choose("s.len", sym.Param("val", 3)+1))
	notDate(p)
	meaning(neg(bin(op, id("s"), text(p))), rec{"s": s})
}

// longer texts over a few characters that matter to patterns
func H_C24_wild() {
	op := pick("op", "K_LIKE", "K_ILIKE")
	p := oneOf(sym.Str("p", sym.Param("pat", 4)), "%_aA.\\")
	s := oneOf(sym.Str("s", sym.Param("val", 3)), "aA.%_\n")
	meaning(bin(op, id("s"), text(p)), rec{"s": s})
}

// characters outside ASCII count as one
func H_C24_utf() {
	p := pick("p", "é", "_", "%", "_b", "%é", "é%", "__", "[é]", "É")
	s := pick("s", "é", "ab", "éb", "", "日", "bé", "日本")
	op := pick("op", "K_LIKE", "K_ILIKE")
	n := parse(bin(op, id("s"), text(p)))
	v, err := semantics.Walk(n, rec{"s": s}.eval)
	isBool(v, err, likeRunes([]rune(p), []rune(s), op == "K_ILIKE"), "LIKE counts characters")
	n.Free()
}

func likeRunes(p, s []rune, fold bool) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	if p[0] == '%' {
		for i := 0; i <= len(s); i++ {
			if likeRunes(p[1:], s[i:], fold) {
				return true
			}
		}
		return false
	}
	if len(s) == 0 {
		return false
	}
	same := p[0] == s[0] || fold && (p[0] == 'É' && s[0] == 'é' || p[0] == 'é' && s[0] == 'É')
	return (p[0] == '_' || same) && likeRunes(p[1:], s[1:], fold)
}

// other operand classes are errors
func H_C24_types() {
	op := pick("op", "K_LIKE", "K_ILIKE", "REQ", "RNE")
	r := rec{}
	x := anyOperand("x", r)
	y := anyOperand("y", r)
	a, bad := spec(x, r)
	b, bad2 := spec(y, r)
	_, aIs := a.(string)
	_, bIs := b.(string)
	n := parse(bin(op, x, y))
	v, err := semantics.Walk(n, r.eval)
	// the text of a date literal may serve as a pattern or value
	if bad || bad2 || !aIs && x.K != Date || !bIs && y.K != Date {
		isErr(v, err, "a pattern operator over other values than strings gives a result")
	}
	n.Free()
}

func H_C24_regex() {
	op := pick("op", "REQ", "RNE")
	p := pick("p", "^a.c$", "b+", "(a|bc)d*", "[a-c]x", "", "a{2}", "\\d", "(?i)ab", "\\bq", "(", "[", "a**", "x{1001}", "\\")
	s := ascii("s", sym.Choose("s.len", sym.Param("val", 3)+1))
	regexCheck(op, p, s)
}

func H_C24_repat() {
	op := pick("op", "REQ", "RNE")
	p := ascii("p", 1+sym.Choose("p.len", sym.Param("pat", 1)))
	notDate(p)
	s := ascii("s", sym.Choose("s.len", sym.Param("val", 2)+1))
	regexCheck(op, p, s)
}

func regexCheck(op, p, s string) {
	n := parse(bin(op, id("s"), text(p)))
	v, err := semantics.Walk(n, rec{"s": s}.eval)
	m, bad := regexp.MatchString(p, s)
	if bad != nil {
		isErr(v, err, "an invalid pattern is not reported")
	} else {
		isBool(v, err, m == (op == "REQ"), "a regular expression is searched for in the value")
	}
	n.Free()
}

// ---- C25: arrays

// element is an array element of a few classes.
func element(name string) interface{} {
	switch sym.Choose(name+".class", 6) {
	case 0:
		return sym.Float64(name)
	case 1:
		return sym.Int32(name)
	case 2:
		return sym.Bool(name)
	case 3:
		return ascii(name, 1)
	case 4:
		return nil
	}
	return pick(name+".date", "2020-01-02")
}

func arrField(name string, max int) []interface{} {
	a := []interface{}{}
	for i := sym.Choose(name+".n", max+1); i > 0; i-- {
		a = append(a, element(fmt.Sprintf("%s%d", name, i)))
	}
	return a
}

func H_C25_unary() {
	op := pick("op", "K_LEN", "K_ANY", "K_ALL", "K_SUM", "K_NOT", "UMINUS")
	if sym.Choose("scalar", 2) == 1 {
		r := rec{}
		meaning(un(op, anyOperand("x", r)), r)
		return
	}
	meaning(un(op, id("a")), rec{"a": arrField("a", sym.Param("n", 3))})
}

var liftOps = []string{"EQ", "NE", "LT", "GE", "PLUS", "MINUS", "SLASH", "PERCENT", "K_AND", "K_OR", "K_LIKE", "K_IS"}

func H_C25_binary() {
	op := pick("op", liftOps...)
	r := rec{"a": arrField("a", sym.Param("n", 2))}
	var b *E
	switch sym.Choose("b", 5) {
	case 0:
		f := sym.Float64("f")
		sym.Assume(f == f)
		b = num(f)
	case 1:
		b = text(pick("s", "%", "x"))
	case 2:
		b = boo(true)
	case 3:
		sym.Assume(op != "K_LIKE") // whether a date's text is a pattern is not said
		b = date("2020-01-02")
	case 4:
		b = arr(num(1), num(2))
	}
	if op == "K_IS" {
		meaning(isNull(id("a")), r)
		return
	}
	meaning(bin(op, id("a"), b), r)
}

func H_C25_aggregate() {
	op := pick("op", "K_ANY", "K_ALL")
	cmp := pick("cmp", "EQ", "NE", "GT", "LE")
	n := sym.Choose("n", sym.Param("n", 3)+1)
	a := []interface{}{}
	for i := 0; i < n; i++ {
		a = append(a, sym.Float64(fmt.Sprintf("a%d", i)))
	}
	f := sym.Float64("f")
	sym.Assume(f == f)
	switch sym.Choose("shape", 4) {
	case 0:
		meaning(un(op, bin(cmp, id("a"), num(f))), rec{"a": a})
	case 1:
		meaning(bin(cmp, un("K_SUM", id("a")), num(f)), rec{"a": a})
	case 2:
		meaning(bin(cmp, un("K_LEN", id("a")), num(f)), rec{"a": a})
	case 3:
		meaning(un(op, bin("K_IN", id("a"), arr(num(f), num(1)))), rec{"a": a})
	}
}

func H_C25_nested() {
	a := []interface{}{arrField("p", 2), arrField("q", 1)}
	op := pick("op", "K_LEN", "K_SUM", "K_ANY", "K_ALL", "K_NOT", "EQ", "PLUS", "K_IN", "lit")
	switch op {
	case "EQ", "PLUS":
		meaning(bin(op, id("a"), num(2)), rec{"a": a})
	case "K_IN":
		meaning(bin(op, id("a"), arr(num(2), boo(true))), rec{"a": a})
	case "lit":
		meaning(un("K_LEN", arr(id("a"), num(2), un("UMINUS", num(3)))), rec{"a": a})
	default:
		meaning(un(op, id("a")), rec{"a": a})
	}
}

// ---- C26: totality, determinism, reading only

type odd struct{ A []int }

// oddVal is a record value of any kind at all.
func oddVal(name string) interface{} {
	switch sym.Choose(name+".kind", 13) {
	case 0:
		return sym.Float64(name)
	case 1:
		return sym.Uint8(name)
	case 2:
		return ascii(name, 1)
	case 3:
		return sym.Bool(name)
	case 4:
		return time.Unix(int64(sym.Int32(name)), 0).UTC()
	case 5:
		return nil
	case 6:
		return []interface{}{sym.Float64(name), "x", nil, 7, "2020-01-02", []interface{}{uint8(3)}}
	case 7:
		return map[string]interface{}{"k": 1}
	case 8:
		return []string{"x"}
	case 9:
		return odd{}
	case 10:
		return &odd{}
	case 11:
		return func() {}
	}
	return complex(1, 2)
}

var allBin = []string{"EQ", "NE", "LT", "LE", "GT", "GE", "REQ", "RNE", "K_LIKE", "K_ILIKE", "K_AND", "K_OR", "K_IN", "K_BETWEEN", "K_IS",
	"PLUS", "MINUS", "STAR", "SLASH", "PERCENT"}
var allUn = []string{"K_NOT", "K_LEN", "K_ANY", "K_ALL", "K_SUM", "UMINUS"}

type logged struct {
	r    rec
	keys []string
}

func (l *logged) eval(k string) (interface{}, bool) {
	l.keys = append(l.keys, k)
	v, ok := l.r[k]
	return v, ok
}

// total runs the walker twice and checks everything but the value.
func total(e *E, r rec) {
	before := rec{}
	for k, v := range r {
		before[k] = copyVal(v)
	}
	n := parse(e)
	l := &logged{r: r}
	v, err := semantics.Walk(n, l.eval)
	v2, err2 := semantics.Walk(n, r.eval)
	sym.Assert((err == nil) == (err2 == nil), "two evaluations disagree on an error")
	if err == nil {
		sameVal(v2, v, "second evaluation")
	} else {
		sym.Assert(err.Error() != "" && err.Error() == err2.Error(), "two evaluations disagree on the error")
	}
	m := map[string]bool{}
	names(e, m)
	missing := ""
	for _, k := range l.keys {
		sym.Assert(m[k], "a name the tree does not have is looked up: "+k)
		if _, ok := r[k]; !ok {
			missing = k
		}
	}
	if missing != "" {
		k, ok := err.(tsl.KeyNotFoundError)
		sym.Assert(ok && k.Key == missing, "a missing field is not reported by its name")
	} else {
		_, ok := err.(tsl.KeyNotFoundError)
		sym.Assert(!ok, "a key-not-found error though every field is there")
	}
	sym.Assert(len(r) == len(before), "the record has other fields than before")
	for k, v := range before {
		sameRaw(r[k], v, "field "+k)
	}
	sameTree(n, e, "tree after evaluation")
	n.Free()
}

func oddOperand(name string, r rec) *E {
	switch sym.Choose(name+".form", 7) {
	case 0:
		return num(2)
	case 1:
		return text(pick(name+".s", "[", "x"))
	case 2:
		return arr(num(1), id(name))
	case 3:
		return date("2020-01-02")
	case 4:
		return id("missing." + name)
	case 5:
		return boo(false)
	}
	k := name + ".x[0]/y"
	r[k] = oddVal(name)
	return id(k)
}

func H_C26_binary() {
	op := pick("op", allBin...)
	r := rec{}
	a := oddOperand("a", r)
	switch op {
	case "K_IS":
		total(isNull(a), r)
	case "K_BETWEEN":
		total(between(a, oddOperand("b", r), num(3)), r)
	default:
		total(bin(op, a, oddOperand("b", r)), r)
	}
}

func H_C26_unary() {
	op := pick("op", allUn...)
	r := rec{}
	total(un(op, oddOperand("a", r)), r)
}

// two operators over values of the main classes
func H_C26_nested() {
	r := rec{"n": sym.Float64("n"), "s": ascii("s", 1), "b": sym.Bool("b"), "z": nil, "l": []interface{}{sym.Float64("l0"), true}, "m": map[string]interface{}{}}
	leaf := func(name string) *E { return id(pick(name, "n", "s", "b", "z", "l", "m", "nope")) }
	o1 := pick("op1", append(append([]string{}, allUn...), "EQ", "LT", "K_LIKE", "K_AND", "K_IN", "PLUS")...)
	var e *E
	switch o1 {
	case "EQ", "LT", "K_LIKE", "K_AND", "K_IN", "PLUS":
		e = bin(o1, leaf("x"), leaf("y"))
	default:
		e = un(o1, leaf("x"))
	}
	o2 := pick("op2", append(append([]string{}, allUn...), "EQ", "GE", "K_OR", "MINUS", "right")...)
	switch o2 {
	case "EQ", "GE", "K_OR", "MINUS":
		e = bin(o2, e, leaf("w"))
	case "right":
		e = bin("K_OR", leaf("w"), e)
	default:
		e = un(o2, e)
	}
	total(e, r)
}
