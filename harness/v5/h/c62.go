package h

import (
	"fmt"
	"regexp"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
)

// ---- trees

func id(s string) tsl.Node     { return tsl.Node{Func: tsl.IdentOp, Left: s} }
func str(s string) tsl.Node    { return tsl.Node{Func: tsl.StringOp, Left: s} }
func num(f float64) tsl.Node   { return tsl.Node{Func: tsl.NumberOp, Left: f} }
func boo(b bool) tsl.Node      { return tsl.Node{Func: booleanOp, Left: b} }
func day(t time.Time) tsl.Node { return tsl.Node{Func: dateOp, Left: t} }
func list(n ...tsl.Node) tsl.Node {
	return tsl.Node{Func: tsl.ArrayOp, Right: append([]tsl.Node{}, n...)}
}
func op1(f string, a tsl.Node) tsl.Node    { return tsl.Node{Func: f, Left: a} }
func op2(f string, a, b tsl.Node) tsl.Node { return tsl.Node{Func: f, Left: a, Right: b} }

// copyTree shares nothing with n.
func copyTree(n tsl.Node) tsl.Node {
	if l, ok := n.Left.(tsl.Node); ok {
		n.Left = copyTree(l)
	}
	switch r := n.Right.(type) {
	case tsl.Node:
		n.Right = copyTree(r)
	case []tsl.Node:
		c := []tsl.Node{}
		for _, x := range r {
			c = append(c, copyTree(x))
		}
		n.Right = c
	}
	return n
}

func identsOf(n tsl.Node, to map[string]bool) {
	if n.Func == tsl.IdentOp {
		to[n.Left.(string)] = true
		return
	}
	for _, x := range []interface{}{n.Left, n.Right} {
		switch u := x.(type) {
		case tsl.Node:
			identsOf(u, to)
		case []tsl.Node:
			for _, y := range u {
				identsOf(y, to)
			}
		}
	}
}

// ---- records

type rec map[string]interface{}

const numTypes = 8

func numVal(name string, k int) interface{} {
	switch k {
	case 0:
		return sym.Float64(name)
	case 1:
		return sym.Float32(name)
	case 2:
		return sym.Int(name)
	case 3:
		return sym.Int32(name)
	case 4:
		return sym.Int64(name)
	case 5:
		return sym.Uint(name)
	case 6:
		return sym.Uint32(name)
	}
	return sym.Uint64(name)
}

func instantVal(name string) time.Time {
	s := sym.Int64(name)
	sym.Assume(sym.And(s >= -60000000000, s <= 250000000000))
	return time.Unix(s, 0).UTC()
}

type odd struct{ x int }

const (
	cNum = iota
	cStr
	cBool
	cNil
	cDate
	cList
	cOdd
	classes
)

// fieldVal is a record value of one of the classes in set.
func fieldVal(name string, set ...int) interface{} {
	switch set[sym.Choose(name+".class", len(set))] {
	case cNum:
		return numVal(name, sym.Choose(name+".num", numTypes))
	case cStr:
		return ascii(name, sym.Choose(name+".len", sym.Param("strlen", 2)+1))
	case cBool:
		return sym.Bool(name)
	case cNil:
		return nil
	case cDate:
		return instantVal(name)
	case cList:
		l := []string{}
		for i := sym.Choose(name+".n", sym.Param("elems", 2)+1); i > 0; i-- {
			l = append(l, ascii(fmt.Sprintf("%s%d", name, i), 1))
		}
		return l
	}
	switch sym.Choose(name+".odd", 4) {
	case 0:
		return odd{1}
	case 1:
		return []int{1}
	case 2:
		return map[string]int{"a": 1}
	}
	return int8(3)
}

var allClasses = []int{cNum, cStr, cBool, cNil, cDate, cList, cOdd}

// ---- the documented meaning, written without a look at the walker

type bad struct{} // the value of what is an error

// norm is a record value as the language sees it.
func norm(v interface{}) interface{} {
	switch u := v.(type) {
	case nil, string, float64:
		return u
	case bool:
		if v5 {
			return u
		}
		// v4 has no Booleans: a record's Boolean is its name
		if sym.Fork(u) {
			return "true"
		}
		return "false"
	case time.Time:
		if v5 {
			return u
		}
		return bad{}
	case []string:
		if v5 {
			return u
		}
		return bad{}
	case float32:
		return float64(u)
	case int:
		return float64(u)
	case int32:
		return float64(u)
	case int64:
		return float64(u)
	case uint:
		return float64(u)
	case uint32:
		return float64(u)
	case uint64:
		return float64(u)
	}
	return bad{}
}

func isMath(f string) bool {
	switch f {
	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
		return true
	}
	return false
}

// operand is the value of an operand.
func operand(n tsl.Node, r rec) interface{} {
	switch {
	case n.Func == tsl.IdentOp:
		return norm(r[n.Left.(string)])
	case isMath(n.Func):
		if !v5 {
			return bad{}
		}
		a, b := operand(n.Left.(tsl.Node), r), operand(n.Right.(tsl.Node), r)
		if a == (bad{}) || b == (bad{}) {
			return bad{}
		}
		if a == nil || b == nil {
			return nil
		}
		x, ok := a.(float64)
		y, ok2 := b.(float64)
		if !ok || !ok2 {
			return bad{}
		}
		switch n.Func {
		case tsl.AddOp:
			return x + y
		case tsl.SubtractOp:
			return x - y
		case tsl.MultiplyOp:
			return x * y
		case tsl.DivideOp:
			return x / y
		}
		return bad{} // there is no modulo
	}
	return n.Left
}

func less(a, b string) bool {
	r := len(a) < len(b)
	m := len(a)
	if len(b) < m {
		m = len(b)
	}
	for i := m - 1; i >= 0; i-- {
		r = sym.Or(a[i] < b[i], sym.And(a[i] == b[i], r))
	}
	return r
}

// order gives the truth of a comparison from "less" and "equal".
func order(f string, lt, eq bool) (bool, bool) {
	switch f {
	case tsl.EqOp:
		return eq, true
	case tsl.NotEqOp:
		return sym.Not(eq), true
	case tsl.LtOp:
		return lt, true
	case tsl.LteOp:
		return sym.Or(lt, eq), true
	case tsl.GtOp:
		return sym.Not(sym.Or(lt, eq)), true
	case tsl.GteOp:
		return sym.Not(lt), true
	}
	return false, false
}

// compare is the meaning of a binary comparison; ok is false for an error.
func compare(f string, a, b interface{}) (res, ok bool) {
	if a == nil || b == nil {
		return false, true
	}
	switch x := a.(type) {
	case float64:
		y, is := b.(float64)
		if !is {
			return false, false
		}
		switch f {
		case tsl.EqOp:
			return x == y, true
		case tsl.NotEqOp:
			return x != y, true
		case tsl.LtOp:
			return x < y, true
		case tsl.LteOp:
			return x <= y, true
		case tsl.GtOp:
			return x > y, true
		case tsl.GteOp:
			return x >= y, true
		}
	case time.Time:
		y, is := b.(time.Time)
		if !is {
			return false, false
		}
		return order(f, x.Before(y), x.Equal(y))
	case bool:
		var y bool
		switch u := b.(type) {
		case bool:
			y = u
		case float64:
			y = u != 0
		case string:
			y = false
			if len(u) == 1 || len(u) == 4 {
				y = sym.Or(u[0] == 't', u[0] == 'T')
			}
		default:
			return false, false
		}
		if f == tsl.EqOp || f == tsl.NotEqOp {
			return (x == y) == (f == tsl.EqOp), true
		}
	case string:
		y, is := b.(string)
		if !is {
			return false, false
		}
		switch f {
		case tsl.LikeOp, tsl.ILikeOp:
			return likeMatch(y, x, f == tsl.ILikeOp), true
		case tsl.RegexOp, tsl.NotRegexOp:
			m, err := regexp.MatchString(y, x)
			return m == (f == tsl.RegexOp), err == nil
		}
		return order(f, less(x, y), sym.EqStr(x, y))
	}
	return false, false
}

// likeMatch matches ASCII text.
func likeMatch(p, s string, fold bool) bool {
	ok := make([]bool, len(s)+1)
	ok[0] = true
	for i := 0; i < len(p); i++ {
		next := make([]bool, len(s)+1)
		any := false
		for j := 0; j <= len(s); j++ {
			any = sym.Or(any, ok[j])
			one := false
			if j > 0 {
				same := p[i] == s[j-1]
				if fold {
					same = sym.Or(same, lower(p[i]) == lower(s[j-1]))
				}
				one = sym.And(ok[j-1], sym.Or(p[i] == '_', same))
			}
			next[j] = sym.Ite(p[i] == '%', any, one)
		}
		ok = next
	}
	return ok[len(s)]
}

func lower(c byte) byte {
	return sym.Ite(sym.And(c >= 'A', c <= 'Z'), c+32, c)
}

// spec is the meaning of a tree; ok is false for an error.
func spec(n tsl.Node, r rec) (res, ok bool) {
	switch n.Func {
	case tsl.AndOp, tsl.OrOp:
		a, aok := spec(n.Left.(tsl.Node), r)
		b, bok := spec(n.Right.(tsl.Node), r)
		if n.Func == tsl.AndOp {
			return sym.And(a, b), aok && bok
		}
		return sym.Or(a, b), aok && bok
	case tsl.NotOp:
		a, aok := spec(n.Left.(tsl.Node), r)
		return sym.Not(a), aok
	}
	a := operand(n.Left.(tsl.Node), r)
	if a == (interface{}(bad{})) {
		return false, false
	}
	switch n.Func {
	case tsl.IsNilOp:
		return a == nil, true
	case tsl.IsNotNilOp:
		return a != nil, true
	case tsl.InOp, tsl.NotInOp, tsl.BetweenOp, tsl.NotBetweenOp:
		return specList(n.Func, a, n.Right.(tsl.Node).Right.([]tsl.Node))
	}
	right := n.Right.(tsl.Node)
	b := operand(right, r)
	if _, is := b.([]string); is || b == (interface{}(bad{})) {
		return false, false
	}
	return compare(n.Func, a, b)
}

func specList(f string, a interface{}, items []tsl.Node) (res, ok bool) {
	if a == nil {
		return false, true
	}
	_, isBool := a.(bool)
	if isBool {
		return false, false
	}
	in := f == tsl.InOp || f == tsl.NotInOp
	texts, isList := a.([]string)
	if isList && !in {
		return false, false
	}
	// every item is of the field's type
	for _, it := range items {
		switch a.(type) {
		case float64:
			_, ok = it.Left.(float64)
		case time.Time:
			_, ok = it.Left.(time.Time)
		default:
			_, ok = it.Left.(string)
		}
		if !ok {
			return false, false
		}
	}
	if in {
		any := false
		for _, it := range items {
			if isList {
				for _, t := range texts {
					any = sym.Or(any, sym.EqStr(t, it.Left.(string)))
				}
				continue
			}
			eq, _ := compare(tsl.EqOp, a, it.Left)
			any = sym.Or(any, eq)
		}
		return any == (f == tsl.InOp), true
	}
	if f == tsl.BetweenOp {
		lo, _ := compare(tsl.GteOp, a, items[0].Left)
		hi, _ := compare(tsl.LteOp, a, items[1].Left)
		return sym.And(lo, hi), true
	}
	lo, _ := compare(tsl.LtOp, a, items[0].Left)
	hi, _ := compare(tsl.GtOp, a, items[1].Left)
	return sym.Or(lo, hi), true
}

// meaning checks the walker against the documented meaning of n.
func meaning(n tsl.Node, r rec) {
	keep := copyTree(n)
	names := map[string]bool{}
	identsOf(n, names)
	v, err := semantics.Walk(n, func(k string) (interface{}, bool) {
		sym.Assert(names[k], "a field is looked up that the tree does not name")
		x, ok := r[k]
		return x, ok
	})
	want, ok := spec(keep, r)
	sym.Observe("error", err != nil)
	if !ok {
		sym.Assert(err != nil, "an expression without a meaning gives a result")
		sym.Assert(err.Error() != "", "an error without text")
	} else {
		sym.Assert(err == nil, "an expression with a meaning gives an error")
		sym.Observe("result", v)
		sym.Assert(v == want, "the result differs from the documented meaning")
	}
	sameTree(keep, n, "the tree after evaluation")
}

var compareFuncs = []string{tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp}
var patternFuncs = []string{tsl.LikeOp, tsl.ILikeOp, tsl.RegexOp, tsl.NotRegexOp}
var mathFuncs = []string{tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp}

// lit is a literal of any kind.
func lit(name string) tsl.Node {
	kinds := 2
	if v5 {
		kinds = 4
	}
	switch sym.Choose(name+".lit", kinds) {
	case 0:
		return num(sym.Float64(name))
	case 1:
		return str(ascii(name, sym.Choose(name+".len", sym.Param("strlen", 2)+1)))
	case 2:
		return boo(sym.Bool(name))
	}
	return day(instantVal(name))
}

// H_C62_literal compares a field of any type with a literal.
func H_C62_literal() {
	f := compareFuncs[sym.Choose("op", len(compareFuncs))]
	r := rec{"a": fieldVal("a", allClasses...)}
	meaning(op2(f, id("a"), lit("b")), r)
}

// H_C62_fields compares two fields of any type.
func H_C62_fields() {
	if !v5 { // fields are on the left only
		return
	}
	f := compareFuncs[sym.Choose("op", len(compareFuncs))]
	r := rec{"a": fieldVal("a", allClasses...), "b": fieldVal("b", allClasses...)}
	meaning(op2(f, id("a"), id("b")), r)
}

// H_C62_missing compares with fields the record does not have.
func H_C62_missing() {
	f := append(compareFuncs, patternFuncs...)[sym.Choose("op", len(compareFuncs)+len(patternFuncs))]
	r := rec{"b": str("x").Left}
	n := op2(f, id("a"), lit("b"))
	if v5 && sym.Choose("side", 2) == 1 {
		n = op2(f, id("b"), id("a"))
	}
	if sym.Choose("not", 2) == 1 {
		n = op1(tsl.NotOp, n)
	}
	meaning(n, r)
}

// H_C62_strings orders longer texts of any bytes.
func H_C62_strings() {
	f := compareFuncs[sym.Choose("op", len(compareFuncs))]
	k := sym.Param("len", 4)
	a, b := sym.Str("a", sym.Choose("alen", k+1)), sym.Str("b", sym.Choose("blen", k+1))
	meaning(op2(f, id("a"), str(b)), rec{"a": a})
}

// H_C62_patterns: patterns on operands of any type.
func H_C62_patterns() {
	f := patternFuncs[sym.Choose("op", len(patternFuncs))]
	p := pick("p", "a%", "x")
	r := rec{"a": fieldVal("a", allClasses...)}
	n := op2(f, id("a"), str(p))
	if sym.Choose("not", 2) == 1 {
		n = op1(tsl.NotOp, n)
	}
	meaning(n, r)
}

func H_C62_like() {
	f := pick("op", tsl.LikeOp, tsl.ILikeOp)
	p := ascii("p", sym.Choose("p.len", sym.Param("pat", 3)+1))
	s := ascii("s", sym.Choose("s.len", sym.Param("val", 3)+1))
	meaning(op2(f, id("s"), str(p)), rec{"s": s})
}

// oneOf keeps the bytes of s to those of set.
func oneOf(s, set string) string {
	for i := 0; i < len(s); i++ {
		ok := false
		for j := 0; j < len(set); j++ {
			ok = sym.Or(ok, s[i] == set[j])
		}
		sym.Assume(ok)
	}
	return s
}

// longer texts over the characters that matter to patterns
func H_C62_wild() {
	f := pick("op", tsl.LikeOp, tsl.ILikeOp)
	p := oneOf(sym.Str("p", sym.Param("pat", 4)), "%_aA.\\")
	s := oneOf(sym.Str("s", sym.Param("val", 3)), "aA.%_\n")
	meaning(op2(f, id("s"), str(p)), rec{"s": s})
}

// the pattern of a field
func H_C62_field_pattern() {
	if !v5 {
		return
	}
	f := pick("op", tsl.LikeOp, tsl.ILikeOp)
	p := oneOf(sym.Str("p", sym.Choose("p.len", 3)), "%_aA[")
	s := oneOf(sym.Str("s", sym.Choose("s.len", 3)), "aA[%_\n")
	meaning(op2(f, id("s"), id("p")), rec{"s": s, "p": p})
}

// characters outside ASCII count as one
func H_C62_utf() {
	p := pick("p", "é", "_", "%", "_b", "%é", "é%", "__", "[é]", "É")
	s := pick("s", "é", "ab", "éb", "", "日", "bé", "日本")
	f := pick("op", tsl.LikeOp, tsl.ILikeOp)
	v, err := semantics.Walk(op2(f, id("s"), str(p)), func(string) (interface{}, bool) { return s, true })
	sym.Assert(err == nil, "a pattern is an error")
	sym.Assert(v == likeRunes([]rune(p), []rune(s), f == tsl.ILikeOp), "LIKE counts characters")
}

func likeRunes(p, s []rune, fold bool) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	if p[0] == '%' {
		for i := 0; i <= len(s); i++ {
			if likeRunes(p[1:], s[i:], fold) {
				return true
			}
		}
		return false
	}
	if len(s) == 0 {
		return false
	}
	same := p[0] == s[0] || fold && (p[0] == 'É' && s[0] == 'é' || p[0] == 'é' && s[0] == 'É')
	return (p[0] == '_' || same) && likeRunes(p[1:], s[1:], fold)
}

func H_C62_regex() {
	f := pick("op", tsl.RegexOp, tsl.NotRegexOp)
	p := pick("p", "^a.c$", "b+", "(a|bc)d*", "[a-c]x", "", "a{2}", "\\d", "(?i)ab", "\\bq", "(", "[", "a**", "x{1001}", "\\")
	s := ascii("s", sym.Choose("s.len", sym.Param("val", 3)+1))
	meaning(op2(f, id("s"), str(p)), rec{"s": s})
}

// Booleans against texts and numbers
func H_C62_bool() {
	if !v5 {
		return
	}
	f := compareFuncs[sym.Choose("op", len(compareFuncs))]
	var b tsl.Node
	switch sym.Choose("right", 3) {
	case 0:
		b = str(ascii("b", sym.Choose("len", sym.Param("len", 6)+1)))
	case 1:
		b = num(sym.Float64("b"))
	case 2:
		b = boo(sym.Bool("b"))
	}
	meaning(op2(f, id("a"), b), rec{"a": sym.Bool("a")})
}

// ---- arithmetic

// leafOperand is a field or a literal, fields of the classes in set.
func leafOperand(name string, r rec, set ...int) tsl.Node {
	switch sym.Choose(name+".leaf", 2) {
	case 0:
		return num(sym.Float64(name))
	}
	r[name] = fieldVal(name, set...)
	return id(name)
}

// H_C62_math: one operation over operands of every type, on the left or on the right.
func H_C62_math() {
	r := rec{}
	r["a"] = fieldVal("a", allClasses...)
	var y tsl.Node
	switch sym.Choose("y", 3) {
	case 0:
		y = lit("b")
	case 1:
		r["b"] = fieldVal("b", cNum, cNil, cStr, cList, cOdd)
		y = id("b")
	case 2:
		y = boo(true)
		if !v5 {
			y = num(1)
		}
	}
	m := op2(mathFuncs[sym.Choose("mop", len(mathFuncs))], id("a"), y)
	f := pick("op", tsl.EqOp, tsl.LtOp, tsl.GteOp)
	if v5 && sym.Choose("side", 2) == 1 {
		r["c"] = 1.5
		meaning(op2(f, id("c"), m), r)
		return
	}
	meaning(op2(f, m, num(1.5)), r)
}

// H_C62_nested: two operations on either side.
func H_C62_nested() {
	if !v5 {
		return
	}
	r := rec{"a": 6.0}
	k := sym.Choose("kind", 3)
	switch k {
	case 0:
		r["b"] = sym.Float64("b")
	case 1:
		r["b"] = nil
	case 2:
		r["b"] = "text"
	}
	m1 := mathFuncs[sym.Choose("m1", len(mathFuncs))]
	m2 := mathFuncs[sym.Choose("m2", len(mathFuncs))]
	var m tsl.Node
	switch sym.Choose("shape", 4) {
	case 0:
		m = op2(m1, op2(m2, id("a"), id("b")), num(7))
	case 1:
		m = op2(m1, id("a"), op2(m2, id("b"), num(7)))
	case 2:
		m = op2(m1, op2(m2, id("b"), num(3)), op2(m2, id("b"), id("a")))
	case 3:
		m = op2(m1, op2(m2, op2(tsl.AddOp, id("b"), num(1)), num(3)), num(7))
	}
	f := pick("op", tsl.EqOp, tsl.NotEqOp, tsl.GtOp)
	switch sym.Choose("side", 3) {
	case 0:
		meaning(op2(f, m, num(9)), r)
	case 1:
		meaning(op2(f, id("a"), m), r)
	case 2:
		meaning(op2(f, op2(tsl.SubtractOp, id("b"), num(1)), m), r)
	}
}

// ---- logic

// cond is a condition of any outcome.
func cond(name string, r rec, depth int) tsl.Node {
	k := 3
	if depth > 0 {
		k = 6
	}
	switch sym.Choose(name+".cond", k) {
	case 0: // true or false
		r[name] = sym.Float64(name)
		return op2(tsl.EqOp, id(name), num(1))
	case 1: // null
		r[name] = nil
		return op2(tsl.NotEqOp, id(name), num(1))
	case 2: // an error
		r[name] = "x"
		return op2(tsl.LtOp, id(name), num(1))
	case 3:
		return op1(tsl.NotOp, cond(name+"n", r, depth-1))
	case 4:
		return op2(tsl.AndOp, cond(name+"l", r, depth-1), cond(name+"r", r, depth-1))
	}
	return op2(tsl.OrOp, cond(name+"l", r, depth-1), cond(name+"r", r, depth-1))
}

func H_C62_logic() {
	r := rec{}
	meaning(cond("a", r, sym.Param("depth", 2)), r)
}

// H_C62_text parses and evaluates.
func H_C62_text() {
	f := sym.Choose("f", 5)
	x, y := number("x"), strLit("y", 1)
	a, b := ident("a"), ident("b")
	var e E
	switch f {
	case 0:
		e = and(cmp(a, ">", x), not(like(b, false, true, y)))
	case 1:
		e = or(in(a, false, x, number("z")), cmp(b, "=", y))
	case 2:
		e = and(between(a, true, x, number("z")), isNull(b, true))
	case 3:
		e = or(paren(and(cmp(a, "<=", x), cmp(b, "!=", y))), not(isNull(b, false)))
	case 4:
		e = and(like(b, true, false, y), in(b, true, y))
	}
	an, bn := a.n.Left.(string), b.n.Left.(string)
	sym.Assume(sym.Not(sym.EqStr(an, bn)))
	av, bv := sym.Float64("av"), ascii("bv", 1)
	r := rec{"a": av, "b": bv}
	if sym.Choose("null", 2) == 1 {
		r["b"] = nil
	}
	v, err := semantics.Walk(parsed(e), func(k string) (interface{}, bool) {
		if sym.Fork(sym.EqStr(k, an)) {
			return r["a"], true
		}
		sym.Assert(sym.EqStr(k, bn), "a field is looked up that the text does not name")
		return r["b"], true
	})
	want, ok := spec(rename(e.n, an, bn), r)
	sym.Assert(err == nil && ok, "a text with a meaning is an error")
	sym.Assert(v == want, "the result differs from the documented meaning of the text")
}

// rename gives the two fields fixed names.
func rename(n tsl.Node, an, bn string) tsl.Node {
	if n.Func == tsl.IdentOp {
		if sym.Fork(sym.EqStr(n.Left.(string), an)) {
			return id("a")
		}
		return id("b")
	}
	if l, ok := n.Left.(tsl.Node); ok {
		n.Left = rename(l, an, bn)
	}
	if r, ok := n.Right.(tsl.Node); ok {
		n.Right = rename(r, an, bn)
	}
	return n
}
