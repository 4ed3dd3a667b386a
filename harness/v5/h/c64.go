package h

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

// ---- a reader of SQL conditions with SQL's precedence

type sqlReader struct {
	toks []string
	pos  int
	args int
	ok   bool
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

// lexSQL splits SQL text; every byte of it must be known.
func lexSQL(s string) (toks []string, ok bool) {
	for i := 0; i < len(s); {
		c := s[i]
		j := i + 1
		switch {
		case c == ' ':
			i++
			continue
		case isLetter(c) || c == '_':
			for j < len(s) && (isLetter(s[j]) || isDigit(s[j]) || strings.IndexByte("_.[]", s[j]) >= 0) {
				j++
			}
		case isDigit(c):
			for j < len(s) && (isDigit(s[j]) || s[j] == '.') {
				j++
			}
			if j < len(s) && s[j] == 'e' {
				j++
				if j < len(s) && (s[j] == '+' || s[j] == '-') {
					j++
				}
				for j < len(s) && isDigit(s[j]) {
					j++
				}
			}
		case c == '\'':
			for j < len(s) && s[j] != '\'' {
				j++
			}
			if j == len(s) {
				return nil, false
			}
			j++
		case (c == '<' || c == '>' || c == '!') && i+1 < len(s) && s[i+1] == '=', c == '<' && i+1 < len(s) && s[i+1] == '>':
			j++
		case strings.IndexByte("()?,=<>+-*/%", c) >= 0:
		default:
			return nil, false
		}
		toks = append(toks, s[i:j])
		i = j
	}
	return toks, true
}

func (r *sqlReader) peek() string {
	if r.ok && r.pos < len(r.toks) {
		return r.toks[r.pos]
	}
	return ""
}
func (r *sqlReader) take(t string) bool {
	if r.peek() == t {
		r.pos++
		return true
	}
	return false
}
func (r *sqlReader) need(t string) {
	if !r.take(t) {
		r.ok = false
	}
}

func (r *sqlReader) or() tsl.Node {
	l := r.and()
	for r.take("OR") {
		l = op2(tsl.OrOp, l, r.and())
	}
	return l
}
func (r *sqlReader) and() tsl.Node {
	l := r.not()
	for r.take("AND") {
		l = op2(tsl.AndOp, l, r.not())
	}
	return l
}
func (r *sqlReader) not() tsl.Node {
	if r.take("NOT") {
		return op1(tsl.NotOp, r.not())
	}
	return r.cmp()
}

var sqlOps = map[string]string{"=": tsl.EqOp, "!=": tsl.NotEqOp, "<>": tsl.NotEqOp, "<": tsl.LtOp, "<=": tsl.LteOp,
	">": tsl.GtOp, ">=": tsl.GteOp, "LIKE": tsl.LikeOp, "ILIKE": tsl.ILikeOp}

// cmp is one comparison: SQL does not chain them.
func (r *sqlReader) cmp() tsl.Node {
	l := r.add()
	if f := sqlOps[r.peek()]; f != "" {
		r.pos++
		return op2(f, l, r.add())
	}
	if r.take("IS") {
		f := tsl.IsNilOp
		if r.take("NOT") {
			f = tsl.IsNotNilOp
		}
		r.need("NULL")
		return op1(f, l)
	}
	not := r.take("NOT")
	switch {
	case r.take("IN"):
		r.need("(")
		items := []tsl.Node{r.add()}
		for r.take(",") {
			items = append(items, r.add())
		}
		r.need(")")
		return op2(ifElse(not, tsl.NotInOp, tsl.InOp), l, list(items...))
	case r.take("BETWEEN"):
		lo := r.add()
		r.need("AND")
		return op2(ifElse(not, tsl.NotBetweenOp, tsl.BetweenOp), l, list(lo, r.add()))
	case not && (r.peek() == "LIKE" || r.peek() == "ILIKE"):
		f := sqlOps[r.peek()]
		r.pos++
		return op1(tsl.NotOp, op2(f, l, r.add()))
	case not:
		r.ok = false
	}
	return l
}

func (r *sqlReader) add() tsl.Node {
	l := r.mul()
	for {
		switch {
		case r.take("+"):
			l = op2(tsl.AddOp, l, r.mul())
		case r.take("-"):
			l = op2(tsl.SubtractOp, l, r.mul())
		default:
			return l
		}
	}
}
func (r *sqlReader) mul() tsl.Node {
	l := r.unary()
	for {
		switch {
		case r.take("*"):
			l = op2(tsl.MultiplyOp, l, r.unary())
		case r.take("/"):
			l = op2(tsl.DivideOp, l, r.unary())
		case r.take("%"):
			l = op2(tsl.ModuloOp, l, r.unary())
		default:
			return l
		}
	}
}

func (r *sqlReader) unary() tsl.Node {
	t := r.peek()
	if t == "" {
		r.ok = false
		return tsl.Node{}
	}
	r.pos++
	switch {
	case t == "(":
		n := r.or()
		r.need(")")
		return n
	case t == "-":
		n := r.unary()
		if n.Func != "text" {
			r.ok = false
			return n
		}
		return tsl.Node{Func: "text", Left: "-" + n.Left.(string)}
	case t == "?":
		r.args++
		return tsl.Node{Func: "?", Left: r.args - 1}
	case isDigit(t[0]) || t[0] == '\'':
		return tsl.Node{Func: "text", Left: t}
	case isLetter(t[0]) || t[0] == '_':
		switch t {
		case "AND", "OR", "NOT", "IN", "IS", "NULL", "LIKE", "ILIKE", "BETWEEN":
			r.ok = false
		}
		return id(t)
	}
	r.ok = false
	return tsl.Node{}
}

// instant reads the text of an instant.
func instant(s string) (time.Time, bool) {
	for _, l := range []string{time.RFC3339, "2006-01-02 15:04:05", "2006-01-02"} {
		if t, err := time.Parse(l, s); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

func intOf(v interface{}) (int, bool) {
	switch u := v.(type) {
	case int:
		return u, true
	case int64:
		return int(u), true
	}
	return 0, false
}

// sameArg compares a bound argument with the literal it stands for.
func sameArg(v interface{}, e tsl.Node, where string) {
	switch e.Func {
	case tsl.NumberOp:
		f, ok := v.(float64)
		sym.Assert(ok, where+": the argument is no number")
		sym.Assert(sym.SameFloat(f, e.Left.(float64)), where+": the argument is another number")
	case tsl.StringOp:
		s, ok := v.(string)
		sym.Assert(ok, where+": the argument is no string")
		sym.Assert(sym.EqStr(s, e.Left.(string)), where+": the argument is another string")
	case booleanOp:
		i, ok := intOf(v)
		sym.Assert(ok && (i == 1) == e.Left.(bool) && (i == 0) == !e.Left.(bool), where+": the argument is not the Boolean as 1 or 0")
	case dateOp:
		s, ok := v.(string)
		sym.Assert(ok, where+": the argument is no text of a date")
		t, ok := instant(s)
		sym.Assert(ok && t.Equal(e.Left.(time.Time)), where+": the argument is another instant")
	default:
		sym.Fail(where + ": an argument is bound where the tree has " + e.Func)
	}
}

// sameText compares a literal in the text, an operand of arithmetic.
func sameText(s string, e tsl.Node, where string) {
	switch e.Func {
	case tsl.NumberOp:
		f, err := strconv.ParseFloat(s, 64)
		sym.Assert(err == nil && sym.SameFloat(f, e.Left.(float64)), where+": another number in the text")
	case booleanOp:
		sym.Assert(s == ifElse(e.Left.(bool), "1", "0"), where+": the text is not the Boolean as 1 or 0")
	case dateOp:
		sym.Assert(len(s) > 2 && s[0] == '\'', where+": a date without quotes")
		t, ok := instant(s[1 : len(s)-1])
		sym.Assert(ok && t.Equal(e.Left.(time.Time)), where+": another instant in the text")
	default:
		sym.Fail(where + ": a literal is in the text where the tree has " + e.Func)
	}
}

// sameSQL compares what SQL reads with the tree; inMath is below arithmetic.
func sameSQL(g, e tsl.Node, args []interface{}, inMath bool, where string) {
	switch g.Func {
	case "?":
		i := g.Left.(int)
		sym.Assert(i < len(args), where+": a placeholder has no argument")
		sameArg(args[i], e, where)
		return
	case "text":
		sym.Assert(inMath, where+": a literal of a comparison is written into the text")
		sameText(g.Left.(string), e, where)
		return
	}
	if r, ok := e.Right.(tsl.Node); ok && r.Func == tsl.ArrayOp && len(r.Right.([]tsl.Node)) == 0 {
		// no list of SQL is empty: 1=0 is never true and 1=1 always
		k, ok := emptyTest(g)
		sym.Assert(ok, where+": an empty list is no constant test")
		sym.Assert(k == (e.Func == tsl.NotInOp), where+": an empty list holds something")
		return
	}
	sym.Assert(g.Func == e.Func, where+": SQL reads "+g.Func+" where the tree has "+e.Func)
	if e.Func == tsl.IdentOp {
		sym.Assert(g.Left == e.Left, where+": another identifier")
		return
	}
	m := isMath(e.Func)
	if l, ok := e.Left.(tsl.Node); ok {
		sameSQL(g.Left.(tsl.Node), l, args, m, where+".left")
	}
	switch r := e.Right.(type) {
	case tsl.Node:
		gr, ok := g.Right.(tsl.Node)
		sym.Assert(ok, where+": an operand is missing")
		sameSQL(gr, r, args, m, where+".right")
	case []tsl.Node:
		gr, ok := g.Right.([]tsl.Node)
		sym.Assert(ok && len(gr) == len(r), where+": another number of items")
		for i := range r {
			sameSQL(gr[i], r[i], args, m, fmt.Sprintf("%s.%d", where, i))
		}
	}
}

// emptyTest reads a comparison of two numerals for equality.
func emptyTest(g tsl.Node) (value, ok bool) {
	if g.Func != tsl.EqOp && g.Func != tsl.NotEqOp {
		return false, false
	}
	l, r := g.Left.(tsl.Node), g.Right.(tsl.Node)
	if l.Func != "text" || r.Func != "text" {
		return false, false
	}
	a, err1 := strconv.ParseFloat(l.Left.(string), 64)
	b, err2 := strconv.ParseFloat(r.Left.(string), 64)
	return (a == b) == (g.Func == tsl.EqOp), err1 == nil && err2 == nil
}

func isColumn(n tsl.Node) bool { return n.Func == tsl.IdentOp || isMath(n.Func) }

// sqlForm tells whether there is an SQL form.
func sqlForm(n tsl.Node) bool {
	switch n.Func {
	case tsl.RegexOp, tsl.NotRegexOp:
		return false
	case tsl.AndOp, tsl.OrOp:
		return sqlForm(n.Left.(tsl.Node)) && sqlForm(n.Right.(tsl.Node))
	case tsl.NotOp:
		return sqlForm(n.Left.(tsl.Node))
	}
	return true
}

// mayRefuse: a pattern that is no literal may be refused.
func mayRefuse(n tsl.Node) bool {
	switch n.Func {
	case tsl.LikeOp, tsl.ILikeOp:
		return isColumn(n.Right.(tsl.Node))
	case tsl.AndOp, tsl.OrOp:
		return mayRefuse(n.Left.(tsl.Node)) || mayRefuse(n.Right.(tsl.Node))
	case tsl.NotOp:
		return mayRefuse(n.Left.(tsl.Node))
	}
	return false
}

func sqlCheck(n tsl.Node) {
	keep := copyTree(n)
	s, err := sql.Walk(n)
	sameTree(keep, n, "the tree after conversion")
	sym.Observe("error", err != nil)
	if !sqlForm(n) {
		sym.Assert(err != nil && err.Error() != "", "an operator without SQL form is converted")
		return
	}
	if err != nil && mayRefuse(n) {
		return
	}
	sym.Assert(err == nil && s != nil, "a filter with an SQL form is refused")
	text, args, err := s.ToSql()
	sym.Assert(err == nil, "the SQL is not rendered")
	sym.Observe("sql", text)
	sqlText(text, args, keep)
	// rendering again gives the same
	text2, args2, err := s.ToSql()
	sym.Assert(err == nil && text == text2 && len(args) == len(args2), "a second rendering differs")
}

// sqlText checks a condition and its arguments against the tree.
func sqlText(text string, args []interface{}, keep tsl.Node) {
	toks, ok := lexSQL(text)
	sym.Assert(ok, "the SQL text has characters of no identifier, number or operator")
	r := &sqlReader{toks: toks, ok: true}
	g := r.or()
	sym.Assert(r.ok && r.pos == len(toks), "the SQL text is no condition")
	sym.Assert(r.args == len(args), "placeholders and arguments differ in number")
	sameSQL(g, keep, args, false, "sql")
}

func H_C64_compare() {
	g := &gen{free: true}
	sqlCheck(g.cond("c", 0, sym.Param("depth", 0)))
}

func H_C64_math() {
	g := &gen{lits: 1}
	n := op2(pick("op", tsl.EqOp, tsl.LtOp), g.math("l", sym.Param("depth", 1)), num(1))
	if v5 && sym.Choose("side", 2) == 1 {
		n = op2(n.Func, id("z"), n.Left.(tsl.Node))
	}
	sqlCheck(n)
}

func H_C64_other() {
	g := &gen{free: true}
	sqlCheck(g.cond("c", 1+sym.Choose("kind", kindsOfCond-2), 0))
}

func H_C64_not() {
	g := &gen{free: true, lits: 2}
	sqlCheck(g.cond("c", kindsOfCond-1, 0))
}

func H_C64_logic() {
	g := &gen{}
	sqlCheck(g.logic("l", sym.Param("depth", 2)))
}

func H_C64_chain() {
	g := &gen{}
	sqlCheck(g.chain())
}

// any two conditions under one operator, the arguments of the first come first
func H_C64_pair() {
	g := &gen{free: true, lits: sym.Param("lits", 2), plain: true}
	f := pick("f", tsl.AndOp, tsl.OrOp)
	a := g.cond("a", sym.Choose("ka", kindsOfCond-1), 0)
	b := g.cond("b", 3+sym.Choose("kb", 2), 0)
	if sym.Choose("swap", 2) == 1 {
		a, b = b, a
	}
	sqlCheck(op2(f, a, b))
}

// literals of any content
func H_C64_text() {
	s := sym.Str("s", sym.Choose("len", sym.Param("len", 6)+1))
	f := append(compareFuncs, tsl.LikeOp, tsl.ILikeOp)[sym.Choose("op", len(compareFuncs)+2)]
	sqlCheck(op2(f, id("a"), str(s)))
}

// an identifier is in the text as it is written
func H_C64_names() {
	a := name("a")
	f := pick("op", tsl.EqOp, tsl.LikeOp, tsl.InOp, tsl.BetweenOp, tsl.IsNilOp)
	n := op2(f, id(a), str("x"))
	want := ""
	switch f {
	case tsl.EqOp:
		want = " = ?"
	case tsl.LikeOp:
		want = " LIKE ?"
	case tsl.InOp:
		n.Right = list(str("x"), str("y"))
		want = " IN (?,?)"
	case tsl.BetweenOp:
		n.Right = list(str("x"), str("y"))
		want = " BETWEEN ? AND ?"
	case tsl.IsNilOp:
		n.Right = nil
		want = " IS NULL"
	}
	s, err := sql.Walk(n)
	sym.Assert(err == nil, "a filter with an SQL form is refused")
	text, _, err := s.ToSql()
	sym.Assert(err == nil, "the SQL is not rendered")
	sym.Assert(len(text) >= len(a) && sym.EqStr(text[:len(a)], a), "an identifier is changed")
	sym.Assert(strings.Replace(text[len(a):], " ", "", -1) == strings.Replace(want, " ", "", -1), "the text after the identifier differs")
}

// longer lists
func H_C64_list() {
	sqlCheck(op2(pick("op", tsl.InOp, tsl.NotInOp), id("a"), longList(sym.Param("list", 6))))
}
