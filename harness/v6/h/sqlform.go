package h

import (
	"fmt"
	"strings"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

// ---- a reader of SQL conditions with SQL's precedence

type sqlReader struct {
	toks []string
	pos  int
	args int // placeholders read
	ok   bool
}

// lexSQL splits SQL text; every byte of it must be known.
func lexSQL(s string) (toks []string, ok bool) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ':
			i++
		case isLetter(c) || c == '_':
			j := i
			for j < len(s) && (isLetter(s[j]) || isDigit(s[j]) || strings.IndexByte("_.[]*/", s[j]) >= 0) {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		case isDigit(c):
			j := i
			for j < len(s) && isDigit(s[j]) {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		case (c == '<' || c == '>' || c == '!') && i+1 < len(s) && s[i+1] == '=':
			toks = append(toks, s[i:i+2])
			i += 2
		case strings.IndexByte("()?,=<>+-*/%", c) >= 0:
			toks = append(toks, s[i:i+1])
			i++
		default:
			return nil, false
		}
	}
	return toks, true
}

func (r *sqlReader) peek() string {
	if r.pos < len(r.toks) {
		return r.toks[r.pos]
	}
	return ""
}
func (r *sqlReader) take(t string) bool {
	if r.ok && r.peek() == t {
		r.pos++
		return true
	}
	return false
}
func (r *sqlReader) need(t string) {
	if !r.take(t) {
		r.ok = false
	}
}

func (r *sqlReader) or() *E {
	l := r.and()
	for r.take("OR") {
		l = bin("K_OR", l, r.and())
	}
	return l
}
func (r *sqlReader) and() *E {
	l := r.not()
	for r.take("AND") {
		l = bin("K_AND", l, r.not())
	}
	return l
}
func (r *sqlReader) not() *E {
	if r.take("NOT") {
		return un("K_NOT", r.not())
	}
	return r.cmp()
}

var sqlOps = map[string]string{"=": "EQ", "!=": "NE", "<": "LT", "<=": "LE", ">": "GT", ">=": "GE", "LIKE": "K_LIKE", "ILIKE": "K_ILIKE", "REGEXP": "REQ"}

// cmp is one comparison: SQL does not chain them.
func (r *sqlReader) cmp() *E {
	l := r.add()
	if !r.ok {
		return nil
	}
	switch t := r.peek(); {
	case sqlOps[t] != "":
		r.pos++
		return bin(sqlOps[t], l, r.add())
	case t == "IS":
		r.pos++
		r.need("NULL")
		return isNull(l)
	case t == "IN":
		r.pos++
		r.need("(")
		list := arr()
		for r.ok {
			list.A = append(list.A, r.or())
			if !r.take(",") {
				break
			}
		}
		r.need(")")
		return bin("K_IN", l, list)
	case t == "BETWEEN":
		r.pos++
		lo := r.add()
		r.need("AND")
		return between(l, lo, r.add())
	}
	return l
}
func (r *sqlReader) add() *E {
	l := r.mul()
	for r.ok {
		switch {
		case r.take("+"):
			l = bin("PLUS", l, r.mul())
		case r.take("-"):
			l = bin("MINUS", l, r.mul())
		default:
			return l
		}
	}
	return l
}
func (r *sqlReader) mul() *E {
	l := r.unary()
	for r.ok {
		switch {
		case r.take("*"):
			l = bin("STAR", l, r.unary())
		case r.take("/"):
			l = bin("SLASH", l, r.unary())
		case r.take("%"):
			l = bin("PERCENT", l, r.unary())
		default:
			return l
		}
	}
	return l
}
func (r *sqlReader) unary() *E {
	if r.take("-") {
		return un("UMINUS", r.unary())
	}
	t := r.peek()
	if !r.ok || t == "" {
		r.ok = false
		return nil
	}
	r.pos++
	switch {
	case t == "(":
		e := r.or()
		r.need(")")
		return e
	case t == "?":
		r.args++
		return &E{K: Kind(-1), F: float64(r.args - 1)}
	case isDigit(t[0]):
		return &E{K: Kind(-2), S: t}
	case isLetter(t[0]) || t[0] == '_':
		switch t {
		case "AND", "OR", "NOT", "IN", "IS", "NULL", "LIKE", "ILIKE", "BETWEEN", "REGEXP":
			r.ok = false
		}
		return id(t)
	}
	r.ok = false
	return nil
}

// sqlNorm is the tree with the operators SQL writes with others.
func sqlNorm(e *E) *E {
	if e.K == Bin && e.Op == "RNE" {
		return un("K_NOT", bin("REQ", sqlNorm(e.A[0]), sqlNorm(e.A[1])))
	}
	if len(e.A) == 0 {
		return e
	}
	c := *e
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, sqlNorm(a))
	}
	return &c
}

// sqlForm tells whether the expression has an SQL form.
func sqlForm(e *E) bool {
	switch e.K {
	case Arr:
		return false
	case Un:
		if e.Op != "K_NOT" && e.Op != "UMINUS" {
			return false
		}
	case Bin:
		if e.Op == "K_IN" || e.Op == "K_BETWEEN" {
			if !sqlForm(e.A[0]) || e.A[1].K != Arr || e.Op == "K_BETWEEN" && len(e.A[1].A) != 2 {
				return false
			}
			for _, a := range e.A[1].A {
				if !sqlForm(a) {
					return false
				}
			}
			return true
		}
	}
	for _, a := range e.A {
		if !sqlForm(a) {
			return false
		}
	}
	return true
}

func instant(s string) (time.Time, bool) {
	for _, l := range []string{time.RFC3339, "2006-01-02 15:04:05", "2006-01-02"} {
		if t, err := time.Parse(l, s); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

// sameArg compares a bound argument with the literal it stands for.
func sameArg(v interface{}, e *E, where string) {
	switch e.K {
	case Num:
		f, ok := v.(float64)
		sym.Assert(ok, where+": the argument is no number")
		sym.Observe("number", f)
		sym.Assert(sym.SameFloat(f, e.F), where+": the argument is another number")
	case Str:
		s, ok := v.(string)
		sym.Assert(ok, where+": the argument is no string")
		sym.Observe("string", s)
		sym.Assert(sym.EqStr(s, e.S), where+": the argument is another string")
	case Boo:
		f, ok := f64(v)
		sym.Assert(ok && (f == 1) == e.B && (f == 0) == !e.B, where+": the argument is not the Boolean as 1 or 0")
	case Date, Stamp:
		s, ok := v.(string)
		sym.Assert(ok, where+": the argument is no date text")
		a, isA := instant(s)
		b, isB := instant(e.S)
		if isB {
			sym.Assert(isA && a.Equal(b), where+": the argument is another instant")
		} else {
			sym.Assert(sym.EqStr(s, e.S), where+": the argument is another date text")
		}
	default:
		sym.Fail(where + ": a literal is bound where the tree has none")
	}
}

// sameSQL compares what SQL reads with the tree.
func sameSQL(g, e *E, args []interface{}, where string) {
	if e.K == Bin && e.Op == "K_IN" && len(e.A[1].A) == 0 {
		// nothing is in an empty list: any comparison of two constants that is false
		sym.Assert(g.K == Bin && g.Op == "EQ" && g.A[0].K == Kind(-2) && g.A[1].K == Kind(-2) && g.A[0].S != g.A[1].S, where+": a test of an empty list is no false condition")
		return
	}
	if g.K == Kind(-1) {
		sym.Assert(int(g.F) < len(args), where+": a placeholder has no argument")
		sameArg(args[int(g.F)], e, where)
		return
	}
	sym.Assert(g.K == e.K && g.Op == e.Op, fmt.Sprintf("%s: SQL reads another operator or operand than the tree's %s", where, e.Op))
	if e.K == Id {
		sym.Assert(g.S == e.S, where+": another identifier")
	}
	sym.Assert(len(g.A) == len(e.A), where+": another number of operands")
	for i := range e.A {
		sameSQL(g.A[i], e.A[i], args, fmt.Sprintf("%s.%d", where, i))
	}
}

func sqlCheck(n *tsl.TSLNode, e *E) {
	s, err := sql.Walk(n)
	if !sqlForm(e) {
		sym.Assert(err != nil, "an operator without SQL form is converted")
		sym.Assert(err.Error() != "", "an error without text")
		sameTree(n, e, "tree after conversion")
		return
	}
	sym.Assert(err == nil && s != nil, "an expression with an SQL form is refused")
	text, args, err := s.ToSql()
	sym.Assert(err == nil, "the SQL is not rendered")
	sym.Observe("sql", text)
	sqlText(text, args, e)
	sameTree(n, e, "tree after conversion")
}

// sqlText reads an SQL condition and compares it with the tree.
func sqlText(text string, args []interface{}, e *E) {
	toks, ok := lexSQL(text)
	sym.Assert(ok, "the SQL text has characters of no identifier or operator")
	r := &sqlReader{toks: toks, ok: true}
	g := r.or()
	sym.Assert(r.ok && r.pos == len(toks), "the SQL text is no condition")
	sym.Assert(r.args == len(args), "placeholders and arguments differ in number")
	sameSQL(g, sqlNorm(e), args, "sql")
}

func H_C31_rep()   { tokenRunThen(sqlVocab, sym.Param("len", 5), false, false, sqlCheck) }
func H_C31_full()  { tokenRunThen(fullVocab, sym.Param("len", 3), false, false, sqlCheck) }
func H_C31_array() { tokenRunThen(sqlArrVocab, sym.Param("len", 7), false, false, sqlCheck) }

var sqlVocab = []int{tIDENTIFIER, tNUMERICLITERAL, tLPAREN, tRPAREN, tMINUS, tSTAR, tEQ, tKLIKE, tKAND, tKOR, tKBETWEEN, tKIS, tKNULL, tKNOT, tRNE}
var sqlArrVocab = []int{tIDENTIFIER, tNUMERICLITERAL, tSTRINGLITERAL, tLBRACKET, tRBRACKET, tCOMMA, tKIN, tKNOT, tKAND}

// literals at every place, with any value
func anyLit(name string) *E {
	switch sym.Choose(name+".kind", 6) {
	case 0:
		return num(sym.Float64(name))
	case 1:
		s := ascii(name, sym.Choose(name+".len", sym.Param("text", 2)+1))
		notDate(s)
		return text(s)
	case 2:
		return boo(sym.Choose(name+".b", 2) == 1)
	case 3:
		return date(pick(name+".date", "2020-01-02", "1999-12-31"))
	case 4:
		return stamp(pick(name+".stamp", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.25Z", "2020-01-02T01:00:00+01:30"))
	}
	return id(pick(name+".id", "a", "a.b/c[0]", "x_1[*].y"))
}

func H_C30_binary() {
	op := pick("op", allBin...)
	a := anyLit("a")
	var e *E
	switch op {
	case "K_IS":
		e = isNull(a)
	case "K_IN":
		e = bin(op, a, arr(anyLit("b"), anyLit("c")))
	case "K_BETWEEN":
		e = between(a, anyLit("b"), anyLit("c"))
	default:
		e = bin(op, a, anyLit("b"))
	}
	n := parse(e)
	sqlCheck(n, e)
	n.Free()
}

// node2 is an operator over two given operands.
func node2(name string, x, y *E) *E {
	op := pick(name, append(append([]string{}, allBin...), allUn...)...)
	switch op {
	case "K_IS":
		return isNull(x)
	case "K_BETWEEN":
		if sym.Choose(name+".side", 2) == 0 {
			return between(x, y, id("hi"))
		}
		return between(id("v"), x, y)
	case "K_IN":
		if sym.Choose(name+".side", 2) == 0 {
			return bin(op, x, arr(y))
		}
		return bin(op, id("v"), arr(x, y))
	case "K_NOT", "K_LEN", "K_ANY", "K_ALL", "K_SUM", "UMINUS":
		return un(op, x)
	}
	return bin(op, x, y)
}

// every operator under every operator on either side, literals in between
func H_C31_pairs() {
	f, g, k := sym.Float64("f"), sym.Float64("g"), sym.Float64("k")
	in := node2("inner", num(f), id("a"))
	if sym.Choose("flip", 2) == 1 {
		in = node2("inner2", id("a"), num(f))
	}
	var e *E
	switch sym.Choose("side", 2) {
	case 0:
		e = node2("outer", in, num(g))
	default:
		e = node2("outer", num(g), in)
	}
	e = bin("K_OR", e, bin("EQ", id("z"), num(k)))
	n := parse(e)
	sqlCheck(n, e)
	n.Free()
}

// three levels of the operators whose grouping matters
func H_C31_triples() {
	ops := []string{"K_AND", "K_OR", "EQ", "PLUS", "MINUS", "STAR", "K_NOT", "UMINUS", "RNE"}
	mk := func(name string, x *E, fresh *E) *E {
		op := pick(name, ops...)
		if op == "K_NOT" || op == "UMINUS" {
			return un(op, x)
		}
		if sym.Choose(name+".side", 2) == 0 {
			return bin(op, x, fresh)
		}
		return bin(op, fresh, x)
	}
	e := mk("o1", mk("o2", mk("o3", id("a"), num(sym.Float64("f"))), num(sym.Float64("g"))), id("c"))
	n := parse(e)
	sqlCheck(n, e)
	n.Free()
}

func H_C32_full() { tokenRunThen(fullVocab, sym.Param("len", 4), false, false, sqlTotal) }
func H_C32_rep()  { tokenRunThen(repVocab, sym.Param("len", 6), false, false, sqlTotal) }

// sqlTotal only asks for an answer and an unchanged tree.
func sqlTotal(n *tsl.TSLNode, e *E) {
	s, err := sql.Walk(n)
	if sqlForm(e) {
		sym.Assert(err == nil, "an expression with an SQL form is refused")
		_, _, err := s.ToSql()
		sym.Assert(err == nil, "the SQL is not rendered")
	} else {
		sym.Assert(err != nil && err.Error() != "", "an operator without SQL form is converted")
	}
	sameTree(n, e, "tree after conversion")
}
