package h

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/cmd/model"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

// ---- the programs, run as processes

// progText is the expression a program gets: the engine's scanner gives the
// tokens whatever the text is.
func progText() string {
	if sym.Symbolic() {
		return "?"
	}
	return sym.Text()
}

// written is the text of an expression for a program.
func written(e *E) string {
	sym.LexStart()
	emit(e)
	return progText()
}

// refused asserts that a program failed: a message, no result and an exit status.
func refused(out string, errs bool, code int, what string) {
	sym.Assert(code != 0, what+": the exit status tells no failure")
	sym.Assert(errs, what+": no message on standard error")
	sym.Assert(out == "", what+": a result is printed")
}

func done(code int) {
	sym.Assert(code == 0, "the program fails on an expression it has a result for")
}

// ---- tsl: the outline of the tree

type outline struct {
	s string
	i int
}

func (o *outline) lit(t, msg string) {
	sym.Assert(len(o.s)-o.i >= len(t) && sym.EqStr(o.s[o.i:o.i+len(t)], t), msg)
	o.i += len(t)
}

func (o *outline) line() string {
	j := o.i
	for j < len(o.s) && o.s[j] != '\n' {
		j++
	}
	sym.Assert(j < len(o.s), "a line without end")
	t := o.s[o.i:j]
	o.i = j + 1
	return t
}

var kindLine = map[Kind]string{Num: "NUMBER", Str: "STRING", Id: "IDENTIFIER", Date: "DATE", Stamp: "TIMESTAMP", Boo: "BOOLEAN", Null: "NULL"}

func (o *outline) node(e *E, level int) {
	where := fmt.Sprintf("level %d", level)
	o.lit(strings.Repeat("  ", level), where+": a node is not indented by two blanks a level")
	switch e.K {
	case Bin, Un:
		o.lit("["+opForm[e.Op]+"]\n", where+": the line is not that of the operator "+opForm[e.Op])
		for _, a := range e.A {
			o.node(a, level+1)
		}
		return
	case Arr:
		o.lit("[ARRAY]:\n", where+": the line is not that of an array")
		for _, a := range e.A {
			o.node(a, level+1)
		}
		return
	}
	o.lit("["+kindLine[e.K]+"]: ", where+": the line does not name the kind "+kindLine[e.K])
	switch e.K {
	case Num:
		t := o.line()
		if t != fmt.Sprintf("%v", e.F) {
			sym.Assert(sym.SameFloat(sym.Strtod(t), e.F), where+": the line has another number")
		}
	case Str:
		t, err := strconv.Unquote(`"` + o.line() + `"`)
		sym.Assert(err == nil && sym.EqStr(t, e.S), where+": the line has another string, or it is not escaped")
	case Id:
		o.lit(e.S+"\n", where+": the line has another name")
	case Date:
		o.lit(e.S+"\n", where+": the line has another date")
	case Stamp:
		t := o.line()
		a, err := time.Parse("2006-01-02T15:04:05-07:00", t)
		b, bad := time.Parse(time.RFC3339, e.S)
		if bad != nil {
			sym.Assert(sym.EqStr(t, e.S), where+": the line has another timestamp text")
			return
		}
		_, x := a.Zone()
		_, y := b.Zone()
		sym.Assert(err == nil && a.Unix() == b.Unix() && x == y, where+": the line has another timestamp")
	case Boo:
		o.lit(fmt.Sprint(e.B)+"\n", where+": the line has another Boolean")
	case Null:
		o.lit("NULL\n", where+": the line has a value that is not NULL")
	}
}

// runTSL runs tsl on a text and compares with the tree it stands for.
func runTSL(text string, want func() (*E, bool)) {
	out, errs, code := sym.RunMain("v6/cmd/tsl", "--", text)
	sym.LexStop()
	o := &outline{s: out}
	o.lit("Parsing: "+text+"\n", "the first line does not repeat the expression")
	e, ok := want()
	if !ok {
		sym.Cover("rejected")
		refused(out[o.i:], errs, code, "a text that is no expression")
		return
	}
	sym.Cover("accepted")
	done(code)
	o.node(e, 0)
	sym.Assert(o.i == len(out), "lines that belong to no node")
	sym.Observe("lines", strings.Count(out[len("Parsing: "+text):], "\n"))
}

func runTSLTree(e *E) { runTSL(written(e), func() (*E, bool) { return e, true }) }

// tokens: what the program did decides where the oracle has to stop
func runTSLTokens(vocab []int, max int) {
	fd := feedTokens(vocab, max)
	runTSL(progText(), func() (*E, bool) {
		e, ok, at := oracleParse(fd.toks)
		if ok && fd.atEnd {
			return e, true
		}
		fd.rejected(ok, at)
		return nil, false
	})
}

func H_C42_full()  { runTSLTokens(fullVocab, sym.Param("len", 3)) }
func H_C42_rep()   { runTSLTokens(repVocab, sym.Param("len", 4)) }
func H_C42_array() { runTSLTokens(arrVocab, sym.Param("len", 6)) }
func H_C42_big()   { runTSLTree(bigTree("big", false)) }
func H_C42_lit()   { runTSLTree(litTree()) }

// any literal and operator
func H_C42_values() { runTSLTree(anyValue()) }

func anyValue() *E {
	var e *E
	switch sym.Choose("kind", 7) {
	case 0:
		f := sym.Float64("f")
		sym.Assume(sym.And(f < 1e300, f > -1e300))
		e = num(f)
	case 1:
		s := ascii("s", sym.Choose("len", sym.Param("text", 2)+1))
		notDate(s)
		e = text(s)
	case 2:
		e = boo(sym.Choose("b", 2) == 1)
	case 3:
		e = date(pick("date", "2020-01-02", "1999-12-31"))
	case 4:
		e = stamp(pick("stamp", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.25Z", "2020-01-02T01:00:00+01:30", "2020-12-02T01:00:00-11:00"))
	case 5:
		e = id(pick("id", "a", "a.b/c[0]", "x_1", "a%d"[:1]))
	case 6:
		e = text(pick("text", "50%", "%d%s%v", "\xff", "é日", "\u200b", "a\r\n\tb", "\x1b[0m"))
	}
	place := 1
	if e.K != Str {
		place = sym.Choose("place", 5)
	}
	switch place {
	case 1:
		op := "GE"
		if e.K != Num {
			op = pick("op", "EQ", "NE", "K_LIKE", "REQ")
		}
		e = bin(op, id("z"), e)
	case 2:
		e = bin("K_AND", id("z"), e)
	case 3:
		e = un("K_NOT", e)
	case 4:
		e = arr(id("z"), e, num(0))
	}
	return e
}

func H_C42_ops() { runTSLTree(anyOp()) }

func anyOp() *E {
	op := pick("op", append(append([]string{}, allBin...), allUn...)...)
	switch op {
	case "K_IS":
		return isNull(id("a"))
	case "K_BETWEEN":
		return between(id("a"), num(1), num(2))
	case "K_NOT", "K_LEN", "K_ANY", "K_ALL", "K_SUM", "UMINUS":
		return un(op, bin("PLUS", id("a"), id("b")))
	}
	return bin(op, un("K_NOT", id("a")), bin("STAR", id("b"), id("c")))
}

// whole texts through the scanner
func textTree(s string) func() (*E, bool) {
	return func() (*E, bool) {
		toks, ok := specLex(s)
		if !ok {
			return nil, false
		}
		e, ok, _ := oracleParse(toks)
		return e, ok
	}
}

func H_C42_text() {
	var s string
	switch sym.Choose("kind", 3) {
	case 0:
		s = upTo("in", 2)
	case 1:
		s = oneOf(sym.Str("alpha", sym.Param("alpha", 4)), "a1'%=( ]")
	case 2:
		q := pick("quote", "'", "\"")
		s = "a=" + q + sym.Str("body", sym.Param("body", 2)) + q
	}
	runTSL(s, textTree(s))
}

// any number of arguments but one
func H_C42_args() {
	n := sym.Choose("n", 3)
	if n == 1 {
		n = 3
	}
	args := []string{"--"}
	for i := 0; i < n; i++ {
		args = append(args, pick("arg", "a", "a = 1", ""))
	}
	out, errs, code := sym.RunMain("v6/cmd/tsl", args...)
	refused(out, errs, code, "not one argument")
}

// ---- tsl_mem: the books an expression selects

var bookColumns = []string{"title", "author", "pages", "rating", "on_loan"}

// book is a record as an expression sees it, and as the result shows it.
func book(b model.Book) (r rec, shown rec) {
	r = rec{"title": b.Title, "author": b.Author, "on_loan": b.OnLoan, "pages": nil, "rating": nil}
	shown = rec{"title": b.Title, "author": b.Author, "onloan": b.OnLoan}
	if b.Spec.Pages > 0 {
		r["pages"], shown["spec.pages"] = float64(b.Spec.Pages), float64(b.Spec.Pages)
	}
	if b.Spec.Rating > 0 {
		r["rating"], shown["spec.rating"] = float64(b.Spec.Rating), float64(b.Spec.Rating)
	}
	return
}

func isColumn(s string) bool {
	for _, c := range bookColumns {
		if c == s {
			return true
		}
	}
	return false
}

// runMem compares what tsl_mem prints with the books the expression is true of.
func runMem(e *E) {
	t := written(e)
	args := []string{"-i", t}
	if sym.Choose("format", 2) == 1 {
		args = []string{"-o", "json", "-i=" + t}
	}
	out, errs, code := sym.RunMain("v6/cmd/tsl_mem", args...)
	sym.LexStop()
	m := map[string]bool{}
	names(e, m)
	for k := range m {
		if !isColumn(k) {
			refused(out, errs, code, "a column that is not there")
			return
		}
	}
	var want []rec
	for _, b := range model.Books {
		r, shown := book(b.(model.Book))
		v, bad := spec(e, r)
		if bad {
			sym.Cover("failed")
			refused(out, errs, code, "an expression without a value for a book")
			return
		}
		if b, ok := v.(bool); ok && b {
			want = append(want, shown)
		}
	}
	done(code)
	sym.Observe("books", out)
	l, ok := readJSON(out).([]interface{})
	sym.Assert(ok, "the output is no JSON array")
	sym.Assert(len(l) == len(want), fmt.Sprintf("%d books are listed, %d match", len(l), len(want)))
	for i, w := range want {
		o, ok := l[i].(*jobj)
		sym.Assert(ok && len(o.keys) == len(w), "an element is no book")
		for k, v := range w {
			g, ok := o.get(k)
			sym.Assert(ok, "a book without "+k)
			switch u := v.(type) {
			case string:
				sym.Assert(isText(g, u), "another "+k+" than the book has")
			case bool:
				b, ok := g.(bool)
				sym.Assert(ok && b == u, "another "+k+" than the book has")
			case float64:
				f, ok := g.(jnum)
				sym.Assert(ok && sym.Strtod(f.text) == u, "another "+k+" than the book has")
			}
		}
	}
	sym.Cover(fmt.Sprintf("%d books", len(want)))
}

func memLit(name, col string) *E {
	switch col {
	case "pages", "rating":
		if sym.Choose(name+".kind", 3) > 0 {
			f := sym.Float64(name)
			sym.Assume(sym.And(f < 1e15, f > -1e15))
			return num(f)
		}
	case "on_loan":
		if sym.Choose(name+".kind", 2) > 0 {
			return boo(sym.Choose(name+".bool", 2) == 1)
		}
	}
	s := ascii(name, 3+sym.Choose(name+".len", 2))
	return text(s)
}

func memCol(name string) string { return pick(name, bookColumns...) }

// one test of one column
func memTest(name string) *E {
	c := memCol(name)
	switch sym.Choose(name+".test", 5) {
	case 0:
		return bin(pick(name+".op", "EQ", "NE", "LT", "LE", "GT", "GE"), id(c), memLit(name, c))
	case 1:
		return isNull(id(c))
	case 2:
		return bin("K_IN", id(c), arr(memLit(name, c), memLit(name+"2", c)))
	case 3:
		return between(id(c), memLit(name, c), memLit(name+"2", c))
	}
	p := pick(name+".pat", "%Book", "_o%", "Joe", "%", "my%", "%o%k%")
	return bin(pick(name+".like", "K_LIKE", "K_ILIKE"), id(c), text(p))
}

func H_C43_test() {
	e := memTest("t")
	if sym.Choose("not", 2) == 1 {
		e = un("K_NOT", e)
	}
	runMem(e)
}

// safe tests have a value for every book
func memSafe(name string) *E {
	switch sym.Choose(name, 5) {
	case 0:
		f := sym.Float64(name)
		sym.Assume(sym.And(f < 1e15, f > -1e15))
		return bin(pick(name+".op", "LT", "GE"), id("pages"), num(f))
	case 1:
		return isNull(id("rating"))
	case 2:
		return bin("EQ", id("author"), text(ascii(name, 3)))
	case 3:
		return bin("EQ", id("on_loan"), boo(true))
	}
	return bin("K_LIKE", id("title"), text(pick(name+".pat", "%Great%", "Some%")))
}

func H_C43_logic() {
	e := bin(pick("op", "K_AND", "K_OR"), memSafe("a"), memSafe("b"))
	switch sym.Choose("not", 3) {
	case 1:
		e = un("K_NOT", e)
	case 2:
		e = bin("K_AND", un("K_NOT", isNull(id("rating"))), e)
	}
	runMem(e)
}

// values and operators of no Boolean, other columns, rating of the books without
func H_C43_other() {
	c := id(pick("col", "title", "rating", "pages", "on_loan", "spec.pages", "onloan", "Title", "isbn", "spec"))
	var e *E
	switch sym.Choose("what", 5) {
	case 0:
		e = c
	case 1:
		e = bin("PLUS", c, num(1))
	case 2:
		e = bin("GT", bin(pick("op", "PLUS", "STAR", "SLASH", "MINUS"), id("pages"), c), num(sym.Float64("f")))
		sym.Assume(e.A[1].F == e.A[1].F)
	case 3:
		e = un("K_NOT", c)
	case 4:
		e = bin(pick("bop", "K_AND", "K_OR"), isNull(id("rating")), bin("GT", c, num(3)))
	}
	runMem(e)
}

// no expression, or a format that is not there
func H_C43_args() {
	var args []string
	fails := true
	switch sym.Choose("args", 5) {
	case 1:
		args = []string{"-i", ""}
	case 2:
		args = []string{"-i", "on_loan = true", "-o", pick("format", "xml", "JSON", "", "jsony")}
	case 3:
		args = []string{"-i", pick("text", "on_loan =", "a b", "(", "rating in", "'", "@")}
	case 4:
		args, fails = []string{"-i", "title = 'Book'"}, false
	}
	out, errs, code := sym.RunMain("v6/cmd/tsl_mem", args...)
	if fails {
		refused(out, errs, code, "arguments without a result")
	} else {
		done(code)
	}
}

// ---- tsl_parser: the forms of the tree

func runParser(t string, e *E, formats ...string) {
	format := pick("format", formats...)
	if (format == "" || format == "json") && notUTF8(e) {
		return // json has no such text
	}
	args := []string{"-i", t}
	if format != "" {
		args = append(args, "-o", format)
	}
	table := "table_name"
	if (format == "" || format == "sql") && sym.Choose("table", 2) == 1 {
		table = "users"
		args = append(args, "-t", table)
	}
	out, errs, code := sym.RunMain("v6/cmd/tsl_parser", args...)
	sym.LexStop()
	n := strings.Count(out, "\n")
	switch format {
	case "", "json":
		done(code)
		sameForm(readJSON(out), e, "json")
	case "dot":
		done(code)
		t := strings.TrimRight(out, "\n")
		sym.Assert(strings.HasPrefix(out, "digraph {\n") && strings.HasSuffix(t, "}"), "the output is no graph")
		dotText(t[len("digraph {\n"):len(t)-1], "root", e)
	case "sql":
		if !sqlForm(e) {
			refused(out, errs, code, "an expression without SQL form")
			return
		}
		done(code)
		head := "sql:  SELECT * FROM " + table + " WHERE "
		sym.Assert(strings.HasPrefix(out, head), "the output is no query of the table")
		i := strings.Index(out, "\nargs: ")
		sym.Assert(i >= 0, "the arguments are not printed")
		// the bound values are those of the library's form
		sym.LexStart()
		emit(e)
		tree := parseToks()
		s, err := sql.Walk(tree)
		sym.Assert(err == nil, "the expression is refused")
		_, bound, err := s.ToSql()
		sym.Assert(err == nil, "the SQL is not rendered")
		sqlText(out[len(head):i], bound, e)
		sym.Assert(sym.EqStr(out[i:], fmt.Sprintf("\nargs: %v\n", bound)), "other arguments are printed than the query has")
		tree.Free()
	}
	sym.Observe("lines", n)
}

func H_C44_values() {
	e := anyValue()
	runParser(written(e), e, "json", "dot", "sql")
}
func H_C44_ops() {
	e := anyOp()
	runParser(written(e), e, "", "json", "dot", "sql")
}
func H_C44_lit() {
	e := litTree()
	runParser(written(e), e, "json", "dot", "sql")
}
func H_C44_big() {
	e := bigTree("big", false)
	runParser(written(e), e, "json", "dot", "sql")
}

// notUTF8 tells a text that is not UTF-8.
func notUTF8(e *E) bool {
	if e.K == Str && strings.Contains(e.S, "\xff") {
		return true
	}
	for _, a := range e.A {
		if notUTF8(a) {
			return true
		}
	}
	return false
}

// no expression, or a format that is not there
func H_C44_args() {
	var args []string
	switch sym.Choose("args", 4) {
	case 1:
		args = []string{"-i", ""}
	case 2:
		args = []string{"-i", "a = 1", "-o", pick("format", "xml", "JSON", "", "jsony", "SQL")}
	case 3:
		args = []string{"-i", pick("text", "a =", "a b", "(", "a in", "'", "@", "[")}
	}
	out, errs, code := sym.RunMain("v6/cmd/tsl_parser", args...)
	refused(out, errs, code, "arguments without a result")
}
