package h

import (
	"fmt"
	"strings"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v5/cmd/model"
	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

// ---- the programs, run as processes

// refused asserts that a program failed: a message, no result and an exit status.
func refused(out string, errs bool, code int, what string) {
	sym.Assert(code != 0, what+": the exit status tells no failure")
	sym.Assert(errs, what+": no message on standard error")
	sym.Assert(out == "", what+": a result is printed")
}

func done(code int) {
	sym.Assert(code == 0, "the program fails on a filter it has a result for")
}

// textOf is the text of tokens; runOn runs a program on a filter of them.
func textOf(toks []tok) string {
	text := ""
	for i, t := range toks {
		if i > 0 {
			text += " "
		}
		text += t.text
	}
	return text
}

func runOn(dir string, toks []tok, args func(text string) []string) (string, bool, int) {
	text := textOf(toks)
	sym.Put(&input{text: text, toks: toks})
	out, errs, code := sym.RunMain(dir, args(text)...)
	sym.Put(nil)
	return out, errs, code
}

// ---- tsl_mem: the books a filter selects

var bookColumns = []string{"title", "author", "spec.pages", "spec.rating", "on_loan"}

func isBookColumn(s string) bool {
	for _, c := range bookColumns {
		if c == s {
			return v5 || s != "on_loan"
		}
	}
	return false
}

// book is a record as a filter sees it, and as the result shows it.
func book(b model.Book) (r rec, shown rec) {
	r = rec{"title": b.Title, "author": b.Author, "spec.pages": nil, "spec.rating": nil}
	shown = rec{"title": b.Title, "author": b.Author}
	if on, ok := onLoan(b); ok {
		r["on_loan"], shown["onloan"] = on, on
	}
	if b.Spec.Pages > 0 {
		r["spec.pages"], shown["spec.pages"] = float64(b.Spec.Pages), float64(b.Spec.Pages)
	}
	if b.Spec.Rating > 0 {
		r["spec.rating"], shown["spec.rating"] = float64(b.Spec.Rating), float64(b.Spec.Rating)
	}
	return
}

func runMem(e E) { runMemAs(e, false) }

func runMemAs(e E, json bool) {
	n := parsed(e)
	names := map[string]bool{}
	identsOf(n, names)
	out, errs, code := runOn("v5/cmd/tsl_mem", e.t, func(t string) []string {
		if json {
			return []string{"-o", "json", "-i=" + t}
		}
		return []string{"-i", t}
	})
	for k := range names {
		if !isBookColumn(k) {
			refused(out, errs, code, "a column that is not there")
			return
		}
	}
	var want []rec
	for _, b := range model.Books {
		r, shown := book(b.(model.Book))
		v, ok := spec(n, r)
		if !ok {
			sym.Cover("failed")
			refused(out, errs, code, "a filter without a value for a book")
			return
		}
		if v {
			want = append(want, shown)
		}
	}
	done(code)
	sym.Observe("books", out)
	l, ok := readJSON(out).([]interface{})
	sym.Assert(ok, "the output is no JSON array")
	sym.Assert(len(l) == len(want), fmt.Sprintf("%d books are listed, %d match", len(l), len(want)))
	for i, w := range want {
		o, ok := l[i].(*jobj)
		sym.Assert(ok && len(o.keys) == len(w), "an element is no book")
		for k, v := range w {
			g, ok := o.get(k)
			sym.Assert(ok, "a book without "+k)
			switch u := v.(type) {
			case string:
				sym.Assert(isText(g, u), "another "+k+" than the book has")
			case bool:
				b, ok := g.(bool)
				sym.Assert(ok && b == u, "another "+k+" than the book has")
			case float64:
				f, ok := g.(jnum)
				sym.Assert(ok && sym.Strtod(f.text) == u, "another "+k+" than the book has")
			}
		}
	}
	sym.Cover(fmt.Sprintf("%d books", len(want)))
}

func memLit(name, col string) E {
	switch col {
	case "spec.pages", "spec.rating":
		if k := sym.Choose(name+".kind", 3); k < 2 {
			return literal(name, k)
		}
	case "on_loan":
		if sym.Choose(name+".kind", 2) > 0 {
			return boolOrText(sym.Choose(name+".bool", 2) == 1)
		}
	}
	return strLit(name, sym.Param("text", 3))
}

// memFix is a literal of the column's kind, and others at times.
func memFix(col string, k int) E {
	switch col {
	case "spec.pages", "spec.rating":
		return []E{plainNum(4), plainNum(100), textE("5")}[k]
	}
	return []E{textE("Joe"), textE("Good Book"), plainNum(1)}[k]
}

func boolOrText(b bool) E {
	if v5 {
		return boolLit(b)
	}
	return textE("true")
}

// one test of one column
func memTest(name string) E {
	c := pick(name, bookColumns...)
	x := fieldE(c)
	neg := sym.Choose(name+".not", 2) == 1
	switch sym.Choose(name+".test", 6) {
	case 0:
		if neg {
			return not(cmp(x, "=", memLit(name, c)))
		}
		return cmp(x, pick(name+".op", "!=", "<", ">="), memLit(name, c))
	case 1:
		return isNull(x, neg)
	case 2:
		return in(x, neg, memLit(name, c), memFix(c, 0))
	case 3:
		return between(x, neg, memFix(c, sym.Choose(name+".lo", 3)), memLit(name, c))
	case 4:
		return cmp(x, ifElse(neg, "~!", "~="), textE(pick(name+".re", "^.o", "Book$", "J[ao]", "(", "my")))
	}
	return like(x, neg, sym.Choose(name+".ilike", 2) == 1, textE(pick(name+".pat", "%Book", "_o%", "Joe", "%", "my%", "%o%k%")))
}

func H_C69_test() { runMem(memTest("t")) }

// tests with a value for every book
func memSafe(name string) E {
	switch sym.Choose(name, 5) {
	case 0:
		return cmp(fieldE("spec.pages"), pick(name+".op", "<", ">="), number(name))
	case 1:
		return isNull(fieldE("spec.rating"), false)
	case 2:
		return cmp(fieldE("author"), "=", strLit(name, 3))
	case 3:
		return cmp(fieldE("spec.rating"), "<", number(name))
	}
	return like(fieldE("title"), false, false, textE(pick(name+".pat", "%Great%", "Some%")))
}

func H_C69_logic() {
	f := and
	if sym.Choose("op", 2) == 1 {
		f = or
	}
	b := cmp(fieldE("spec.pages"), ">=", number("b"))
	if sym.Choose("b", 2) == 1 {
		b = isNull(fieldE("spec.rating"), false)
	}
	e := f(memSafe("a"), b)
	switch sym.Choose("not", 3) {
	case 1:
		e = not(paren(e))
	case 2:
		e = and(isNull(fieldE("spec.rating"), true), paren(e))
	}
	runMem(e)
}

// other columns, arithmetic and columns without a value
func H_C69_other() {
	c := fieldE(pick("col", "title", "spec.rating", "spec.pages", "pages", "onloan", "Title", "isbn", "spec", "book.title"))
	switch sym.Choose("what", 3) {
	case 0:
		runMemAs(isNull(c, true), sym.Choose("format", 2) == 1)
	case 1:
		runMem(cmp(arith(c, pick("op", mathOps...), plainNum(2)), ">", number("f")))
	case 2:
		runMem(or(isNull(fieldE("spec.rating"), false), cmp(c, ">", plainNum(3))))
	}
}

// no filter, or a format that is not there
func H_C69_args() {
	args := []string{}
	var toks []tok
	fails := true
	switch sym.Choose("args", 5) {
	case 1:
		args = []string{"-i", ""}
	case 2:
		args = []string{"-o", pick("format", "xml", "JSON", "", "jsony")}
		toks = cmp(fieldE("title"), "=", textE("Book")).t
	case 3:
		toks = [][]tok{cat(fieldE("title").t, w("=")), cat(fieldE("title").t, fieldE("b").t), w("("), cat(fieldE("title").t, w("in")), w("not")}[sym.Choose("text", 5)]
	case 4:
		toks = cmp(fieldE("title"), "=", textE("Book")).t
		fails = false
	}
	out, errs, code := runOn("v5/cmd/tsl_mem", toks, func(t string) []string {
		if toks != nil {
			return append(args, "-i", t)
		}
		return args
	})
	if fails {
		refused(out, errs, code, "arguments without a result")
	} else {
		done(code)
	}
}

// ---- tsl_parser: the forms of the tree

func sameJSON(v interface{}, n tsl.Node, where string) {
	o, ok := v.(*jobj)
	sym.Assert(ok, where+": no node")
	f, _ := o.get("func")
	sym.Assert(isText(f, n.Func), where+": another operator than the tree has")
	k := 1
	for _, side := range []string{"left", "right"} {
		want := n.Left
		if side == "right" {
			want = n.Right
		}
		g, ok := o.get(side)
		if want == nil {
			sym.Assert(!ok || g == nil, where+"."+side+" where the tree has nothing")
			continue
		}
		sym.Assert(ok, where+" without "+side)
		k++
		sameValue(g, want, where+"."+side)
	}
	sym.Assert(len(o.keys) == k, where+": other members than a node has")
}

func sameValue(g, want interface{}, where string) {
	switch u := want.(type) {
	case tsl.Node:
		sameJSON(g, u, where)
	case []tsl.Node:
		l, ok := g.([]interface{})
		sym.Assert(ok && len(l) == len(u), where+": the list has another length")
		for i := range u {
			sameJSON(l[i], u[i], fmt.Sprintf("%s[%d]", where, i))
		}
	case string:
		sym.Assert(isText(g, u), where+" has another text")
	case float64:
		t, ok := g.(jnum)
		sym.Assert(ok && sym.SameFloat(sym.Strtod(t.text), u), where+" is another number")
	case bool:
		b, ok := g.(bool)
		sym.Assert(ok && b == u, where+" is the other boolean")
	case time.Time:
		s, ok := g.(string)
		sym.Assert(ok, where+" is no instant")
		t, err := time.Parse(time.RFC3339, s)
		sym.Assert(err == nil && t.Equal(u), where+" is another instant")
	default:
		sym.Fail(where + " holds " + sym.TypeName(want))
	}
}

func runParser(e E, formats ...string) {
	n := parsed(e)
	format := pick("format", formats...)
	out, errs, code := runOn("v5/cmd/tsl_parser", e.t, func(t string) []string {
		if format == "" {
			return []string{"-i", t}
		}
		return []string{"-i", t, "-o", format}
	})
	sym.Observe("lines", strings.Count(out, "\n"))
	switch format {
	case "", "json":
		done(code)
		sameJSON(readJSON(out), n, "json")
	case "dot":
		done(code)
		t := strings.TrimRight(out, "\n")
		sym.Assert(strings.HasPrefix(out, "digraph {\n") && strings.HasSuffix(t, "}"), "the output is no graph")
		dotText(t[len("digraph {\n"):len(t)-1], "root", "", n)
	case "sql":
		// the library's form: which filters have one, and the bound values
		s, err := sql.Walk(n)
		if !sqlForm(n) || err != nil {
			refused(out, errs, code, "a filter without SQL form")
			return
		}
		_, bound, err := s.ToSql()
		sym.Assert(err == nil, "the SQL is not rendered")
		done(code)
		head := "sql:  SELECT * FROM table_name WHERE "
		sym.Assert(strings.HasPrefix(out, head), "the output is no query of the table")
		i := strings.Index(out, "\nargs: ")
		sym.Assert(i >= 0, "the arguments are not printed")
		sqlText(out[len(head):i], bound, n)
		sym.Assert(sym.EqStr(out[i:], fmt.Sprintf("\nargs: %v\n", bound)), "other arguments are printed than the query has")
	}
}

// one comparison with a literal of any kind
func H_C70_compare() {
	a := fieldE("x.y")
	if sym.Choose("math", 2) == 1 {
		a = arith(a, pick("m", mathOps...), plainNum(2))
	}
	lit := func(n string) E { return literal(n, sym.Choose(n+".kind", litKinds())) }
	neg := sym.Choose("not", 2) == 1
	var e E
	switch sym.Choose("what", 5) {
	case 0:
		if neg {
			e = isLit(a, sym.Choose("is", 2) == 1, lit("b"))
		} else {
			e = cmp(a, pick("op", cmpOps...), lit("b"))
		}
	case 1:
		if sym.Choose("like", 2) == 1 {
			e = like(a, neg, sym.Choose("ilike", 2) == 1, strLit("b", sym.Param("text", 1)))
		} else {
			e = cmp(a, ifElse(neg, "~!", "~="), strLit("b", sym.Param("text", 1)))
		}
	case 2:
		e = isNull(a, neg)
	case 3:
		e = between(a, neg, lit("b"), plainNum(2))
	case 4:
		e = in(a, neg, lit("b"), textE("c"))
	}
	runParser(e, "json", "dot", "sql")
}

// texts that a format could take for its own
func H_C70_text() {
	e := cmp(fieldE("x"), "=", textE(pick("text", "50%", "%d%s%v", "é日", "\u200b", "a\r\n\tb", "<&>", "a\\b", "?", "{0}")))
	runParser(e, "json", "dot", "sql")
}

func H_C70_logic() {
	f := func(n string, i int) E {
		switch sym.Choose(n, 4) {
		case 0:
			return cmp(fieldE("a"), "<", plainNum(float64(i)))
		case 1:
			return paren(or(isNull(fieldE("b"), false), cmp(fieldE("c"), "=", textE("x"))))
		case 2:
			return not(isNull(fieldE("d"), true))
		}
		return in(fieldE("e"), true, plainNum(1), plainNum(2))
	}
	op := and
	if sym.Choose("op", 2) == 1 {
		op = or
	}
	runParser(op(op(f("x", 1), f("y", 2)), f("z", 3)), "", "json", "dot", "sql")
}

func H_C70_big() { runParser(bigE(9, 33), "json", "dot", "sql") }

// no filter
func H_C70_args() {
	args := []string{}
	var toks []tok
	switch sym.Choose("args", 3) {
	case 1:
		args = []string{"-i", ""}
	case 2:
		if f := pick("format", "", "json", "sql", "dot", "yaml"); f != "" {
			args = []string{"-o", f}
		}
		toks = [][]tok{cat(fieldE("title").t, w("=")), cat(fieldE("title").t, fieldE("b").t), w("("), cat(fieldE("title").t, w("in")), w("not")}[sym.Choose("text", 5)]
	}
	out, errs, code := runOn("v5/cmd/tsl_parser", toks, func(t string) []string {
		if toks != nil {
			return append(args, "-i", t)
		}
		return args
	})
	refused(out, errs, code, "arguments without a result")
}
