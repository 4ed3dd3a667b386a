package h

import (
	"fmt"
	"strconv"
	"strings"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
)

// ---- a reader of DOT statements

type dotNode struct {
	id    string
	attrs map[string]string // the label with its escapes resolved
	parts []string          // fields of a record label
}

type dotGraph struct {
	nodes map[string]*dotNode
	edges map[string][]string
	order []string
}

type dotReader struct {
	s   string
	pos int
	bad string
}

func (r *dotReader) space() {
	for r.pos < len(r.s) && (r.s[r.pos] == ' ' || r.s[r.pos] == '\n' || r.s[r.pos] == '\t' || r.s[r.pos] == ';') {
		r.pos++
	}
}
func (r *dotReader) fail(m string) {
	if r.bad == "" {
		r.bad = m
	}
	r.pos = len(r.s)
}

// word is an unquoted identifier or a number.
func (r *dotReader) word() string {
	r.space()
	st := r.pos
	for r.pos < len(r.s) && (isLetter(r.s[r.pos]) || isDigit(r.s[r.pos]) || r.s[r.pos] == '_' || r.s[r.pos] == '.') {
		r.pos++
	}
	if st == r.pos {
		r.fail("a name is missing")
	}
	return r.s[st:r.pos]
}
func (r *dotReader) take(t string) bool {
	r.space()
	if r.pos+len(t) <= len(r.s) && r.s[r.pos:r.pos+len(t)] == t {
		r.pos += len(t)
		return true
	}
	return false
}

// quoted reads a quoted string: a backslash keeps the next character, a bare
// quote ends it. The fields are split at bare bars; other characters with a
// meaning in record labels must be escaped.
func (r *dotReader) quoted() (plain string, parts []string) {
	var out, field []byte
	for r.pos < len(r.s) {
		c := r.s[r.pos]
		r.pos++
		switch c {
		case '"':
			return string(out), append(parts, string(field))
		case '\\':
			if r.pos >= len(r.s) {
				r.fail("a label ends in a backslash")
				return
			}
			c = r.s[r.pos]
			r.pos++
			switch c {
			case 'n', 'l', 'r':
				c = '\n'
			case 'N', 'G', 'E', 'T', 'H', 'L':
				r.fail("a label has an unintended escape")
				return
			}
			out = append(out, c)
			field = append(field, c)
		case '|':
			parts = append(parts, string(field))
			field = nil
			out = append(out, c)
		case '{', '}', '<', '>':
			out = append(out, c)
			field = append(field, c)
			parts = append(parts, "\x00") // a record label with its own structure
		default:
			out = append(out, c)
			field = append(field, c)
		}
	}
	r.fail("a label does not end")
	return
}

func readDot(s string) (*dotGraph, string) {
	r := &dotReader{s: s}
	g := &dotGraph{nodes: map[string]*dotNode{}, edges: map[string][]string{}}
	for {
		r.space()
		if r.pos >= len(r.s) {
			return g, r.bad
		}
		id := r.word()
		switch {
		case r.take("->"):
			if !r.take("{") {
				r.fail("an edge without a list of nodes")
			}
			if _, ok := g.edges[id]; ok {
				r.fail("a node has two edge lists")
			}
			list := []string{}
			for r.bad == "" && !r.take("}") {
				list = append(list, r.word())
				r.take(",")
			}
			g.edges[id] = list
		case r.take("["):
			if g.nodes[id] != nil {
				r.fail("a node is declared twice")
			}
			n := &dotNode{id: id, attrs: map[string]string{}}
			for r.bad == "" && !r.take("]") {
				k := r.word()
				if !r.take("=") {
					r.fail("an attribute without a value")
					break
				}
				if r.take("\"") {
					v, parts := r.quoted()
					n.attrs[k] = v
					if k == "label" {
						n.parts = parts
					}
				} else {
					n.attrs[k] = r.word()
				}
				r.take(",")
			}
			g.nodes[id] = n
			g.order = append(g.order, id)
		default:
			r.fail("neither a node nor an edge")
		}
	}
}

// trimmed is s without the blanks around it.
func trimmed(s string) string {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

// sameDot compares the graph below a node with the tree and counts the nodes.
func sameDot(g *dotGraph, id string, n *tsl.TSLNode, e *E, seen map[string]bool, where string) {
	d := g.nodes[id]
	sym.Assert(d != nil, where+": no graph node for a tree node")
	sym.Assert(!seen[id], where+": two tree nodes have one graph node")
	seen[id] = true
	_, isOp := g.edges[id]
	sym.Assert(isOp == (len(e.A) > 0 || e.K == Arr), where+": edges do not fit the tree")
	if isOp {
		want := tsl.KindArrayLiteral.String()
		if e.K != Arr {
			want = opCode[e.Op].String()
		}
		sym.Assert(strings.Contains(d.attrs["label"], want), where+": the label names another operator than "+want)
		kids := g.edges[id]
		sym.Assert(len(kids) == len(e.A), where+": another number of edges than children")
		for i := range e.A {
			sameDot(g, kids[i], nil, e.A[i], seen, fmt.Sprintf("%s.%d", where, i))
		}
		return
	}
	sym.Assert(len(d.parts) == 2, where+": the label is not split in kind and value")
	sym.Assert(trimmed(d.parts[0]) == tsl.Kind(e.K).String(), where+": the label names another kind")
	val := trimmed(d.parts[1])
	switch e.K {
	case Str, Id:
		sym.Assert(len(val) == len(e.S)+2 && sym.EqStr(val, "'"+e.S+"'"), where+": the label has another text")
	case Num:
		if val != fmt.Sprintf("%v", e.F) {
			f, err := strconv.ParseFloat(val, 64)
			sym.Assert(err == nil && sym.SameFloat(f, e.F), where+": the label has another number")
		}
	case Boo:
		sym.Assert(val == fmt.Sprintf("%v", e.B), where+": the label has another Boolean")
	case Date, Stamp:
		if t, ok := instant(e.S); ok && t.String() == val {
			break
		}
		sym.Assert(sym.EqStr(val, e.S), where+": the label has another date")
	case Null:
		sym.Assert(val == "NULL", where+": the label is not NULL")
	}
}

func dotCheck(n *tsl.TSLNode, e *E) {
	root := pick("root", "", "root")
	s, err := graphviz.Walk("", n, root)
	sym.Assert(err == nil, "the graph is refused")
	dotText(s, root, e)
	sameTree(n, e, "tree after the walk")
}

// dotText reads DOT statements and compares the graph with the tree.
func dotText(s, root string, e *E) {
	g, bad := readDot(s)
	sym.Assert(bad == "", "the output is no DOT statement list: "+bad)
	// the root is the node no edge leads to
	to := map[string]bool{}
	for _, l := range g.edges {
		for _, id := range l {
			to[id] = true
		}
	}
	top := ""
	for _, id := range g.order {
		if !to[id] {
			sym.Assert(top == "", "two nodes have no parent")
			top = id
		}
	}
	sym.Assert(top != "" && (root == "" || top == root), "the root node has another name")
	seen := map[string]bool{}
	sameDot(g, top, nil, e, seen, "graph")
	sym.Assert(len(seen) == len(g.nodes), "graph nodes without tree node")
	for id := range g.edges {
		sym.Assert(seen[id], "an edge from no node")
	}
}

func H_C50_full()  { tokenRunThen(fullVocab, sym.Param("len", 3), false, false, dotCheck) }
func H_C50_rep()   { tokenRunThen(repVocab, sym.Param("len", 5), false, false, dotCheck) }
func H_C50_array() { tokenRunThen(sqlArrVocab, sym.Param("len", 7), false, false, dotCheck) }

func H_C50_pairs() {
	f := num(1.5)
	in := node2("inner", f, id("a"))
	var e *E
	if sym.Choose("side", 2) == 0 {
		e = node2("outer", in, null0(text("x")))
	} else {
		e = node2("outer", boo(true), in)
	}
	n := parse(e)
	dotCheck(n, e)
	n.Free()
}

// a text of any characters in a label
func H_C50_text() {
	s := ascii("s", sym.Choose("s.len", sym.Param("text", 3)+1))
	notDate(s)
	e := bin("EQ", id("a"), text(s))
	n := parse(e)
	dotCheck(n, e)
	n.Free()
}
