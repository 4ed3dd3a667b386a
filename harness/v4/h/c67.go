// Code generated by tools/reg.py from harness/v5. DO NOT EDIT.

package h

import (
	"fmt"
	"strconv"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
	"github.com/yaacov/tree-search-language/v4/pkg/walkers/graphviz"
)

// ---- a reader of DOT statements

type dotNode struct {
	id    string
	attrs map[string]string // the label with its escapes resolved
	parts []string          // fields of a record label
}

type dotGraph struct {
	nodes map[string]*dotNode
	edges map[string][]string
	order []string
}

type dotReader struct {
	s   string
	pos int
	bad string
}

func (r *dotReader) space() {
	for r.pos < len(r.s) && (r.s[r.pos] == ' ' || r.s[r.pos] == '\n' || r.s[r.pos] == '\t' || r.s[r.pos] == ';') {
		r.pos++
	}
}
func (r *dotReader) fail(m string) {
	if r.bad == "" {
		r.bad = m
	}
	r.pos = len(r.s)
}

// word is an unquoted identifier or a number.
func (r *dotReader) word() string {
	r.space()
	st := r.pos
	for r.pos < len(r.s) && (isLetter(r.s[r.pos]) || isDigit(r.s[r.pos]) || r.s[r.pos] == '_' || r.s[r.pos] == '.') {
		r.pos++
	}
	if st == r.pos {
		r.fail("a name is missing")
	}
	return r.s[st:r.pos]
}
func (r *dotReader) take(t string) bool {
	r.space()
	if r.pos+len(t) <= len(r.s) && r.s[r.pos:r.pos+len(t)] == t {
		r.pos += len(t)
		return true
	}
	return false
}

// quoted reads a quoted string: a backslash keeps the next character, a bare
// quote ends it. The fields are split at bare bars; other characters with a
// meaning in record labels must be escaped.
func (r *dotReader) quoted() (plain string, parts []string) {
	var out, field []byte
	for r.pos < len(r.s) {
		c := r.s[r.pos]
		r.pos++
		switch c {
		case '"':
			return string(out), append(parts, string(field))
		case '\\':
			if r.pos >= len(r.s) {
				r.fail("a label ends in a backslash")
				return
			}
			c = r.s[r.pos]
			r.pos++
			switch c {
			case 'n', 'l', 'r':
				c = '\n'
			case 'N', 'G', 'E', 'T', 'H', 'L':
				r.fail("a label has an unintended escape")
				return
			}
			out = append(out, c)
			field = append(field, c)
		case '|':
			parts = append(parts, string(field))
			field = nil
			out = append(out, c)
		case '{', '}', '<', '>':
			out = append(out, c)
			field = append(field, c)
			parts = append(parts, "\x00") // a record label with its own structure
		default:
			out = append(out, c)
			field = append(field, c)
		}
	}
	r.fail("a label does not end")
	return
}

func readDot(s string) (*dotGraph, string) {
	r := &dotReader{s: s}
	g := &dotGraph{nodes: map[string]*dotNode{}, edges: map[string][]string{}}
	for {
		r.space()
		if r.pos >= len(r.s) {
			return g, r.bad
		}
		id := r.word()
		switch {
		case r.take("->"):
			if !r.take("{") {
				r.fail("an edge without a list of nodes")
			}
			if _, ok := g.edges[id]; ok {
				r.fail("a node has two edge lists")
			}
			list := []string{}
			for r.bad == "" && !r.take("}") {
				list = append(list, r.word())
				r.take(",")
			}
			g.edges[id] = list
		case r.take("["):
			if g.nodes[id] != nil {
				r.fail("a node is declared twice")
			}
			n := &dotNode{id: id, attrs: map[string]string{}}
			for r.bad == "" && !r.take("]") {
				k := r.word()
				if !r.take("=") {
					r.fail("an attribute without a value")
					break
				}
				if r.take("\"") {
					v, parts := r.quoted()
					n.attrs[k] = v
					if k == "label" {
						n.parts = parts
					}
				} else {
					n.attrs[k] = r.word()
				}
				r.take(",")
			}
			g.nodes[id] = n
			g.order = append(g.order, id)
		default:
			r.fail("neither a node nor an edge")
		}
	}
}

// trimmed is s without the blanks around it.
func trimmed(s string) string {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

// sameDot compares the graph below a node with the tree.
func sameDot(g *dotGraph, id string, e tsl.Node, seen map[string]bool, where string) {
	d := g.nodes[id]
	sym.Assert(d != nil, where+": no graph node for a tree node")
	sym.Assert(!seen[id], where+": two tree nodes have one graph node")
	seen[id] = true
	kids := []tsl.Node{}
	if l, ok := e.Left.(tsl.Node); ok {
		kids = append(kids, l)
	}
	switch r := e.Right.(type) {
	case tsl.Node:
		kids = append(kids, r)
	case []tsl.Node:
		kids = append(kids, r...)
	}
	to, isOp := g.edges[id]
	sym.Assert(isOp == (len(kids) > 0 || e.Func == tsl.ArrayOp), where+": edges do not fit the tree")
	if isOp {
		sym.Assert(trimmed(d.attrs["label"]) == e.Func, where+": the label names another operator than "+e.Func)
		sym.Assert(len(to) == len(kids), where+": another number of edges than children")
		for i := range kids {
			sameDot(g, to[i], kids[i], seen, fmt.Sprintf("%s.%d", where, i))
		}
		return
	}
	sym.Assert(len(d.parts) == 2, where+": the label is not split in kind and value")
	sym.Assert(trimmed(d.parts[0]) == e.Func, where+": the label names another kind")
	val := trimmed(d.parts[1])
	switch v := e.Left.(type) {
	case string:
		sym.Assert(len(val) == len(v)+2 && sym.EqStr(val, "'"+v+"'"), where+": the label has another text")
	case float64:
		f, err := strconv.ParseFloat(val, 64)
		sym.Assert(err == nil && sym.SameFloat(f, v), where+": the label has another number")
	default:
		sym.Assert(val == fmt.Sprintf("%v", v), where+": the label has another value")
	}
}

func dotCheck(n tsl.Node) { dotCheckAt(n, "", "") }

// anywhere checks with and without a name for the root and a text to go on from.
func anywhere(n tsl.Node) {
	dotCheckAt(n, pick("root", "", "root"), pick("prefix", "", "first [shape=box label=\"x\"]"))
}

func dotCheckAt(n tsl.Node, root, pre string) {
	keep := copyTree(n)
	s, err := graphviz.Walk(pre, n, root)
	sym.Assert(err == nil, "the graph is refused")
	dotText(s, root, pre, keep)
	sameTree(keep, n, "the tree after the walk")
}

// dotText checks a list of DOT statements against the tree.
func dotText(s, root, pre string, keep tsl.Node) {
	g, bad := readDot(s)
	sym.Assert(bad == "", "the output is no DOT statement list: "+bad)
	if pre != "" {
		sym.Assert(len(g.order) > 0 && g.order[0] == "first" && g.nodes["first"].attrs["label"] == "x", "the prefix is not written first")
		delete(g.nodes, "first")
		g.order = g.order[1:]
	}
	// the root is the node no edge leads to
	to := map[string]bool{}
	for _, l := range g.edges {
		for _, id := range l {
			to[id] = true
		}
	}
	top := ""
	for _, id := range g.order {
		if !to[id] {
			sym.Assert(top == "", "two nodes have no parent")
			top = id
		}
	}
	sym.Assert(top != "" && (root == "" || top == root), "the root node has another name")
	seen := map[string]bool{}
	sameDot(g, top, keep, seen, "graph")
	sym.Assert(len(seen) == len(g.nodes), "graph nodes without tree node")
	for id := range g.edges {
		sym.Assert(seen[id], "an edge from no node")
	}
}

func H_C87_compare() {
	g := &gen{}
	dotCheck(g.cond("c", 0, sym.Param("depth", 0)))
}

func H_C87_other() {
	g := &gen{lits: sym.Param("lits", 3)}
	dotCheck(g.cond("c", 1+sym.Choose("kind", kindsOfCond-1), 0))
}

func H_C87_logic() {
	g := &gen{}
	dotCheck(g.logic("l", sym.Param("depth", 2)))
}

func H_C87_chain() {
	g := &gen{}
	anywhere(g.chain())
}

// texts of any characters in labels
func H_C87_text() {
	s := ascii("s", sym.Choose("s.len", sym.Param("text", 3)+1))
	if sym.Choose("where", 2) == 0 {
		anywhere(op2(tsl.EqOp, id("a"), str(s)))
	} else {
		anywhere(op2(tsl.InOp, id(s), list(str("x"), str("y"), num(3))))
	}
}

// a leaf alone
func H_C87_leaf() {
	g := &gen{}
	if sym.Choose("id", 2) == 0 {
		anywhere(g.id())
	} else {
		anywhere(g.lit("l", true))
	}
}

// longer lists with free items
func H_C87_list() {
	dotCheck(op2(pick("op", tsl.InOp, tsl.NotInOp), id("a"), longList(sym.Param("list", 4))))
}
