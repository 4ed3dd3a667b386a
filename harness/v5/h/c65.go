package h

import (
	"fmt"
	"time"

	"verif/h/sym"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
)

// mongoForm: 1 there is a document, 0 it is an error, 2 either.
func mongoForm(n tsl.Node) int {
	switch n.Func {
	case tsl.AndOp, tsl.OrOp:
		a, b := mongoForm(n.Left.(tsl.Node)), mongoForm(n.Right.(tsl.Node))
		if a == 0 || b == 0 {
			return 0
		}
		return a | b
	case tsl.NotOp, tsl.LikeOp, tsl.ILikeOp:
		return 0
	}
	if n.Left.(tsl.Node).Func != tsl.IdentOp {
		return 0
	}
	r, ok := n.Right.(tsl.Node)
	if !ok {
		return 1
	}
	if isColumn(r) {
		return 0
	}
	if items, ok := r.Right.([]tsl.Node); ok {
		for _, it := range items {
			if it.Func != tsl.StringOp && it.Func != tsl.NumberOp {
				return 2 // lists of strings and numbers are promised
			}
		}
	}
	return 1
}

// one is the only element of a document.
func one(v interface{}, where string) (string, interface{}) {
	d, ok := v.(bson.D)
	sym.Assert(ok && len(d) == 1, where+" is no document of one element")
	return d[0].Key, d[0].Value
}

func values(v interface{}, n int, where string) []interface{} {
	var a []interface{}
	switch u := v.(type) {
	case bson.A:
		a = u
	case []interface{}:
		a = u
	default:
		sym.Fail(where + " is no array")
	}
	sym.Assert(len(a) == n, where+" has another number of elements")
	return a
}

func sameMongoVal(v interface{}, e tsl.Node, where string) {
	if t, ok := e.Left.(time.Time); ok {
		if d, ok := v.(primitive.DateTime); ok {
			sym.Assert(int64(d) == t.UnixNano()/1e6, where+" is another instant")
			return
		}
	}
	sameLeaf(e.Left, v, where)
}

func field(v interface{}, name, where string) interface{} {
	k, x := one(v, where)
	sym.Assert(sym.EqStr(k, name), where+" names another field")
	return x
}

func sameMongo(v interface{}, e tsl.Node, where string) {
	switch e.Func {
	case tsl.AndOp, tsl.OrOp:
		k, x := one(v, where)
		sym.Assert(k == e.Func, where+" has operator "+k+" for "+e.Func)
		a := values(x, 2, where)
		sameMongo(a[0], e.Left.(tsl.Node), where+".left")
		sameMongo(a[1], e.Right.(tsl.Node), where+".right")
		return
	}
	name := e.Left.(tsl.Node).Left.(string)
	part := func(v interface{}, f string, e tsl.Node, where string) {
		k, x := one(field(v, name, where), where)
		sym.Assert(k == f, where+" has operator "+k+", not "+f)
		sameMongoVal(x, e, where)
	}
	switch e.Func {
	case tsl.IsNilOp, tsl.IsNotNilOp:
		k, x := one(field(v, name, where), where)
		b, ok := x.(bool)
		sym.Assert(k == "$exists" && ok && b == (e.Func == tsl.IsNotNilOp), where+" is another test for null")
	case tsl.RegexOp, tsl.NotRegexOp:
		x := field(v, name, where)
		if e.Func == tsl.NotRegexOp {
			var k string
			k, x = one(x, where)
			sym.Assert(k == "$not", where+" does not negate the pattern")
		}
		re, ok := x.(primitive.Regex)
		sym.Assert(ok && re.Options == "", where+" is no pattern")
		sym.Assert(sym.EqStr(re.Pattern, e.Right.(tsl.Node).Left.(string)), where+" has another pattern")
	case tsl.BetweenOp, tsl.NotBetweenOp:
		k, x := one(v, where)
		items := e.Right.(tsl.Node).Right.([]tsl.Node)
		a := values(x, 2, where)
		lo, hi, both := "$gte", "$lte", "$and"
		if e.Func == tsl.NotBetweenOp {
			lo, hi, both = "$lt", "$gt", "$or"
		}
		sym.Assert(k == both, where+" combines the ends with "+k)
		part(a[0], lo, items[0], where+".begin")
		part(a[1], hi, items[1], where+".end")
	case tsl.InOp, tsl.NotInOp:
		k, x := one(field(v, name, where), where)
		sym.Assert(k == e.Func, where+" has operator "+k+" for "+e.Func)
		items := e.Right.(tsl.Node).Right.([]tsl.Node)
		for i, y := range values(x, len(items), where) {
			sameMongoVal(y, items[i], fmt.Sprintf("%s.%d", where, i))
		}
	default:
		part(v, e.Func, e.Right.(tsl.Node), where)
	}
}

func mongoCheck(n tsl.Node) {
	keep := copyTree(n)
	d, err := mongo.Walk(n)
	sameTree(keep, n, "the tree after conversion")
	sym.Observe("error", err != nil)
	form := mongoForm(keep)
	if err != nil {
		sym.Assert(form != 1, "a filter with a MongoDB form is refused")
		sym.Assert(err.Error() != "", "an error without text")
		return
	}
	sym.Assert(form != 0, "an operator or operand without MongoDB form is converted")
	sameMongo(d, keep, "filter")
}

func H_C65_compare() {
	g := &gen{free: true}
	mongoCheck(g.cond("c", 0, 0))
}

func H_C65_other() {
	g := &gen{free: true}
	mongoCheck(g.cond("c", 1+sym.Choose("kind", kindsOfCond-1), 0))
}

func H_C65_logic() {
	g := &gen{}
	mongoCheck(g.logic("l", sym.Param("depth", 2)))
}

func H_C65_chain() {
	g := &gen{}
	mongoCheck(g.chain())
}

func H_C65_pair() {
	g := &gen{free: true, lits: sym.Param("lits", 2), plain: true}
	f := pick("f", tsl.AndOp, tsl.OrOp)
	a := g.cond("a", 2+sym.Choose("ka", kindsOfCond-3), 0)
	b := g.cond("b", 2+sym.Choose("kb", kindsOfCond-3), 0)
	mongoCheck(op2(f, a, b))
}

// literals and names of any content
func H_C65_text() {
	s := sym.Str("s", sym.Choose("len", sym.Param("len", 6)+1))
	f := append(compareFuncs, tsl.RegexOp, tsl.NotRegexOp)[sym.Choose("op", len(compareFuncs)+2)]
	mongoCheck(op2(f, id(name("a")), str(s)))
}

// longer lists
func H_C65_list() {
	mongoCheck(op2(pick("op", tsl.InOp, tsl.NotInOp), id("a"), longList(sym.Param("list", 6))))
}
