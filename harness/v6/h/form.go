package h

import (
	"encoding/json"
	"fmt"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// ---- the documented forms

var kindName = map[Kind]string{Num: "NUMBER", Str: "STRING", Id: "IDENTIFIER", Bin: "BINARY_EXP", Un: "UNARY_EXP", Date: "DATE", Stamp: "TIMESTAMP", Arr: "ARRAY", Boo: "BOOLEAN", Null: "NULL"}

var opForm = map[string]string{"K_LIKE": "LIKE", "K_ILIKE": "ILIKE", "K_AND": "AND", "K_OR": "OR", "K_BETWEEN": "BETWEEN", "K_IN": "IN", "K_IS": "IS",
	"K_NOT": "NOT", "K_LEN": "LEN", "K_ANY": "ANY", "K_ALL": "ALL", "K_SUM": "SUM", "PLUS": "ADD", "MINUS": "SUB", "STAR": "MUL", "SLASH": "DIV",
	"PERCENT": "MOD", "EQ": "EQ", "NE": "NE", "LT": "LT", "LE": "LE", "GT": "GT", "GE": "GE", "REQ": "REQ", "RNE": "RNE", "UMINUS": "NEG"}

// form reads a node of one of the forms.
type form interface {
	get(k string) (interface{}, bool)
}

type yform struct{ v interface{} }

func (y yform) get(k string) (interface{}, bool) {
	v, ok := sym.Field(y.v, "yaml", k)
	if ok && v == nil {
		ok = false
	}
	return v, ok
}

// asForm opens a child node.
func asForm(v interface{}, where string) form {
	switch u := v.(type) {
	case *jobj:
		return u
	case *tsl.TSLNode:
		if u == nil {
			return nil
		}
		y, err := u.MarshalYAML()
		sym.Assert(err == nil, where+": no YAML form")
		return yform{y}
	}
	return nil
}

func children(v interface{}) []interface{} {
	switch u := v.(type) {
	case []interface{}:
		return u
	case []*tsl.TSLNode:
		r := []interface{}{}
		for _, n := range u {
			r = append(r, n)
		}
		return r
	}
	return nil
}

func sameForm(v interface{}, e *E, where string) {
	f := asForm(v, where)
	sym.Assert(f != nil, where+": no node")
	k, _ := f.get("type")
	sym.Assert(isText(k, kindName[e.K]), where+": not the type of the node")
	op, hasOp := f.get("operator")
	l, hasL := f.get("left")
	r, hasR := f.get("right")
	val, hasVal := f.get("value")
	list, hasList := f.get("values")
	if n, ok := l.(*tsl.TSLNode); ok && n == nil {
		hasL = false
	}
	sym.Assert(hasOp == (e.K == Bin || e.K == Un), where+": an operator where there is none, or none")
	sym.Assert(hasL == (e.K == Bin) && hasR == (e.K == Bin || e.K == Un), where+": operands the node does not have, or none")
	sym.Assert(hasList == (e.K == Arr), where+": elements the node does not have, or none")
	switch e.K {
	case Bin, Un:
		sym.Assert(isText(op, opForm[e.Op]), where+": not the operator of the node")
		if e.K == Un {
			sameForm(r, e.A[0], where+".right")
			return
		}
		sameForm(l, e.A[0], where+".left")
		sameForm(r, e.A[1], where+".right")
		return
	case Arr:
		c := children(list)
		sym.Assert(len(c) == len(e.A), where+": another number of elements")
		for i := range c {
			sameForm(c[i], e.A[i], fmt.Sprintf("%s[%d]", where, i))
		}
		return
	}
	sym.Assert(hasVal, where+": no value")
	switch e.K {
	case Num:
		var g float64
		switch u := val.(type) {
		case jnum:
			g = sym.Strtod(u.text)
		case float64:
			g = u
		default:
			sym.Fail(where + ": the value is no number")
		}
		sym.Assert(sym.SameFloat(g, e.F), where+": another number")
	case Boo:
		b, ok := val.(bool)
		sym.Assert(ok && b == e.B, where+": another Boolean")
	case Str, Id:
		sym.Assert(isText(val, e.S), where+": another text")
	case Date, Stamp:
		if t, ok := val.(time.Time); ok {
			val = t.Format(time.RFC3339Nano)
		}
		s, ok := val.(string)
		sym.Assert(ok, where+": a date that is no text")
		a, errA := time.Parse(time.RFC3339, s)
		b, errB := time.Parse(time.RFC3339, e.S)
		if errA == nil && errB == nil {
			sym.Assert(a.Equal(b), where+": another instant")
		} else {
			sym.Assert(isText(val, e.S), where+": another date text")
		}
	}
}

func jsonForm(n *tsl.TSLNode, e *E) {
	b, err := json.Marshal(n)
	sym.Assert(err == nil, "no JSON form")
	sym.Observe("json length", len(b))
	sameForm(readJSON(string(b)), e, "json")
}

func bothForms(n *tsl.TSLNode, e *E) {
	jsonForm(n, e)
	sameForm(n, e, "yaml")
}

// rebuilt takes the tree the parser accepted: token number literals are 7.
func H_C12_full()  { tokenRunThen(fullVocab, sym.Param("len", 3), false, false, bothForms) }
func H_C12_rep()   { tokenRunThen(repVocab, sym.Param("len", 5), false, false, bothForms) }
func H_C12_array() { tokenRunThen(arrVocab, sym.Param("len", 7), false, false, bothForms) }

// every literal with any value
func H_C12_values() {
	var e *E
	switch sym.Choose("kind", 6) {
	case 0:
		f := sym.Float64("f")
		sym.Assume(sym.And(f < 1e300, f > -1e300))
		e = num(f)
	case 1:
		s := ascii("s", sym.Choose("len", sym.Param("text", 2)+1))
		notDate(s)
		e = text(s)
	case 2:
		e = boo(sym.Choose("b", 2) == 1)
	case 3:
		e = date(pick("date", "2020-01-02", "1999-12-31"))
	case 4:
		e = stamp(pick("stamp", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.25Z", "2020-01-02T01:00:00+01:30"))
	case 5:
		e = id(pick("id", "a", "a.b/c[0]", "x_1"))
	}
	place := 1
	if e.K != Str {
		place = sym.Choose("place", 5)
	}
	switch place {
	case 1:
		e = bin("GE", e, id("z"))
	case 2:
		e = bin("K_AND", id("z"), e)
	case 3:
		e = un("K_NOT", e)
	case 4:
		e = arr(id("z"), e, num(0))
	}
	n := parse(e)
	bothForms(n, e)
	n.Free()
}

// every operator
func H_C12_ops() {
	op := pick("op", append(append([]string{}, allBin...), allUn...)...)
	var e *E
	switch op {
	case "K_IS":
		e = isNull(id("a"))
	case "K_BETWEEN":
		e = between(id("a"), num(1), num(2))
	case "K_NOT", "K_LEN", "K_ANY", "K_ALL", "K_SUM", "UMINUS":
		e = un(op, bin("PLUS", id("a"), id("b")))
	default:
		e = bin(op, un("K_NOT", id("a")), bin("STAR", id("b"), id("c")))
	}
	n := parse(e)
	bothForms(n, e)
	n.Free()
}
