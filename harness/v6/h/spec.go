package h

import (
	"fmt"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
)

// The documented meaning of an expression, independent of the walker.

// other is a record value of no class the language knows.
func classOf(v interface{}) int {
	switch v.(type) {
	case nil:
		return cNil
	case float64:
		return cNum
	case string:
		return cStr
	case bool:
		return cBool
	case time.Time:
		return cDate
	}
	return cOther
}

func isArr(v interface{}) ([]interface{}, bool) {
	a, ok := v.([]interface{})
	return a, ok
}

// specDate reads text with the shape of a date.
func specDate(s string) (time.Time, bool) {
	if len(s) < 10 {
		return time.Time{}, false
	}
	if t, err := time.Parse(time.RFC3339, s); err == nil {
		return t, true
	}
	if t, err := time.Parse("2006-01-02", s); err == nil {
		return t, true
	}
	return time.Time{}, false
}

// norm is a record value as the language sees it.
func norm(v interface{}) interface{} {
	if a, ok := isArr(v); ok {
		r := make([]interface{}, len(a))
		for i, x := range a {
			r[i] = norm(x)
		}
		return r
	}
	if s, ok := v.(string); ok {
		if t, ok := specDate(s); ok {
			return t
		}
		return s
	}
	if f, ok := f64(v); ok {
		return f
	}
	return v
}

// spec evaluates e; bad reports an error, missing the field an error may name.
func spec(e *E, r rec) (v interface{}, bad bool) {
	switch e.K {
	case Num:
		return e.F, false
	case Str, Date, Stamp:
		return norm(e.S), false
	case Boo:
		return e.B, false
	case Null:
		return nil, false
	case Id:
		x, ok := r[e.S]
		return norm(x), !ok
	case Arr:
		a := []interface{}{}
		for _, x := range e.A {
			v, b := spec(x, r)
			bad = bad || b
			a = append(a, v)
		}
		return a, bad
	case Un:
		v, bad := spec(e.A[0], r)
		if bad {
			return nil, true
		}
		return specUn(e.Op, v)
	}
	a, bad := spec(e.A[0], r)
	b, bad2 := spec(e.A[1], r)
	if bad || bad2 {
		return nil, true
	}
	return specBin(e.Op, a, b)
}

func specUn(op string, v interface{}) (interface{}, bool) {
	a, isA := isArr(v)
	switch op {
	case "K_LEN":
		return float64(len(a)), !isA
	case "K_SUM":
		sum := 0.0
		for _, x := range a {
			f, ok := x.(float64)
			if !ok {
				return nil, true
			}
			sum += f
		}
		return sum, !isA
	case "K_ANY":
		for _, x := range a {
			if b, ok := x.(bool); ok && b {
				return true, false
			}
		}
		return false, !isA
	case "K_ALL":
		for _, x := range a {
			if b, ok := x.(bool); !ok || !b {
				return false, false
			}
		}
		return len(a) > 0, !isA
	}
	if isA {
		r := []interface{}{}
		for _, x := range a {
			if _, nested := isArr(x); nested {
				return nil, true
			}
			y, bad := specUn(op, x)
			if bad {
				return nil, true
			}
			r = append(r, y)
		}
		return r, false
	}
	switch op {
	case "K_NOT":
		b, ok := v.(bool)
		return !b, !ok
	case "UMINUS":
		f, ok := v.(float64)
		return -f, !ok
	}
	return nil, true
}

// specEq is equality of two scalars; bad for values without equality.
func specEq(a, b interface{}) (bool, bool) {
	ca, cb := classOf(a), classOf(b)
	if ca != cb {
		return false, false
	}
	switch ca {
	case cNum:
		return a.(float64) == b.(float64), false
	case cStr:
		return a.(string) == b.(string), false
	case cBool:
		return a.(bool) == b.(bool), false
	case cDate:
		return a.(time.Time).Equal(b.(time.Time)), false
	case cNil:
		return true, false
	}
	return false, true
}

func specBin(op string, a, b interface{}) (interface{}, bool) {
	if arr, ok := isArr(a); ok {
		r := []interface{}{}
		for _, x := range arr {
			y, bad := specBin(op, x, b)
			if bad {
				return nil, true
			}
			r = append(r, y)
		}
		return r, false
	}
	ca, cb := classOf(a), classOf(b)
	x, xIs := a.(float64)
	y, yIs := b.(float64)
	nums := xIs && yIs
	list, isList := isArr(b)
	switch op {
	case "EQ", "NE":
		eq, bad := specEq(a, b)
		return eq == (op == "EQ"), bad
	case "LT", "LE", "GT", "GE":
		if nums {
			return cmpNum(op, x, y), false
		}
		if ca == cDate && cb == cDate {
			return cmpTime(op, a.(time.Time), b.(time.Time)), false
		}
		return nil, true
	case "K_AND", "K_OR":
		p, pIs := a.(bool)
		q, qIs := b.(bool)
		if !pIs || !qIs {
			return nil, true
		}
		if op == "K_AND" {
			return sym.And(p, q), false
		}
		return sym.Or(p, q), false
	case "PLUS":
		return x + y, !nums
	case "MINUS":
		return x - y, !nums
	case "STAR":
		return x * y, !nums
	case "SLASH":
		if !nums || y == 0 {
			return nil, true
		}
		return x / y, false
	case "PERCENT":
		if !nums || int64(y) == 0 {
			return nil, true
		}
		return float64(int64(x) % int64(y)), false
	case "K_IN":
		if !isList || ca == cOther {
			return nil, true
		}
		if ca == cNil {
			return false, false
		}
		found := false
		for _, z := range list {
			if _, nested := isArr(z); nested {
				continue
			}
			eq, _ := specEq(a, z)
			found = sym.Or(found, eq)
		}
		return found, false
	case "K_BETWEEN":
		if !isList || len(list) != 2 {
			return nil, true
		}
		ge, bad := specBin("GE", a, list[0])
		le, bad2 := specBin("LE", a, list[1])
		if bad || bad2 {
			return nil, true
		}
		return sym.And(ge.(bool), le.(bool)), false
	case "K_IS":
		return ca == cNil, false
	case "K_LIKE", "K_ILIKE":
		s, sIs := a.(string)
		p, pIs := b.(string)
		if !sIs || !pIs {
			return nil, true
		}
		return likeMatch(p, s, op == "K_ILIKE"), false
	}
	panic("no meaning for " + op)
}

// likeMatch matches characters of ASCII text one by one.
func likeMatch(p, s string, fold bool) bool {
	// ok[j] tells whether the pattern so far matches s[:j]
	ok := make([]bool, len(s)+1)
	ok[0] = true
	for i := 0; i < len(p); i++ {
		c := p[i]
		next := make([]bool, len(s)+1)
		if c == '%' {
			any := false
			for j := 0; j <= len(s); j++ {
				any = sym.Or(any, ok[j])
				next[j] = any
			}
		} else {
			for j := 0; j < len(s); j++ {
				hit := true
				if c != '_' {
					if fold {
						hit = lower(c) == lower(s[j])
					} else {
						hit = c == s[j]
					}
				}
				next[j+1] = sym.And(ok[j], hit)
			}
		}
		ok = next
	}
	return ok[len(s)]
}

// sameVal asserts that a value is the expected one.
func sameVal(got, want interface{}, where string) {
	switch w := want.(type) {
	case nil:
		sym.Assert(got == nil, where+": a value instead of null")
	case bool:
		g, ok := got.(bool)
		sym.Assert(ok, where+": not a Boolean")
		sym.Observe("bool", g)
		sym.Assert(g == w, where+": the Boolean differs from the documented meaning")
	case float64:
		g, ok := got.(float64)
		sym.Assert(ok, where+": not a number")
		sym.Observe("number", g)
		sym.Assert(sym.SameFloat(g, w), where+": the number differs from the documented meaning")
	case string:
		g, ok := got.(string)
		sym.Assert(ok, where+": not a string")
		sym.Observe("string", g)
		sym.Assert(sym.EqStr(g, w), where+": the string differs from the documented meaning")
	case time.Time:
		g, ok := got.(time.Time)
		sym.Assert(ok, where+": not an instant")
		sym.Assert(g.Equal(w), where+": the instant differs from the documented meaning")
	case []interface{}:
		g, ok := got.([]interface{})
		sym.Assert(ok && len(g) == len(w), where+": not an array of that length")
		for i := range w {
			sameVal(g[i], w[i], fmt.Sprintf("%s[%d]", where, i))
		}
	default:
		sym.Assert(sym.TypeName(got) == sym.TypeName(want), where+": a value of another type")
	}
}

// sameRaw asserts that a record value is untouched: same type, same value.
func sameRaw(got, want interface{}, where string) {
	sym.Assert(sym.TypeName(got) == sym.TypeName(want), where+" of the record changed its type")
	if w, ok := want.([]interface{}); ok {
		g := got.([]interface{})
		sym.Assert(len(g) == len(w), where+" of the record changed its length")
		for i := range w {
			sameRaw(g[i], w[i], fmt.Sprintf("%s[%d]", where, i))
		}
		return
	}
	if w, ok := want.(string); ok {
		sym.Assert(sym.EqStr(got.(string), w), where+" of the record changed")
		return
	}
	if f, ok := f64(want); ok {
		g, _ := f64(got)
		sym.Assert(sym.SameFloat(f, g), where+" of the record changed")
		return
	}
	if w, ok := want.(bool); ok {
		sym.Assert(got.(bool) == w, where+" of the record changed")
	}
	if w, ok := want.(time.Time); ok {
		sym.Assert(got.(time.Time).Equal(w), where+" of the record changed")
	}
}

func copyVal(v interface{}) interface{} {
	if a, ok := isArr(v); ok {
		r := make([]interface{}, len(a))
		for i := range a {
			r[i] = copyVal(a[i])
		}
		return r
	}
	return v
}

func names(e *E, m map[string]bool) {
	if e.K == Id {
		m[e.S] = true
	}
	for _, a := range e.A {
		names(a, m)
	}
}

// meaning checks the walker against the documented meaning of e.
func meaning(e *E, r rec) {
	n := parse(e)
	v, err := semantics.Walk(n, r.eval)
	want, bad := spec(e, r)
	if bad {
		isErr(v, err, "an expression without a value gives one")
		if k, ok := err.(tsl.KeyNotFoundError); ok {
			m := map[string]bool{}
			names(e, m)
			_, in := r[k.Key]
			sym.Assert(m[k.Key] && !in, "a key-not-found error names a field that is there")
		}
		sym.Assert(err.Error() != "", "an error without text")
	} else {
		sym.Assert(err == nil, "an expression with a value gives an error")
		sameVal(v, want, "result")
	}
	n.Free()
}
