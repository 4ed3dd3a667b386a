package h

import (
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
)

// ---- values a record may hold

type rec map[string]interface{}

func (r rec) eval(k string) (interface{}, bool) {
	v, ok := r[k]
	return v, ok
}

func run(e *E, r rec) (interface{}, error) {
	n := parse(e)
	v, err := semantics.Walk(n, r.eval)
	n.Free()
	return v, err
}

const numTypes = 12

// numVal is a number of the k-th numeric Go type.
func numVal(name string, k int) interface{} {
	switch k {
	case 0:
		return sym.Float64(name)
	case 1:
		return sym.Float32(name)
	case 2:
		return sym.Int(name)
	case 3:
		return sym.Int8(name)
	case 4:
		return sym.Int16(name)
	case 5:
		return sym.Int32(name)
	case 6:
		return sym.Int64(name)
	case 7:
		return sym.Uint(name)
	case 8:
		return sym.Uint8(name)
	case 9:
		return sym.Uint16(name)
	case 10:
		return sym.Uint32(name)
	}
	return sym.Uint64(name)
}

// f64 is the double a number converts to.
func f64(v interface{}) (float64, bool) {
	switch u := v.(type) {
	case float64:
		return u, true
	case float32:
		return float64(u), true
	case int:
		return float64(u), true
	case int8:
		return float64(u), true
	case int16:
		return float64(u), true
	case int32:
		return float64(u), true
	case int64:
		return float64(u), true
	case uint:
		return float64(u), true
	case uint8:
		return float64(u), true
	case uint16:
		return float64(u), true
	case uint32:
		return float64(u), true
	case uint64:
		return float64(u), true
	}
	return 0, false
}

// value classes
const (
	cNum = iota
	cStr
	cBool
	cDate
	cNil
	cOther
)

// scalar chooses a record value of any class; short strings, whole-second instants.
func scalar(name string) (interface{}, int) {
	switch sym.Choose(name+".class", 5) {
	case 0:
		return numVal(name, sym.Choose(name+".num", numTypes)), cNum
	case 1:
		return ascii(name, sym.Choose(name+".len", sym.Param("strlen", 2)+1)), cStr
	case 2:
		return sym.Bool(name), cBool
	case 3:
		s := sym.Int64(name)
		sym.Assume(sym.And(s >= -60000000000, s <= 250000000000))
		return time.Unix(s, 0).UTC(), cDate
	}
	return nil, cNil
}

var cmpOps = []string{"EQ", "NE", "LT", "LE", "GT", "GE"}

func cmpNum(op string, a, b float64) bool {
	switch op {
	case "EQ":
		return a == b
	case "NE":
		return !(a == b)
	case "LT":
		return a < b
	case "LE":
		return a <= b
	case "GT":
		return a > b
	}
	return a >= b
}

func cmpTime(op string, a, b time.Time) bool {
	switch op {
	case "EQ":
		return a.Equal(b)
	case "NE":
		return !a.Equal(b)
	case "LT":
		return a.Before(b)
	case "LE":
		return !b.Before(a)
	case "GT":
		return b.Before(a)
	}
	return !a.Before(b)
}

func isBool(v interface{}, err error, want bool, msg string) {
	b, ok := v.(bool)
	sym.Assert(err == nil && ok, msg+": not a Boolean result")
	sym.Observe("result", b)
	sym.Assert(b == want, msg)
}

func isErr(v interface{}, err error, msg string) {
	sym.Assert(err != nil, msg)
	sym.Observe("error", true)
}

// expectCmp checks one comparison result of two values of known classes.
func expectCmp(op string, a, b interface{}, ca, cb int, v interface{}, err error) {
	switch {
	case ca == cNum && cb == cNum:
		x, _ := f64(a)
		y, _ := f64(b)
		isBool(v, err, cmpNum(op, x, y), "numbers compare as float64")
	case ca == cDate && cb == cDate:
		isBool(v, err, cmpTime(op, a.(time.Time), b.(time.Time)), "dates compare as instants")
	case op == "EQ" || op == "NE":
		eq := false
		switch {
		case ca == cStr && cb == cStr:
			eq = a.(string) == b.(string)
		case ca == cBool && cb == cBool:
			eq = a.(bool) == b.(bool)
		case ca == cNil && cb == cNil:
			eq = true
		}
		isBool(v, err, eq == (op == "EQ"), "equality within a class, inequality across classes")
	default:
		isErr(v, err, "ordering of values that are not both numbers or both dates is an error")
	}
}

// H_C20_fields compares two record fields of any types.
func H_C20_fields() {
	op := pick("op", cmpOps...)
	a, ca := scalar("a")
	b, cb := scalar("b")
	v, err := run(bin(op, id("a"), id("b")), rec{"a": a, "b": b})
	expectCmp(op, a, b, ca, cb, v, err)
}

// lit chooses a literal and its value.
func lit(name string) (*E, interface{}, int) {
	switch sym.Choose(name+".lit", 3) {
	case 0:
		f := sym.Float64(name)
		sym.Assume(f == f)
		return num(f), f, cNum
	case 1:
		s := ascii(name, sym.Choose(name+".len", sym.Param("strlen", 2)+1))
		notDate(s)
		return text(s), s, cStr
	}
	b := sym.Bool(name)
	if b {
		return boo(true), true, cBool
	}
	return boo(false), false, cBool
}

// notDate excludes contents the scanner classifies as a timestamp.
func notDate(s string) {
	t, z := false, false
	for i := 0; i < len(s); i++ {
		t = sym.Or(t, s[i] == 'T')
		z = sym.Or(z, sym.Or(s[i] == 'Z', s[i] == '+'))
	}
	sym.Assume(sym.Not(sym.And(t, z)))
}

// H_C20_literal compares a field with a literal, on either side.
func H_C20_literal() {
	op := pick("op", cmpOps...)
	a, ca := scalar("a")
	e, b, cb := lit("b")
	if sym.Choose("swap", 2) == 0 {
		v, err := run(bin(op, id("a"), e), rec{"a": a})
		expectCmp(op, a, b, ca, cb, v, err)
	} else {
		v, err := run(bin(op, e, id("a")), rec{"a": a})
		expectCmp(op, b, a, cb, ca, v, err)
	}
}

// dateParts is a date or timestamp with one free digit, in the k-th of its
// fields; the field after it is low or high.
func dateParts(name string, k int, high bool, withTime bool) (s string, key string) {
	f := []string{"20", "04", "14", "10", "30", "05"}
	d := sym.Str(name+".digit", 1)
	sym.Assume(sym.And(d[0] >= '1', d[0] <= '9'))
	if k == 0 {
		f[0] = "2" + d
	} else if k < 3 {
		f[k] = "0" + d
	} else if k == 3 {
		f[k] = "0" + d
	} else {
		f[k] = "1" + d
	}
	if k+1 < len(f) {
		f[k+1] = "02"
		if high {
			f[k+1] = "11"
		}
	}
	s = "20" + f[0] + "-" + f[1] + "-" + f[2]
	if !withTime {
		return s, s + "T00:00:00Z"
	}
	s += "T" + f[3] + ":" + f[4] + ":" + f[5] + "Z"
	return s, s
}

// H_C20_dates: dates written as text are ordered like their text.
func H_C20_dates() {
	k, high := sym.Choose("field", 6), sym.Choose("high", 2) == 1
	op := pick("op", cmpOps...)
	a, ka := dateParts("a", k, high, k > 2 || sym.Choose("a.time", 2) == 1)
	b, kb := dateParts("b", k, !high, k > 2 || sym.Choose("b.time", 2) == 1)
	r := rec{}
	form := func(name, s string) *E {
		switch sym.Choose(name, 2) {
		case 0:
			if len(s) > 10 {
				return stamp(s)
			}
			return date(s)
		}
		r[name] = s
		return id(name)
	}
	v, err := run(bin(op, form("a", a), form("b", b)), r)
	lt, eq := false, true
	for i := 0; i < len(ka); i++ {
		lt = sym.Or(lt, sym.And(eq, ka[i] < kb[i]))
		eq = sym.And(eq, ka[i] == kb[i])
	}
	want := eq
	switch op {
	case "NE":
		want = sym.Not(eq)
	case "LT":
		want = lt
	case "LE":
		want = sym.Or(lt, eq)
	case "GT":
		want = sym.Not(sym.Or(lt, eq))
	case "GE":
		want = sym.Not(lt)
	}
	isBool(v, err, want, "dates compare as instants")
}

// H_C20_mixed: instants against date text, time zones included.
func H_C20_mixed() {
	op := pick("op", cmpOps...)
	s := sym.Int64("t")
	sym.Assume(sym.And(s >= -60000000000, s <= 250000000000))
	r := rec{"t": time.Unix(s, 0).UTC()}
	d := pick("d", "2020-01-02", "2020-02-29T03:04:05Z", "2020-01-02T00:00:00+02:00", "1999-12-31T23:59:59-07:30", "2020-1-2", "2020-02-30", "20200102", "noon")
	var e *E
	if len(d) > 10 {
		e = stamp(d)
	} else {
		e = date(d)
	}
	if sym.Choose("field", 2) == 1 || len(d) < 10 {
		r["d"] = d
		e = id("d")
	}
	if sym.Choose("swap", 2) == 0 {
		meaning(bin(op, id("t"), e), r)
	} else {
		meaning(bin(op, e, id("t")), r)
	}
}

var _ = tsl.OpAnd
