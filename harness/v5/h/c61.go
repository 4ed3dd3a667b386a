package h

import (
	"math"
	"time"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

// H_C61_string: a string literal denotes its text with doubled quotes undone.
func H_C61_string() {
	check(cmp(ident("a"), "=", strLit("s", sym.Choose("len", sym.Param("strlen", 4)+1))))
}

// H_C61_ident: a plain identifier is its text; a quoted one loses its quotes in
// v5 and keeps them in v4, where up to three names make a dotted column.
func H_C61_ident() {
	e := ident("a")
	if sym.Choose("quoted", 2) == 1 {
		e = quotedIdent("a", sym.Choose("len", sym.Param("strlen", 4)+1))
	}
	if !v5 {
		for i := sym.Choose("dots", 3); i > 0; i-- {
			f := ident("b")
			if sym.Choose("quoted", 2) == 1 {
				f = quotedIdent("b", 1)
			}
			e = E{cat(e.t, w("."), f.t), leaf(tsl.IdentOp, e.n.Left.(string)+"."+f.n.Left.(string))}
		}
	}
	check(isNull(e, false))
}

var suffixes = []string{"", "K", "M", "G", "T", "P"}

// H_C61_number: sign, digits and a suffix of 1024 to the k.
func H_C61_number() {
	f := posNum("f")
	k := 0
	if v5 {
		k = sym.Choose("suffix", len(suffixes))
	}
	text := sym.NumText(f) + suffixes[k]
	if k > 0 {
		sym.Assume(sym.And(f <= 1e15, f == math.Trunc(f))) // a suffix follows digits only
		if sym.Choose("i", 2) == 1 {
			text += "i"
		}
	}
	mult := 1.0
	for i := 0; i < k; i++ {
		mult *= 1024
	}
	want := f * mult
	t := []tok{numTok(text)}
	switch sign := pick("sign", "", "-", "+"); sign {
	case "-":
		want = -want
		t = cat(w("-"), t)
	case "+":
		t = cat(w("+"), t)
	}
	check(cmp(ident("a"), "<", E{t, leaf(tsl.NumberOp, want)}))
}

// digits is a text of n free digits.
func digits(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] >= '0', s[i] <= '9'))
	}
	return s
}

func dec(s string) int {
	v := 0
	for i := 0; i < len(s); i++ {
		v = v*10 + int(s[i]-'0')
	}
	return v
}

// H_C61_digits: every digit of a numeral counts.
func H_C61_digits() {
	n := 1 + sym.Choose("len", sym.Param("digits", 4))
	s := digits("d", n)
	want := float64(dec(s))
	if v5 && sym.Choose("form", 2) == 1 {
		s += "Ki"
		want *= 1024
	}
	check(cmp(ident("a"), "=", E{[]tok{numTok(s)}, leaf(tsl.NumberOp, want)}))
}

// H_C61_bool: TRUE and FALSE in any case.
func H_C61_bool() {
	if !v5 {
		return
	}
	word, code, val := "true", tTrue, true
	if sym.Choose("word", 2) == 1 {
		word, code, val = "false", tFalse, false
	}
	s := sym.Str("s", len(word))
	for i := 0; i < len(word); i++ {
		sym.Assume(sym.Or(s[i] == word[i], s[i] == word[i]-32))
	}
	check(cmp(ident("a"), "=", E{[]tok{{code, s}}, leaf(booleanOp, val)}))
}

// days from the civil date, by the rule of the Gregorian calendar
func days(y, m, d int) int64 {
	y += 400 // a whole cycle, so that no year is negative
	if m <= 2 {
		y--
		m += 12
	}
	return int64(365*y+y/4-y/100+y/400+(153*(m-3)+2)/5+d-1) - 719468 - 146097
}

func monthLen(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// H_C61_date: a short date is its midnight in UTC; a day that is not in the calendar is an error.
func H_C61_date() {
	if !v5 {
		return
	}
	y := []string{"2020", "2021", "1900", "2000", "0001", "9999", "1969", "0000"}[sym.Choose("year", 8)]
	m := digits("m", 2)
	d := digits("d", 2)
	e := cmp(ident("a"), "=", E{[]tok{{tDate, y + "-" + m + "-" + d}}, tsl.Node{}})
	n, err := parseToks(e.t)
	mv, dv := int(sym.Concrete(dec(m))), dec(d)
	if mv < 1 || mv > 12 || sym.Fork(sym.Or(dv < 1, dv > monthLen(dec(y), mv))) {
		sym.Assert(err != nil, "a date that is not in the calendar is accepted")
		return
	}
	sym.Assert(err == nil, "a date is rejected")
	t, ok := n.Right.(tsl.Node).Left.(time.Time)
	sym.Assert(ok && n.Right.(tsl.Node).Func == dateOp, "a date is no date")
	sym.Assert(t.Unix() == days(dec(y), mv, dv)*86400, "a date is another day")
	sym.Assert(t.Nanosecond() == 0, "a date has a fraction")
}

// H_C61_stamp: a timestamp is the instant written; one part is free at a time.
func H_C61_stamp() {
	if !v5 {
		return
	}
	h, m, s, frac, zone := "23", "59", "58", "", "Z"
	nano, off := 0, 0
	switch sym.Choose("part", 6) {
	case 0:
		h = digits("h", 2)
		sym.Assume(dec(h) < 24)
	case 1:
		m = digits("mi", 2)
		sym.Assume(dec(m) < 60)
	case 2:
		s = digits("s", 2)
		sym.Assume(dec(s) < 60)
	case 3:
		n := 1 + sym.Choose("len", 9)
		free := n
		if free > 3 {
			free = 3
		}
		at := sym.Choose("at", n-free+1)
		f := "123456789"[:at] + digits("f", free)
		f += "123456789"[len(f):n]
		frac = "." + f
		nano = dec(f)
		for i := n; i < 9; i++ {
			nano *= 10
		}
	case 4:
		oh := digits("oh", 2)
		sym.Assume(dec(oh) < 24)
		sign := pick("sign", "+", "-")
		zone = sign + oh + ":30"
		off = dec(oh)*3600 + 1800
		if sign == "-" {
			off = -off
		}
	case 5:
		om := digits("om", 2)
		sym.Assume(dec(om) < 60)
		zone = "-05:" + om
		off = -(5*3600 + dec(om)*60)
	}
	text := "2020-02-29T" + h + ":" + m + ":" + s + frac + zone
	n, err := parseToks(cmp(ident("a"), "=", E{[]tok{{tStamp, text}}, tsl.Node{}}).t)
	sym.Assert(err == nil, "a timestamp is rejected")
	t, ok := n.Right.(tsl.Node).Left.(time.Time)
	sym.Assert(ok && n.Right.(tsl.Node).Func == dateOp, "a timestamp is no date")
	want := days(2020, 2, 29)*86400 + int64(dec(h)*3600+dec(m)*60+dec(s)-off)
	sym.Assert(t.Unix() == want, "a timestamp is another instant")
	sym.Assert(t.Nanosecond() == nano, "a timestamp has another fraction")
}

// H_C61_bad: numerals and times out of range are errors.
func H_C61_bad() {
	var e E
	k := 1
	if v5 {
		k = 4
	}
	switch sym.Choose("what", k) {
	case 0:
		e = E{[]tok{numTok("1e" + pick("exp", "309", "999", "400"))}, tsl.Node{}}
	case 1:
		e = E{[]tok{{tStamp, "2020-02-" + pick("day", "30", "00", "31") + "T00:00:00Z"}}, tsl.Node{}}
	case 2:
		e = E{[]tok{{tStamp, "2020-02-01T" + pick("time", "24:00:00", "00:60:00", "00:00:60", "99:99:99") + "Z"}}, tsl.Node{}}
	case 3:
		e = E{[]tok{{tStamp, "2020-" + pick("month", "00", "13", "99") + "-01T00:00:00Z"}}, tsl.Node{}}
	}
	_, err := parseToks(cmp(ident("a"), "=", e).t)
	sym.Assert(err != nil, "a literal without a value is accepted")
}
