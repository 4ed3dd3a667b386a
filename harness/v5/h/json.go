// Code generated by tools/reg.py from harness/v6. DO NOT EDIT.

package h

import "verif/h/sym"

// ---- a reader of JSON text

type jr struct {
	s  string
	i  int
	ok bool
}

func (r *jr) next() byte {
	if r.i >= len(r.s) {
		r.ok = false
		return 0
	}
	c := r.s[r.i]
	r.i++
	return c
}

func (r *jr) skip() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] == '\n' || r.s[r.i] == '\t') {
		r.i++
	}
}

type jnum struct{ text string }
type jobj struct {
	keys []string
	vals []interface{}
}

func (o *jobj) get(k string) (interface{}, bool) {
	for i := range o.keys {
		if o.keys[i] == k {
			return o.vals[i], true
		}
	}
	return nil, false
}

func (r *jr) word(w string) bool {
	if len(r.s)-r.i >= len(w) && r.s[r.i:r.i+len(w)] == w {
		r.i += len(w)
		return true
	}
	r.ok = false
	return false
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (r *jr) str() string {
	var b []byte
	for r.ok {
		c := r.next()
		if c == '"' {
			break
		}
		if c != '\\' {
			b = append(b, c)
			continue
		}
		switch c = r.next(); c {
		case 'n':
			b = append(b, '\n')
		case 't':
			b = append(b, '\t')
		case 'r':
			b = append(b, '\r')
		case 'b':
			b = append(b, '\b')
		case 'f':
			b = append(b, '\f')
		case '"', '\\', '/':
			b = append(b, c)
		case 'u':
			v := 0
			for k := 0; k < 4; k++ {
				h := hexv(r.next())
				if h < 0 {
					r.ok = false
				}
				v = v*16 + h
			}
			b = append(b, string(rune(v))...)
		default:
			r.ok = false
		}
	}
	return string(b)
}

func (r *jr) val() interface{} {
	r.skip()
	if r.i >= len(r.s) || !r.ok {
		r.ok = false
		return nil
	}
	switch c := r.s[r.i]; {
	case c == '"':
		r.i++
		return r.str()
	case c == '{':
		r.i++
		o := &jobj{}
		r.skip()
		if r.i < len(r.s) && r.s[r.i] == '}' {
			r.i++
			return o
		}
		for r.ok {
			r.skip()
			if r.next() != '"' {
				r.ok = false
				break
			}
			k := r.str()
			r.skip()
			if r.next() != ':' {
				r.ok = false
			}
			v := r.val()
			if _, twice := o.get(k); twice {
				r.ok = false
			}
			o.keys, o.vals = append(o.keys, k), append(o.vals, v)
			r.skip()
			c := r.next()
			if c == '}' {
				break
			}
			if c != ',' {
				r.ok = false
			}
		}
		return o
	case c == '[':
		r.i++
		a := []interface{}{}
		r.skip()
		if r.i < len(r.s) && r.s[r.i] == ']' {
			r.i++
			return a
		}
		for r.ok {
			a = append(a, r.val())
			r.skip()
			c := r.next()
			if c == ']' {
				break
			}
			if c != ',' {
				r.ok = false
			}
		}
		return a
	case c == 't':
		r.word("true")
		return true
	case c == 'f':
		r.word("false")
		return false
	case c == 'n':
		r.word("null")
		return nil
	case isDigit(c) || c == '-':
		j := r.i
		for j < len(r.s) && (isDigit(r.s[j]) || r.s[j] == '-' || r.s[j] == '+' || r.s[j] == '.' || r.s[j] == 'e' || r.s[j] == 'E') {
			j++
		}
		t := r.s[r.i:j]
		r.i = j
		return jnum{t}
	}
	r.ok = false
	return nil
}

func isText(v interface{}, s string) bool {
	t, ok := v.(string)
	return ok && sym.EqStr(t, s)
}

func readJSON(s string) interface{} {
	r := &jr{s: s, ok: true}
	v := r.val()
	r.skip()
	sym.Assert(r.ok && r.i == len(r.s), "the JSON form is no JSON")
	return v
}
