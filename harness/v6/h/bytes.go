package h

import (
	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// ---- the documented lexical rules, independent of the generated scanner

func isDigit(b byte) bool  { return b >= '0' && b <= '9' }
func isLetter(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func lower(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}

var keywords = []struct {
	word string
	code int
}{
	{"like", tKLIKE}, {"ilike", tKILIKE}, {"and", tKAND}, {"or", tKOR}, {"between", tKBETWEEN}, {"in", tKIN}, {"is", tKIS},
	{"null", tKNULL}, {"not", tKNOT}, {"true", tKTRUE}, {"false", tKFALSE}, {"len", tKLEN}, {"any", tKANY}, {"all", tKALL}, {"sum", tKSUM},
}

// specLex splits a text into tokens; ok is false when some part is no token,
// and the tokens before it are returned.
func specLex(s string) (toks []Tok, ok bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			return nil, false // the NUL byte is no text
		}
	}
	i := 0
	for i < len(s) {
		c := s[i]
		if c == ' ' || c >= 9 && c <= 13 {
			i++
			continue
		}
		switch {
		case isLetter(c) || c == '_':
			j := identEnd(s, i)
			w := s[i:j]
			code := tIDENTIFIER
			for _, k := range keywords {
				if sameWord(w, k.word) {
					code = k.code
					break
				}
			}
			if code == tIDENTIFIER {
				toks = append(toks, Tok{Code: code, Text: w})
			} else {
				toks = append(toks, Tok{Code: code})
			}
			i = j
		case isDigit(c) || (c == '+' || c == '-') && i+1 < len(s) && isDigit(s[i+1]):
			j, code := numberEnd(s, i)
			t := Tok{Code: code, Text: s[i:j]}
			if code == tNUMERICLITERAL {
				t.F = numberValue(s[i:j])
			}
			toks = append(toks, t)
			i = j
		case c == '\'' || c == '"' || c == '`':
			c = sym.Concrete(c)
			j := i + 1
			var b []byte
			for {
				if j >= len(s) {
					return toks, false
				}
				if s[j] == c {
					break
				}
				if s[j] == '\\' {
					// a backslash takes the next character, but not a newline
					if j+1 >= len(s) || s[j+1] == '\n' {
						return toks, false
					}
					j++
					b = append(b, unescape(s[j]))
				} else {
					b = append(b, s[j])
				}
				j++
			}
			toks = append(toks, Tok{Code: textClass(b), Text: string(b)})
			i = j + 1
		default:
			code, n := opAt(s, i)
			if n == 0 {
				return toks, false
			}
			toks = append(toks, Tok{Code: code})
			i += n
		}
	}
	return toks, true
}

func unescape(c byte) byte {
	switch c {
	case 'n':
		return '\n'
	case 't':
		return '\t'
	case 'r':
		return '\r'
	case 'b':
		return '\b'
	case 'f':
		return '\f'
	}
	return c
}

// textClass is the kind of quoted text: text shaped like a date is a date.
func textClass(b []byte) int {
	if len(b) == 10 && b[4] == '-' && b[7] == '-' {
		return tDATE
	}
	t, z := false, false
	for _, c := range b {
		if c == 'T' {
			t = true
		}
		if c == 'Z' || c == '+' {
			z = true
		}
	}
	if t && z {
		return tRFC3339
	}
	return tSTRINGLITERAL
}

func identPart(c byte) bool {
	return isLetter(c) || isDigit(c) || c == '_' || c == '.' || c == '/'
}

// identEnd is the end of the identifier starting at i: word characters and
// whole bracketed suffixes.
func identEnd(s string, i int) int {
	j := i + 1
	for j < len(s) {
		if identPart(s[j]) {
			j++
			continue
		}
		if s[j] != '[' {
			break
		}
		k := j + 1
		if k < len(s) && s[k] == '*' {
			k++
		} else {
			for k < len(s) && (identPart(s[k]) || s[k] == '-') {
				k++
			}
		}
		if k == j+1 || k >= len(s) || s[k] != ']' {
			break
		}
		j = k + 1
	}
	return j
}

func sameWord(w, k string) bool {
	if len(w) != len(k) {
		return false
	}
	for i := 0; i < len(w); i++ {
		if lower(w[i]) != k[i] {
			return false
		}
	}
	return true
}

func digits(s string, i int) int {
	for i < len(s) && isDigit(s[i]) {
		i++
	}
	return i
}

func nDigits(s string, i, n int) bool {
	if i+n > len(s) {
		return false
	}
	for k := 0; k < n; k++ {
		if !isDigit(s[i+k]) {
			return false
		}
	}
	return true
}

// dateEnd is the end of YYYY-MM-DD at i, or 0.
func dateEnd(s string, i int) int {
	if nDigits(s, i, 4) && i+4 < len(s) && s[i+4] == '-' && nDigits(s, i+5, 2) && i+7 < len(s) && s[i+7] == '-' && nDigits(s, i+8, 2) {
		return i + 10
	}
	return 0
}

// stampEnd is the end of the RFC3339 timestamp at i, or 0.
func stampEnd(s string, i int) int {
	j := dateEnd(s, i)
	if j == 0 || j >= len(s) || s[j] != 'T' {
		return 0
	}
	j++
	if !(nDigits(s, j, 2) && j+2 < len(s) && s[j+2] == ':' && nDigits(s, j+3, 2) && j+5 < len(s) && s[j+5] == ':' && nDigits(s, j+6, 2)) {
		return 0
	}
	j += 8
	if j < len(s) && s[j] == '.' {
		k := digits(s, j+1)
		if k == j+1 {
			return 0
		}
		j = k
	}
	if j < len(s) && s[j] == 'Z' {
		return j + 1
	}
	if j < len(s) && (s[j] == '+' || s[j] == '-') && nDigits(s, j+1, 2) && j+3 < len(s) && s[j+3] == ':' && nDigits(s, j+4, 2) {
		return j + 6
	}
	return 0
}

func isSuffix(c byte) bool {
	switch lower(c) {
	case 'k', 'm', 'g', 't', 'p':
		return true
	}
	return false
}

// numberEnd is the end and kind of the longest number, date or timestamp at i.
func numberEnd(s string, i int) (int, int) {
	if e := stampEnd(s, i); e > 0 {
		return e, tRFC3339
	}
	if e := dateEnd(s, i); e > 0 {
		return e, tDATE
	}
	j := i
	if s[j] == '+' || s[j] == '-' {
		j++
	}
	j = digits(s, j)
	if j < len(s) && s[j] == '.' {
		j = digits(s, j+1)
	}
	if j < len(s) && lower(s[j]) == 'e' {
		k := j + 1
		if k < len(s) && (s[k] == '+' || s[k] == '-') {
			k++
		}
		if e := digits(s, k); e > k {
			return e, tNUMERICLITERAL
		}
	}
	if j < len(s) && isSuffix(s[j]) {
		j++
		if j < len(s) && lower(s[j]) == 'i' {
			j++
		}
	}
	return j, tNUMERICLITERAL
}

// numberValue is the documented value of a number text.
func numberValue(t string) float64 {
	n := len(t)
	base := 1000.0
	if n > 0 && lower(t[n-1]) == 'i' {
		base = 1024
		n--
	}
	pow := 0
	if n > 0 {
		switch lower(t[n-1]) {
		case 'k':
			pow = 1
		case 'm':
			pow = 2
		case 'g':
			pow = 3
		case 't':
			pow = 4
		case 'p':
			pow = 5
		}
	}
	if pow > 0 {
		n--
	}
	m := 1.0
	for i := 0; i < pow; i++ {
		m *= base
	}
	v := sym.Strtod(t[:n])
	if pow == 0 {
		return v
	}
	return v * m
}

func opAt(s string, i int) (int, int) {
	d := byte(0)
	if i+1 < len(s) {
		d = s[i+1]
	}
	switch s[i] {
	case '<':
		if d == '=' {
			return tLE, 2
		}
		if d == '>' {
			return tNE, 2
		}
		return tLT, 1
	case '>':
		if d == '=' {
			return tGE, 2
		}
		return tGT, 1
	case '!':
		if d == '=' {
			return tNE, 2
		}
	case '~':
		if d == '=' {
			return tREQ, 2
		}
		if d == '!' {
			return tRNE, 2
		}
	case '=':
		return tEQ, 1
	case '(':
		return tLPAREN, 1
	case ')':
		return tRPAREN, 1
	case ',':
		return tCOMMA, 1
	case '+':
		return tPLUS, 1
	case '-':
		return tMINUS, 1
	case '*':
		return tSTAR, 1
	case '/':
		return tSLASH, 1
	case '%':
		return tPERCENT, 1
	case '[':
		return tLBRACKET, 1
	case ']':
		return tRBRACKET, 1
	}
	return 0, 0
}

// ---- byte-level runs of the real scanner and parser

// textRun parses the text and compares the outcome with the documented grammar.
func textRun(s string, checkTree, checkErr, checkMem bool) {
	base := liveAfterWarmup(checkMem)
	n, err := tsl.ParseTSL(s)
	if checkTree {
		sym.Assert((n == nil) != (err == nil), "neither a tree nor an error, or both")
		toks, ok := specLex(s)
		var e *E
		if ok {
			e, ok, _ = oracleParse(toks)
		}
		if ok {
			sym.Cover("accepted")
			sym.Assert(err == nil, "a well-formed expression is rejected")
			sameTree(n, e, "tree")
		} else {
			sym.Cover("rejected")
			sym.Assert(err != nil, "an input that is no expression is accepted")
		}
		sym.Observe("accepted", err == nil)
	}
	if checkErr && err != nil {
		sym.Cover("rejected")
		checkError(n, err, s)
	}
	if n != nil {
		n.Free()
	}
	if checkMem {
		sym.Assert(sym.LiveBlocks() == base, "native memory is left allocated after the call")
	}
}

func checkError(n *tsl.TSLNode, err error, s string) {
	sym.Assert(n == nil, "an error and a tree")
	se, ok := err.(*tsl.SyntaxError)
	sym.Assert(ok && se != nil, "the error is no *SyntaxError")
	sym.Assert(se.Message != "", "the error has no message")
	sym.Assert(sym.EqStr(se.Input, s), "the error does not carry the input")
	sym.Assert(se.Position >= 0 && se.Position <= len(s), "the error position lies outside the input")
	sym.Observe("position", se.Position)
	m := err.Error()
	sym.Assert(len(m) > len(s), "the error text is cut")
}

// oneOf restricts each byte of a free text to an alphabet.
func oneOf(s, alphabet string) string {
	for i := 0; i < len(s); i++ {
		in := false
		for k := 0; k < len(alphabet); k++ {
			in = sym.Or(in, s[i] == alphabet[k])
		}
		sym.Assume(in)
	}
	return s
}

// upTo is a free text of up to the given length.
func upTo(name string, def int) string {
	return sym.Str(name, sym.Choose(name+".len", sym.Param(name, def)+1))
}

const (
	what = 1 << iota
	errs
	mem
)

// kinds of texts
func bytesText() string { return upTo("in", 3) }

// alphaText: longer texts over characters of each lexical kind.
func alphaText() string {
	s := sym.Str("alpha", sym.Param("alpha", 5))
	return oneOf(s, "a1'\\-=( ]#")
}

// tailText: a complete expression followed by anything.
func tailText() string {
	return pick("head", "a = 1", "a = 'b'", "[a]", "(a)", "a is null") + upTo("tail", 2)
}

// gapText: anything between two operands.
func gapText() string { return "a" + upTo("gap", 2) + "b" }

// quoteText: quoted text with free contents.
func quoteText() string {
	q := pick("quote", "'", "\"", "`")
	return q + sym.Str("body", sym.Choose("body.len", sym.Param("body", 3)+1)) + q
}

// wordText: words of free letters, digits and identifier characters.
func wordText() string {
	s := sym.Str("word", 1+sym.Choose("word.len", sym.Param("word", 7)))
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.Or(s[i] >= 'a' && s[i] <= 'z', s[i] >= 'A' && s[i] <= 'Z'))
	}
	return s
}

// idText: identifiers with indexes and paths.
func idText() string {
	s := sym.Str("id", 1+sym.Choose("id.len", sym.Param("id", 4)))
	return "x" + oneOf(s, "a0_./-[]* ")
}

// numText: number-like texts.
func numText() string {
	s := sym.Str("num", 1+sym.Choose("num.len", sym.Param("num", 4)))
	return oneOf(s, "0123456789+-.eEkKmMgGtTpPiI")
}

// dateText: a date or timestamp with a free byte anywhere and one after it.
func dateText() string {
	f := pick("form", "2019-10-28", "2019-10-28T13:24:59Z", "2019-10-28T13:24:59.25Z", "2019-10-28T13:24:59+04:30", "2019-10-28T13:24:59.1-04:30")
	hole := sym.Choose("hole", len(f)+1)
	b := f[:hole] + sym.Str("hole", 1)
	if hole < len(f) {
		b += f[hole+1:]
	}
	return b + sym.Str("after", sym.Choose("after.len", sym.Param("after", 0)+1))
}

func textCheck(s string, w int) { textRun(s, w&what != 0, w&errs != 0, w&mem != 0) }

func H_C02_bytes() { textCheck(bytesText(), what) }
func H_C02_alpha() { textCheck(alphaText(), what) }
func H_C02_tail()  { textCheck(tailText(), what) }
func H_C03_num()   { textCheck(numText(), what) }
func H_C03_in()    { textCheck("a="+numText(), what) }
func H_C04_quote() { textCheck(quoteText(), what) }
func H_C04_id()    { textCheck(idText(), what) }
func H_C05_word()  { textCheck(wordText(), what) }
func H_C05_gap()   { textCheck(gapText(), what) }
func H_C05_date()  { textCheck(dateText(), what) }
func H_C06_bytes() { textCheck(bytesText(), mem) }
func H_C06_alpha() { textCheck(alphaText(), mem) }
func H_C06_quote() { textCheck(quoteText(), mem) }
func H_C06_num()   { textCheck(numText(), mem) }
func H_C07_bytes() { textCheck(bytesText(), errs) }
func H_C07_alpha() { textCheck(alphaText(), errs) }
func H_C07_tail()  { textCheck(tailText(), errs) }
