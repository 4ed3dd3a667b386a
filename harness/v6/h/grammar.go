package h

import "verif/h/sym"

// token codes of the scanner
var (
	tKOR            = sym.TokenCode("K_OR")
	tKAND           = sym.TokenCode("K_AND")
	tEQ             = sym.TokenCode("EQ")
	tNE             = sym.TokenCode("NE")
	tLT             = sym.TokenCode("LT")
	tLE             = sym.TokenCode("LE")
	tGT             = sym.TokenCode("GT")
	tGE             = sym.TokenCode("GE")
	tREQ            = sym.TokenCode("REQ")
	tRNE            = sym.TokenCode("RNE")
	tKIS            = sym.TokenCode("K_IS")
	tKNOT           = sym.TokenCode("K_NOT")
	tKNULL          = sym.TokenCode("K_NULL")
	tKLIKE          = sym.TokenCode("K_LIKE")
	tKILIKE         = sym.TokenCode("K_ILIKE")
	tKIN            = sym.TokenCode("K_IN")
	tKBETWEEN       = sym.TokenCode("K_BETWEEN")
	tPLUS           = sym.TokenCode("PLUS")
	tMINUS          = sym.TokenCode("MINUS")
	tSTAR           = sym.TokenCode("STAR")
	tSLASH          = sym.TokenCode("SLASH")
	tPERCENT        = sym.TokenCode("PERCENT")
	tKLEN           = sym.TokenCode("K_LEN")
	tKANY           = sym.TokenCode("K_ANY")
	tKALL           = sym.TokenCode("K_ALL")
	tKSUM           = sym.TokenCode("K_SUM")
	tLPAREN         = sym.TokenCode("LPAREN")
	tRPAREN         = sym.TokenCode("RPAREN")
	tLBRACKET       = sym.TokenCode("LBRACKET")
	tRBRACKET       = sym.TokenCode("RBRACKET")
	tCOMMA          = sym.TokenCode("COMMA")
	tNUMERICLITERAL = sym.TokenCode("NUMERIC_LITERAL")
	tSTRINGLITERAL  = sym.TokenCode("STRING_LITERAL")
	tIDENTIFIER     = sym.TokenCode("IDENTIFIER")
	tDATE           = sym.TokenCode("DATE")
	tRFC3339        = sym.TokenCode("RFC3339")
	tKTRUE          = sym.TokenCode("K_TRUE")
	tKFALSE         = sym.TokenCode("K_FALSE")
)

var opName = map[int]string{
	tKOR:      "K_OR",
	tKAND:     "K_AND",
	tEQ:       "EQ",
	tNE:       "NE",
	tLT:       "LT",
	tLE:       "LE",
	tGT:       "GT",
	tGE:       "GE",
	tREQ:      "REQ",
	tRNE:      "RNE",
	tKIS:      "K_IS",
	tKNOT:     "K_NOT",
	tKLIKE:    "K_LIKE",
	tKILIKE:   "K_ILIKE",
	tKIN:      "K_IN",
	tKBETWEEN: "K_BETWEEN",
	tPLUS:     "PLUS",
	tMINUS:    "MINUS",
	tSTAR:     "STAR",
	tSLASH:    "SLASH",
	tPERCENT:  "PERCENT",
	tKLEN:     "K_LEN",
	tKANY:     "K_ANY",
	tKALL:     "K_ALL",
	tKSUM:     "K_SUM",
}

// The documented grammar, as a recursive-descent parser over token names that
// is independent of the generated one. It is the oracle of the parser checks.

type Tok struct {
	Code int
	Text string // spelling of literals and identifiers
	F    float64
}

type oracle struct {
	toks []Tok
	pos  int
	bad  bool
}

func (o *oracle) peek() int {
	if o.pos < len(o.toks) {
		return o.toks[o.pos].Code
	}
	return -1
}

func (o *oracle) take(code int) bool {
	if !o.bad && o.peek() == code {
		o.pos++
		return true
	}
	return false
}

func (o *oracle) need(code int) {
	if !o.take(code) {
		o.bad = true
	}
}

// oracleParse returns the tree of the tokens, whether they are a sentence, and
// the position of the first token no sentence can continue with.
func oracleParse(toks []Tok) (*E, bool, int) {
	o := &oracle{toks: toks}
	e := o.or()
	if !o.bad && o.pos < len(toks) {
		o.bad = true
	}
	return e, !o.bad, o.pos
}

func (o *oracle) or() *E {
	l := o.and()
	for o.take(tKOR) {
		l = bin("K_OR", l, o.and())
	}
	return l
}

func (o *oracle) and() *E {
	l := o.comparison()
	for o.take(tKAND) {
		l = bin("K_AND", l, o.comparison())
	}
	return l
}

func isCmp(n int) bool {
	switch n {
	case tEQ, tNE, tLT, tLE, tGT, tGE, tREQ, tRNE:
		return true
	}
	return false
}

func (o *oracle) comparison() *E {
	l := o.additive()
	for !o.bad {
		n := o.peek()
		switch {
		case isCmp(n):
			o.pos++
			l = bin(opName[n], l, o.additive())
		case n == tKIS:
			o.pos++
			neg := o.take(tKNOT)
			o.need(tKNULL)
			l = isNull(l)
			if neg {
				l = un("K_NOT", l)
			}
		case n == tKNOT || n == tKLIKE || n == tKILIKE || n == tKIN || n == tKBETWEEN:
			neg := o.take(tKNOT)
			switch op := o.peek(); op {
			case tKLIKE, tKILIKE, tKIN:
				o.pos++
				l = bin(opName[op], l, o.additive())
			case tKBETWEEN:
				o.pos++
				lo := o.additive()
				o.need(tKAND)
				hi := o.additive()
				l = between(l, lo, hi)
			default:
				o.bad = true
			}
			if neg {
				l = un("K_NOT", l)
			}
		default:
			return l
		}
	}
	return l
}

func (o *oracle) additive() *E {
	l := o.multiplicative()
	for !o.bad {
		n := o.peek()
		if n != tPLUS && n != tMINUS {
			break
		}
		o.pos++
		l = bin(opName[n], l, o.multiplicative())
	}
	return l
}

func (o *oracle) multiplicative() *E {
	l := o.not()
	for !o.bad {
		n := o.peek()
		if n != tSTAR && n != tSLASH && n != tPERCENT {
			break
		}
		o.pos++
		l = bin(opName[n], l, o.not())
	}
	return l
}

func (o *oracle) not() *E {
	if !o.bad {
		switch n := o.peek(); n {
		case tKNOT, tKLEN, tKANY, tKALL, tKSUM:
			o.pos++
			return un(opName[n], o.not())
		}
	}
	return o.unary()
}

func (o *oracle) unary() *E {
	if o.bad {
		return nil
	}
	if o.pos >= len(o.toks) {
		o.bad = true
		return nil
	}
	t := o.toks[o.pos]
	switch t.Code {
	case tMINUS:
		o.pos++
		return un("UMINUS", o.unary())
	case tPLUS:
		o.pos++
		return o.unary()
	case tLPAREN:
		o.pos++
		e := o.or()
		o.need(tRPAREN)
		return e
	case tLBRACKET:
		o.pos++
		a := arr()
		for !o.bad && o.peek() != tRBRACKET {
			a.A = append(a.A, o.or())
			if !o.take(tCOMMA) {
				break
			}
		}
		o.need(tRBRACKET)
		return a
	case tNUMERICLITERAL:
		o.pos++
		return &E{K: Num, F: t.F, S: t.Text}
	case tSTRINGLITERAL:
		o.pos++
		return text(t.Text)
	case tIDENTIFIER:
		o.pos++
		return id(t.Text)
	case tDATE:
		o.pos++
		return date(t.Text)
	case tRFC3339:
		o.pos++
		return stamp(t.Text)
	case tKTRUE:
		o.pos++
		return boo(true)
	case tKFALSE:
		o.pos++
		return boo(false)
	}
	o.bad = true
	return nil
}
