// Package h holds the harnesses for the v6 module.
package h

import (
	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// E is an expression of the language as the documentation describes it.
type E struct {
	K   Kind
	Op  string // token name of an operator
	Neg bool   // NOT form of an infix operator
	A   []*E   // operands, array elements
	S   string
	F   float64
	B   bool
}

type Kind int

const (
	Num Kind = iota
	Str
	Id
	Bin
	Un
	Date
	Stamp
	Arr
	Boo
	Null
)

func num(f float64) *E          { return &E{K: Num, F: f} }
func text(s string) *E          { return &E{K: Str, S: s} }
func id(s string) *E            { return &E{K: Id, S: s} }
func boo(b bool) *E             { return &E{K: Boo, B: b} }
func date(s string) *E          { return &E{K: Date, S: s} }
func stamp(s string) *E         { return &E{K: Stamp, S: s} }
func null() *E                  { return &E{K: Null} }
func arr(es ...*E) *E           { return &E{K: Arr, A: es} }
func bin(op string, a, b *E) *E { return &E{K: Bin, Op: op, A: []*E{a, b}} }
func un(op string, a *E) *E     { return &E{K: Un, Op: op, A: []*E{a}} }
func between(x, a, b *E) *E     { return bin("K_BETWEEN", x, arr(a, b)) }
func isNull(x *E) *E            { return bin("K_IS", x, null()) }

// emit writes e as tokens, with parentheses around every compound operand.
func emit(e *E) {
	switch e.K {
	case Num:
		sym.Assume(e.F == e.F) // no text denotes NaN
		sym.LexNum("NUMERIC_LITERAL", e.F)
	case Str:
		sym.LexText("STRING_LITERAL", e.S)
	case Id:
		sym.LexText("IDENTIFIER", e.S)
	case Date:
		sym.LexText("DATE", e.S)
	case Stamp:
		sym.LexText("RFC3339", e.S)
	case Boo:
		if e.B {
			sym.Lex("K_TRUE")
		} else {
			sym.Lex("K_FALSE")
		}
	case Null:
		sym.Lex("K_NULL")
	case Arr:
		sym.Lex("LBRACKET")
		for i, a := range e.A {
			if i > 0 {
				sym.Lex("COMMA")
			}
			emit(a)
		}
		sym.Lex("RBRACKET")
	case Un:
		if e.Op == "UMINUS" {
			sym.Lex("MINUS")
		} else {
			sym.Lex(e.Op)
		}
		operand(e.A[0])
	case Bin:
		operand(e.A[0])
		switch {
		case e.Op == "K_IS":
			sym.Lex("K_IS")
			sym.Lex("K_NULL")
		case e.Op == "K_BETWEEN":
			sym.Lex("K_BETWEEN")
			operand(e.A[1].A[0])
			sym.Lex("K_AND")
			operand(e.A[1].A[1])
		default:
			sym.Lex(e.Op)
			operand(e.A[1])
		}
	}
}

func operand(e *E) {
	if e.K == Bin || e.K == Un {
		sym.Lex("LPAREN")
		emit(e)
		sym.Lex("RPAREN")
		return
	}
	emit(e)
}

// parse gives e to the real parser.
func parse(e *E) *tsl.TSLNode {
	sym.LexStart()
	emit(e)
	n := parseToks()
	return n
}

func parseToks() *tsl.TSLNode {
	n, err := tsl.ParseTSL(sym.Text())
	sym.LexStop()
	sym.Assert(err == nil && n != nil, "a well-formed expression is rejected")
	return n
}

var opCode = map[string]tsl.Operator{"K_LIKE": tsl.OpLike, "K_ILIKE": tsl.OpILike, "K_AND": tsl.OpAnd, "K_OR": tsl.OpOr,
	"K_BETWEEN": tsl.OpBetween, "K_IN": tsl.OpIn, "K_IS": tsl.OpIs, "K_NOT": tsl.OpNot, "K_LEN": tsl.OpLen, "K_ANY": tsl.OpAny,
	"K_ALL": tsl.OpAll, "K_SUM": tsl.OpSum, "PLUS": tsl.OpPlus, "MINUS": tsl.OpMinus, "STAR": tsl.OpStar, "SLASH": tsl.OpSlash,
	"PERCENT": tsl.OpPercent, "EQ": tsl.OpEQ, "NE": tsl.OpNE, "LT": tsl.OpLT, "LE": tsl.OpLE, "GT": tsl.OpGT, "GE": tsl.OpGE,
	"REQ": tsl.OpREQ, "RNE": tsl.OpRNE, "UMINUS": tsl.OpUMinus}

// pick chooses one of the options on each path.
func pick(name string, opts ...string) string { return opts[sym.Choose(name, len(opts))] }

// free ASCII string of exactly n bytes
func ascii(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] != 0, s[i] < 0x80))
	}
	return s
}
