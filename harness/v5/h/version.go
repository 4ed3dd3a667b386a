package h

import (
	"github.com/yaacov/tree-search-language/v5/cmd/model"
	"github.com/yaacov/tree-search-language/v5/pkg/parser"
	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

// What differs between the two ANTLR based versions; the other files of v4 are
// copies of those here (tools/reg.py).
const (
	v5        = true
	booleanOp = tsl.BooleanOp
	dateOp    = tsl.DateOp

	tIdent  = parser.TSLLexerIDENTIFIER
	tNumber = parser.TSLLexerNUMERIC_LITERAL
	tString = parser.TSLLexerSTRING_LITERAL
	tTrue   = parser.TSLLexerK_TRUE
	tFalse  = parser.TSLLexerK_FALSE
	tDate   = parser.TSLLexerDATE
	tStamp  = parser.TSLLexerRFC3339
	tTime   = parser.TSLLexerTIME
	tDot    = -3 // no token of its own

	mathFinding = "K-v5-math-grouping"
)

// codes of the tokens that are spelled in one way only
var fixed = map[string]int{
	"(": parser.TSLLexerT__0, ",": parser.TSLLexerT__1, ")": parser.TSLLexerT__2,
	"<": parser.TSLLexerT__3, "<=": parser.TSLLexerT__4, ">": parser.TSLLexerT__5, ">=": parser.TSLLexerT__6,
	"=": parser.TSLLexerT__7, "!=": parser.TSLLexerT__8, "<>": parser.TSLLexerT__9,
	"~=": parser.TSLLexerT__10, "~!": parser.TSLLexerT__11,
	"*": parser.TSLLexerT__12, "/": parser.TSLLexerT__13, "%": parser.TSLLexerT__14,
	"+": parser.TSLLexerT__15, "-": parser.TSLLexerT__16,
	"like": parser.TSLLexerK_LIKE, "ilike": parser.TSLLexerK_ILIKE, "and": parser.TSLLexerK_AND, "or": parser.TSLLexerK_OR,
	"between": parser.TSLLexerK_BETWEEN, "in": parser.TSLLexerK_IN, "is": parser.TSLLexerK_IS, "null": parser.TSLLexerK_NULL,
	"not": parser.TSLLexerK_NOT, "true": parser.TSLLexerK_TRUE, "false": parser.TSLLexerK_FALSE,
}

// onLoan tells whether a book is on loan; v4 has no such column.
func onLoan(b model.Book) (bool, bool) { return b.OnLoan, true }
