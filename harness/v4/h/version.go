package h

import (
	"github.com/yaacov/tree-search-language/v4/cmd/model"
	"github.com/yaacov/tree-search-language/v4/pkg/parser"
)

// What differs from v5; the other files here are copies of v5's (tools/reg.py).
// v4 has no Booleans and no dates, and compares with literals only.
const (
	v5        = false
	booleanOp = "(no Booleans)"
	dateOp    = "(no dates)"

	tIdent  = parser.TSLLexerIDENTIFIER
	tNumber = parser.TSLLexerNUMERIC_LITERAL
	tString = parser.TSLLexerSTRING_LITERAL
	tTrue   = -4 // no such tokens
	tFalse  = -5
	tDate   = -6
	tStamp  = -7
	tTime   = -8
	tDot    = parser.TSLLexerT__12

	mathFinding = "K-v4-math-grouping"
)

// codes of the tokens that are spelled in one way only
var fixed = map[string]int{
	"(": parser.TSLLexerT__0, ",": parser.TSLLexerT__1, ")": parser.TSLLexerT__2,
	"<": parser.TSLLexerT__3, "<=": parser.TSLLexerT__4, ">": parser.TSLLexerT__5, ">=": parser.TSLLexerT__6,
	"=": parser.TSLLexerT__7, "!=": parser.TSLLexerT__8, "<>": parser.TSLLexerT__9,
	"~=": parser.TSLLexerT__10, "~!": parser.TSLLexerT__11, ".": tDot,
	"*": parser.TSLLexerT__13, "/": parser.TSLLexerT__14, "%": parser.TSLLexerT__15,
	"+": parser.TSLLexerT__16, "-": parser.TSLLexerT__17,
	"like": parser.TSLLexerK_LIKE, "ilike": parser.TSLLexerK_ILIKE, "and": parser.TSLLexerK_AND, "or": parser.TSLLexerK_OR,
	"between": parser.TSLLexerK_BETWEEN, "in": parser.TSLLexerK_IN, "is": parser.TSLLexerK_IS, "null": parser.TSLLexerK_NULL,
	"not": parser.TSLLexerK_NOT,
}

// onLoan tells whether a book is on loan; v4 has no such column.
func onLoan(b model.Book) (bool, bool) { return false, false }
