// Package h holds the harnesses for the v5 module.
package h

import (
	"github.com/antlr/antlr4/runtime/Go/antlr"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

// tok is one token of an input: the code the lexer gives it, and its text.
type tok struct {
	typ  int
	text string
}

// input is what stands for the lexer: a text and the tokens it consists of.
type input struct {
	text string
	toks []tok
	pos  int
}

// The lexer's character loops are replaced by the token list on symbolic paths,
// so that token texts can be symbolic. The generated parser, the ANTLR runtime
// and the listener run as they are.

//sym:replace github.com/antlr/antlr4/runtime/Go/antlr.NewInputStream
func newInputStream(data string) *antlr.InputStream {
	in := sym.Get().(*input)
	sym.Assert(sym.EqStr(data, in.text), "another text is parsed than the one given")
	return &antlr.InputStream{}
}

//sym:replace (*github.com/antlr/antlr4/runtime/Go/antlr.BaseLexer).NextToken
func nextToken(b *antlr.BaseLexer) antlr.Token {
	in := sym.Get().(*input)
	t := tok{antlr.TokenEOF, "<EOF>"}
	if in.pos < len(in.toks) {
		t = in.toks[in.pos]
	}
	in.pos++
	r := antlr.NewCommonToken(&antlr.TokenSourceCharStreamPair{}, t.typ, antlr.TokenDefaultChannel, 0, 0)
	r.SetText(t.text)
	return r
}

// parseText runs the real parser on the tokens, written with blanks between them.
func parseToks(toks []tok) (tsl.Node, error) {
	text := ""
	for i, t := range toks {
		if i > 0 {
			text += " "
		}
		text += t.text
	}
	sym.Put(&input{text: text, toks: toks})
	n, err := tsl.ParseTSL(text)
	sym.Put(nil)
	return n, err
}

// w writes fixed tokens.
func w(words ...string) []tok {
	var r []tok
	for _, s := range words {
		c, ok := fixed[s]
		if !ok {
			panic("no token " + s)
		}
		r = append(r, tok{c, s})
	}
	return r
}

func cat(parts ...[]tok) []tok {
	var r []tok
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func par(t []tok) []tok { return cat(w("("), t, w(")")) }
