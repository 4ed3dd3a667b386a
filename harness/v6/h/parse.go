package h

import (
	"fmt"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// sameTree asserts that the real tree is the expected one, node by node,
// through the public API.
func sameTree(n *tsl.TSLNode, e *E, where string) {
	sym.Assert(n != nil, where+": a node is missing")
	k := tsl.Kind(e.K)
	sym.Assert(n.Type() == k, fmt.Sprintf("%s: the node kind differs from the documented one (want %s)", where, k.String()))
	v := n.Value()
	switch e.K {
	case Num:
		f, ok := v.(float64)
		sym.Assert(ok && sym.SameFloat(f, e.F), where+": number literal changed")
	case Str, Id:
		s, ok := v.(string)
		sym.Assert(ok && sym.EqStr(s, e.S), where+": text of a literal or identifier changed")
	case Date, Stamp:
		// the value is a time or the text; the conversion is checked on its own
		if s, ok := v.(string); ok {
			sym.Assert(sym.EqStr(s, e.S), where+": text of a date changed")
		}
	case Boo:
		b, ok := v.(bool)
		sym.Assert(ok && b == e.B, where+": Boolean literal changed")
	case Bin:
		op, ok := v.(tsl.TSLExpressionOp)
		sym.Assert(ok, where+": no operator value")
		sym.Assert(op.Operator == opCode[e.Op], fmt.Sprintf("%s: the operator is not %s", where, e.Op))
		sameTree(op.Left, e.A[0], where+".L")
		sameTree(op.Right, e.A[1], where+".R")
	case Un:
		op, ok := v.(tsl.TSLExpressionOp)
		sym.Assert(ok, where+": no operator value")
		sym.Assert(op.Operator == opCode[e.Op], fmt.Sprintf("%s: the operator is not %s", where, e.Op))
		sym.Assert(op.Left == nil, where+": unary node has a left operand")
		sameTree(op.Right, e.A[0], where+".C")
	case Arr:
		a, ok := v.(tsl.TSLArrayLiteral)
		sym.Assert(ok && len(a.Values) == len(e.A), where+": the array has another number of elements")
		for i, x := range e.A {
			sameTree(a.Values[i], x, fmt.Sprintf("%s[%d]", where, i))
		}
	}
}

// vocabularies
var fullVocab = []int{tIDENTIFIER, tNUMERICLITERAL, tSTRINGLITERAL, tDATE, tRFC3339, tKTRUE, tKFALSE, tKNULL,
	tLPAREN, tRPAREN, tLBRACKET, tRBRACKET, tCOMMA, tPLUS, tMINUS, tSTAR, tSLASH, tPERCENT,
	tEQ, tNE, tLT, tLE, tGT, tGE, tREQ, tRNE, tKLIKE, tKILIKE, tKAND, tKOR, tKBETWEEN, tKIN, tKIS, tKNOT,
	tKLEN, tKANY, tKALL, tKSUM}

// one token of each precedence class and shape
var repVocab = []int{tIDENTIFIER, tLPAREN, tRPAREN, tLBRACKET, tRBRACKET, tCOMMA, tMINUS, tSTAR,
	tEQ, tKLIKE, tKAND, tKOR, tKBETWEEN, tKIN, tKIS, tKNULL, tKNOT, tKLEN}

// operators only between identifiers, prefix operators before them
var opVocab = []int{tIDENTIFIER, tPLUS, tMINUS, tSTAR, tSLASH, tPERCENT,
	tEQ, tNE, tLT, tLE, tGT, tGE, tREQ, tRNE, tKLIKE, tKILIKE, tKAND, tKOR, tKIN, tKNOT, tKANY, tKALL, tKSUM, tKLEN}

var arrVocab = []int{tIDENTIFIER, tSTRINGLITERAL, tLBRACKET, tRBRACKET, tCOMMA}

const tokBase = 250

// liveAfterWarmup counts the native blocks once the scanner made the buffer it
// keeps for later calls.
func liveAfterWarmup(mem bool) int {
	if mem {
		n, _ := tsl.ParseTSL("a")
		n.Free()
	}
	return sym.LiveBlocks()
}

// tokenRun parses every token sequence over the vocabulary: each token is a
// symbolic code, made when the parser asks for it.
func tokenRun(vocab []int, max int, checkTree, checkMem bool) {
	tokenRunThen(vocab, max, checkTree, checkMem, nil)
}

// tokenRunThen goes on with then for every accepted sequence.
func tokenRunThen(vocab []int, max int, checkTree, checkMem bool, then func(n *tsl.TSLNode, e *E)) {
	base := liveAfterWarmup(checkMem)
	fd := feedTokens(vocab, max)
	n, err := tsl.ParseTSL(sym.Text())
	sym.LexStop()
	toks := fd.toks
	if checkTree {
		e, ok, at := oracleParse(toks)
		if err == nil {
			sym.Cover("accepted")
			sym.Assert(n != nil, "no error and no tree")
			sym.Assert(ok, "tokens that are no expression are accepted")
			sym.Assert(fd.atEnd, "accepted before the end of the input")
			sameTree(n, e, "tree")
		} else {
			sym.Cover("rejected")
			sym.Assert(n == nil, "an error and a tree")
			fd.rejected(ok, at)
		}
	}
	if n != nil {
		if then != nil {
			e, ok, _ := oracleParse(toks)
			sym.Assert(ok, "tokens that are no expression are accepted")
			then(n, e)
		}
		n.Free()
	}
	if checkMem {
		sym.Assert(sym.LiveBlocks() == base, "native memory is left allocated after the call")
	}
}

// fed is what the parser took from the scanner.
type fed struct {
	toks  []Tok
	atEnd bool
}

// rejected asserts that the oracle, which stops at token at, rejects the tokens too.
func (fd *fed) rejected(ok bool, at int) {
	if !sym.Symbolic() {
		sym.Assert(!ok, "a well-formed expression is rejected")
		return
	}
	// rejected at the last token taken: the oracle must stop there too
	bad := at
	if !fd.atEnd {
		bad = at + 1
	}
	sym.Assert(!ok && bad == len(fd.toks), "a beginning of a well-formed expression is rejected")
}

// feedTokens makes the scanner give any tokens of the vocabulary.
func feedTokens(vocab []int, max int) *fed {
	fd := &fed{}
	sym.LexFunc(func(pos int) (int, string) {
		if pos >= max {
			fd.atEnd = true
			return 0, ""
		}
		b := sym.Byte("tok") // 0 is the end of the input
		in, lit := b == 0, false
		for _, c := range vocab {
			is := int(b) == c-tokBase
			in = sym.Or(in, is)
			switch c {
			case tIDENTIFIER, tNUMERICLITERAL, tSTRINGLITERAL, tDATE, tRFC3339:
				lit = sym.Or(lit, is)
			}
		}
		sym.Assume(in)
		if b == 0 {
			fd.atEnd = true
			return 0, ""
		}
		code, s := int(b)+tokBase, ""
		if lit {
			switch code {
			case tIDENTIFIER:
				s = string(rune('a' + pos))
				code = tIDENTIFIER
			case tNUMERICLITERAL:
				s = "7"
				code = tNUMERICLITERAL
			case tSTRINGLITERAL:
				s = "s"
				code = tSTRINGLITERAL
			case tDATE:
				s = "2020-01-02"
				code = tDATE
			case tRFC3339:
				s = "2020-01-02T03:04:05Z"
				code = tRFC3339
			}
		}
		fd.toks = append(fd.toks, Tok{Code: code, Text: s, F: 7})
		return code, s
	})
	return fd
}

func H_C01_full() { tokenRun(fullVocab, sym.Param("len", 4), true, false) }
func H_C01_ops()  { tokenRun(opVocab, sym.Param("len", 5), true, false) }
func H_C01_rep()  { tokenRun(repVocab, sym.Param("len", 6), true, false) }

// Memory at token level: every sequence, accepted or rejected.
func H_C06_full() { tokenRun(fullVocab, sym.Param("len", 3), false, true) }
func H_C06_rep()  { tokenRun(repVocab, sym.Param("len", 5), false, true) }

// Arrays of any number of elements, cut short or complete.
func H_C06_array() {
	tokenRun(arrVocab, sym.Param("len", 8), false, true)
}
func H_C01_array() {
	tokenRun(arrVocab, sym.Param("len", 8), true, false)
}

// ---- every operator form beside every other

// forms are what may stand between two operands, and after one: IS NULL ends
// without an operand of its own.
var forms = [][]int{{tPLUS}, {tMINUS}, {tSTAR}, {tSLASH}, {tPERCENT}, {tEQ}, {tNE}, {tLT}, {tLE}, {tGT}, {tGE}, {tREQ}, {tRNE},
	{tKLIKE}, {tKILIKE}, {tKIN}, {tKAND}, {tKOR}, {tKNOT, tKLIKE}, {tKNOT, tKILIKE}, {tKNOT, tKIN},
	{tKBETWEEN, tIDENTIFIER, tKAND}, {tKNOT, tKBETWEEN, tIDENTIFIER, tKAND}, {tKIS, tKNULL}, {tKIS, tKNOT, tKNULL}}

var prefixes = []int{tKNOT, tKLEN, tKANY, tKALL, tKSUM, tMINUS, tPLUS}

// formText makes operands with n forms between them and one prefix somewhere.
func formText(n int) (toks []Tok) {
	put := func(codes ...int) {
		for _, c := range codes {
			t := Tok{Code: c}
			if c == tIDENTIFIER {
				t.Text = string(rune('a' + len(toks)))
			}
			toks = append(toks, t)
		}
	}
	at := sym.Choose("at", n+2) // n+1: no prefix
	for i := 0; i <= n; i++ {
		if i == at {
			put(prefixes[sym.Choose("prefix", len(prefixes))])
		}
		put(tIDENTIFIER)
		if i < n {
			f := forms[sym.Choose("form", len(forms))]
			put(f...)
			if f[0] == tKIS {
				i++
				if i < n {
					put(forms[sym.Choose("form", len(forms))]...)
				}
			}
		}
	}
	return toks
}

func formRun(tree, mem bool) {
	base := liveAfterWarmup(mem)
	toks := formText(sym.Param("forms", 2))
	i := 0
	sym.LexFunc(func(int) (int, string) {
		if i == len(toks) {
			return 0, ""
		}
		i++
		return toks[i-1].Code, toks[i-1].Text
	})
	n, err := tsl.ParseTSL(sym.Text())
	sym.LexStop()
	e, ok, _ := oracleParse(toks)
	sym.Assert((err == nil) == ok, "the parser and the documented grammar disagree on whether it is an expression")
	if n != nil {
		sym.Cover("accepted")
		if tree {
			sameTree(n, e, "tree")
		}
		n.Free()
	}
	if mem {
		sym.Assert(sym.LiveBlocks() == base, "native memory is left allocated after the call")
	}
}

func H_C01_forms() { formRun(true, false) }
func H_C06_forms() { formRun(false, true) }
