package h

import (
	"encoding/json"
	"fmt"
	"sync"

	"verif/h/sym"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

// texts that use every part of the scanner and the parser, valid or not
var concTexts = []string{
	"a = 1 and b.c[0] in ['x', \"y\", `z`] or not c like 'd%'",
	"sum x > 1.5Ki and any (y between 2020-01-02 and 2020-01-03T01:02:03Z)",
	"[a, [1, true, false]] is not null",
	"len l ~= 'x' and -a + 2 * 3 % 4 / 5 >= 0",
	"a = ", "", ")", "a = 'b", "a = 1 #", "[1, 2", "a in [b", "(a = 'x' or", "x between 1 and\n)",
}

// concText is the text of one call: a fixed one or free characters.
func concText(name string) string {
	k := sym.Choose(name+".text", len(concTexts)+1)
	if k < len(concTexts) {
		return concTexts[k]
	}
	return oneOf(sym.Str(name+".free", sym.Param("len", 2)), "a1'(=,[# ")
}

// concOne is what one goroutine does: the result as a text.
func concOne(s string, use bool) (out string) {
	n, err := tsl.ParseTSL(s)
	if err != nil {
		return "error: " + err.Error()
	}
	out = shape(n)
	if use {
		c := n.Clone()
		v, err := semantics.Walk(c, func(k string) (interface{}, bool) { return float64(len(k)), true })
		out += fmt.Sprintf(" meaning %v %v", v, err)
		q, err := sql.Walk(c)
		if err == nil {
			text, args, err := q.ToSql()
			out += fmt.Sprintf(" sql %s %d %v", text, len(args), err)
		}
		r, err := ident.Walk(c, func(s string) (string, error) { return "x_" + s, nil })
		if err == nil {
			out += shape(r)
			r.Free()
		}
		g, err := graphviz.Walk("", c, "root")
		out += fmt.Sprintf(" graph %v %v", len(g), err)
		j, err := json.Marshal(c)
		out += fmt.Sprintf(" json %s %v", j, err)
		c.Free()
	}
	n.Free()
	return out
}

// shape is the tree as a text.
func shape(n *tsl.TSLNode) string {
	if n == nil {
		return "-"
	}
	out := n.Type().String()
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		return out + v.Operator.String() + "(" + shape(v.Left) + "," + shape(v.Right) + ")"
	case tsl.TSLArrayLiteral:
		for _, e := range v.Values {
			out += "[" + shape(e) + "]"
		}
		return out
	case string:
		return out + " " + v
	case bool:
		if v {
			return out + " true"
		}
	case float64:
		return out + " " + fmt.Sprint(v)
	}
	return out
}

// H_C08_parse records what one call does to memory other calls can reach; the
// driver decides for every pair of calls whether a schedule mixes them.
// Natively, with the texts of two calls, it runs them at the same time.
func H_C08_parse() { conc(false) }

// H_C08_use is the same for a call and the use of its tree.
func H_C08_use() { conc(true) }

func conc(use bool) {
	if sym.Param("stress", 0) > 0 {
		stress(use)
		return
	}
	if sym.Choose("warm", 2) == 1 {
		n, _ := tsl.ParseTSL("a")
		n.Free()
	}
	s := concText("a")
	sym.WatchShared(true)
	if use {
		concOne(s, true)
	} else {
		n, err := tsl.ParseTSL(s)
		if err == nil {
			_ = n.Type()
		}
	}
	sym.WatchShared(false)
	// a lock that is still held would stop this call
	n, err := tsl.ParseTSL("a")
	sym.Assert(err == nil && n != nil, "a later call fails")
	n.Free()
}

// stress runs many calls at the same time and compares each with the result it
// has alone.
func stress(use bool) {
	texts := append([]string{concText("a"), concText("b"), concText("a"), concText("b")}, concTexts...)
	want := map[string]string{}
	for _, s := range texts {
		want[s] = concOne(s, use)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	wrong := ""
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < sym.Param("stress", 0); i++ {
				s := texts[(i*(g+1)+g)%len(texts)]
				if i%2 == 0 {
					s = texts[(g+i/2)%4]
				}
				if got := concOne(s, use); got != want[s] {
					mu.Lock()
					wrong = fmt.Sprintf("%q gives %q next to other calls and %q alone", s, got, want[s])
					mu.Unlock()
					return
				}
			}
		}(g)
	}
	wg.Wait()
	sym.Assert(wrong == "", "concurrent calls change each other's result: "+wrong)
}
