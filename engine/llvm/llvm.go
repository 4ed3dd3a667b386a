// Package llvm reads the textual LLVM IR that clang writes for plain C (opaque
// pointers, no vectors, no exceptions).
package llvm

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"
)

type TK uint8

const (
	TVoid TK = iota
	TInt
	TFloat
	TDouble
	TPtr
	TArray
	TStruct
	TFunc
	TLabel
	TMeta
)

type Type struct {
	K      TK
	W      int // int width
	N      int // array length
	Elem   *Type
	Fields []*Type
	Packed bool
	Name   string
	offs   []int
	size   int
	align  int
	once   sync.Once
}

func (t *Type) layout() { t.once.Do(t.layout1) }

func (t *Type) layout1() {
	switch t.K {
	case TInt:
		t.size = (t.W + 7) / 8
		for p := 1; ; p *= 2 {
			if p >= t.size {
				t.size = p
				break
			}
		}
		t.align = t.size
	case TFloat:
		t.size, t.align = 4, 4
	case TDouble, TPtr:
		t.size, t.align = 8, 8
	case TArray:
		t.size, t.align = t.N*t.Elem.Size(), t.Elem.Align()
	case TStruct:
		o, al := 0, 1
		for _, f := range t.Fields {
			a := f.Align()
			if t.Packed {
				a = 1
			}
			o = (o + a - 1) / a * a
			t.offs = append(t.offs, o)
			o += f.Size()
			if a > al {
				al = a
			}
		}
		t.size = (o + al - 1) / al * al
		t.align = al
	}
}

func (t *Type) Size() int        { t.layout(); return t.size }
func (t *Type) Align() int       { t.layout(); return t.align }
func (t *Type) Offset(i int) int { t.layout(); return t.offs[i] }

type OK uint8

const (
	OReg OK = iota
	OInt
	OFP
	ONull
	OUndef
	OZero
	OGlobal // global or function by name
	OExpr   // constant expression
	OAggr   // constant aggregate
	OStr
)

type Opnd struct {
	K    OK
	T    *Type
	Reg  int
	I    uint64
	Name string
	Expr *Instr
	Elts []Opnd
	Str  string
}

type Instr struct {
	Op     string
	Dst    int // -1: none
	T      *Type
	Args   []Opnd
	Pred   string
	Lbls   []int // block indices
	Cases  []uint64
	Names  []string // label names before resolution
	SrcT   *Type    // gep source element type, alloca type
	Callee Opnd
	Text   string
}

type Block struct {
	Name   string
	Instrs []*Instr
	Phis   int
}

type Func struct {
	Name   string
	Ret    *Type
	Params []int
	PTypes []*Type
	Blocks []*Block
	NRegs  int
	Vararg bool
}

type Global struct {
	Name  string
	T     *Type
	Const bool
	Init  *Opnd // nil: external
}

type Module struct {
	Types   map[string]*Type
	Globals map[string]*Global
	Order   []string
	Funcs   map[string]*Func
	Decls   map[string]bool
}

var (
	tVoid   = &Type{K: TVoid}
	tPtr    = &Type{K: TPtr}
	tDouble = &Type{K: TDouble}
	tFloat  = &Type{K: TFloat}
	tLabel  = &Type{K: TLabel}
	tMeta   = &Type{K: TMeta}
)

type parser struct {
	m    *Module
	s    string
	p    int
	line string
	regs map[string]int
	nreg int
}

type perr struct{ msg string }

func (p *parser) fail(f string, a ...any) {
	panic(perr{fmt.Sprintf(f, a...) + " in: " + p.line})
}

func Parse(src string) (m *Module, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				err = fmt.Errorf("llvm: %s", e.msg)
				return
			}
			panic(r)
		}
	}()
	m = &Module{Types: map[string]*Type{}, Globals: map[string]*Global{}, Funcs: map[string]*Func{}, Decls: map[string]bool{}}
	lines := strings.Split(src, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if l == "" || l[0] == ';' || l[0] == '!' {
			continue
		}
		p := &parser{m: m, s: l, line: l}
		switch {
		case l[0] == '%':
			name := p.word()
			p.expect("=")
			p.expect("type")
			t := p.named(name)
			if p.try("opaque") {
				continue
			}
			d := p.typ()
			n := t.Name
			t.K, t.W, t.N, t.Elem, t.Fields, t.Packed = d.K, d.W, d.N, d.Elem, d.Fields, d.Packed
			t.Name = n
		case l[0] == '@':
			p.global()
		case strings.HasPrefix(l, "declare"):
			at := strings.Index(l, "@")
			e := strings.IndexByte(l[at:], '(')
			m.Decls[unq(l[at+1:at+e])] = true
		case strings.HasPrefix(l, "define"):
			j := i + 1
			for lines[j] != "}" {
				j++
			}
			p.function(l, lines[i+1:j])
			i = j
		}
	}
	return m, nil
}

func unq(s string) string {
	if len(s) > 1 && s[0] == '"' {
		return s[1 : len(s)-1]
	}
	return s
}

func (p *parser) ws() {
	for p.p < len(p.s) && (p.s[p.p] == ' ' || p.s[p.p] == '\t') {
		p.p++
	}
}

func isW(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '-' || c == '$' || c == '+'
}

// word reads one token: a symbol, a word, %name, @name, or a quoted string.
func (p *parser) word() string {
	p.ws()
	if p.p >= len(p.s) {
		return ""
	}
	st := p.p
	c := p.s[p.p]
	switch {
	case c == '%' || c == '@' || c == '!' || c == '#':
		p.p++
		if p.p < len(p.s) && p.s[p.p] == '"' {
			p.p++
			for p.s[p.p] != '"' {
				p.p++
			}
			p.p++
			return string(c) + p.s[st+2:p.p-1]
		}
		for p.p < len(p.s) && isW(p.s[p.p]) {
			p.p++
		}
	case c == '"' || c == 'c' && p.p+1 < len(p.s) && p.s[p.p+1] == '"':
		if c == 'c' {
			p.p++
		}
		p.p++
		for p.s[p.p] != '"' {
			p.p++
		}
		p.p++
	case isW(c):
		for p.p < len(p.s) && isW(p.s[p.p]) {
			p.p++
		}
		if p.s[st:p.p] == "..." {
			return "..."
		}
	default:
		p.p++
	}
	return p.s[st:p.p]
}

func (p *parser) peek() string { q := p.p; w := p.word(); p.p = q; return w }
func (p *parser) try(w string) bool {
	q := p.p
	if p.word() == w {
		return true
	}
	p.p = q
	return false
}
func (p *parser) expect(w string) {
	if g := p.word(); g != w {
		p.fail("expected %q, got %q", w, g)
	}
}

func (p *parser) named(n string) *Type {
	t := p.m.Types[n]
	if t == nil {
		t = &Type{K: TStruct, Name: n}
		p.m.Types[n] = t
	}
	return t
}

func (p *parser) typ() *Type {
	w := p.word()
	switch {
	case w == "void":
		return tVoid
	case w == "ptr":
		return tPtr
	case w == "double":
		return tDouble
	case w == "float":
		return tFloat
	case w == "label":
		return tLabel
	case w == "metadata":
		return tMeta
	case w == "[":
		n, _ := strconv.Atoi(p.word())
		p.expect("x")
		e := p.typ()
		p.expect("]")
		return &Type{K: TArray, N: n, Elem: e}
	case w == "{":
		t := &Type{K: TStruct}
		for !p.try("}") {
			t.Fields = append(t.Fields, p.typ())
			p.try(",")
		}
		return t
	case w == "<":
		p.expect("{")
		t := &Type{K: TStruct, Packed: true}
		for !p.try("}") {
			t.Fields = append(t.Fields, p.typ())
			p.try(",")
		}
		p.expect(">")
		return t
	case w[0] == 'i' && len(w) > 1 && w[1] >= '0' && w[1] <= '9':
		n, _ := strconv.Atoi(w[1:])
		return &Type{K: TInt, W: n}
	case w[0] == '%':
		return p.named(w)
	}
	p.fail("type %q", w)
	return nil
}

var attrWords = map[string]bool{"noundef": true, "nonnull": true, "nocapture": true, "readonly": true, "writeonly": true, "noalias": true,
	"signext": true, "zeroext": true, "returned": true, "immarg": true, "readnone": true, "nofree": true, "inreg": true, "noreturn": true,
	"dso_local": true, "internal": true, "private": true, "hidden": true, "unnamed_addr": true, "local_unnamed_addr": true, "external": true,
	"common": true, "weak": true, "linkonce_odr": true, "tail": true, "musttail": true, "notail": true, "fast": true, "nnan": true, "ninf": true,
	"contract": true, "reassoc": true, "nsz": true, "arcp": true, "afn": true, "inbounds": true, "nuw": true, "nsw": true, "exact": true,
	"disjoint": true, "nneg": true, "volatile": true, "fastcc": true, "ccc": true, "thread_local": true, "dllimport": true, "range": false}

func (p *parser) attrs() {
	for {
		w := p.peek()
		if attrWords[w] {
			p.word()
			continue
		}
		if w == "align" {
			p.word()
			if p.try("(") {
				p.word()
				p.expect(")")
			} else {
				p.word()
			}
			continue
		}
		if w == "dereferenceable" || w == "dereferenceable_or_null" || w == "memory" || w == "captures" {
			p.word()
			p.expect("(")
			for !p.try(")") {
				p.word()
			}
			continue
		}
		if strings.HasPrefix(w, "#") {
			p.word()
			continue
		}
		return
	}
}

func (p *parser) global() {
	name := p.word()[1:]
	p.expect("=")
	ext := false
	cst := false
	for {
		w := p.peek()
		if w == "external" {
			ext = true
		}
		if w == "alias" {
			p.fail("alias")
		}
		if attrWords[w] {
			p.word()
			continue
		}
		if w == "global" {
			p.word()
			break
		}
		if w == "constant" {
			cst = true
			p.word()
			break
		}
		p.fail("global word %q", w)
	}
	t := p.typ()
	g := &Global{Name: name, T: t, Const: cst}
	if !ext {
		o := p.val(t)
		g.Init = &o
	}
	if old := p.m.Globals[name]; old == nil || old.Init == nil {
		p.m.Globals[name] = g
		p.m.Order = append(p.m.Order, name)
	}
}

func (p *parser) reg(n string) int {
	if r, ok := p.regs[n]; ok {
		return r
	}
	r := p.nreg
	p.regs[n] = r
	p.nreg++
	return r
}

func unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+2 < len(s)+0 {
			if s[i+1] == '\\' {
				b.WriteByte('\\')
				i++
				continue
			}
			v, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err == nil {
				b.WriteByte(byte(v))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// val reads a value of a known type.
func (p *parser) val(t *Type) Opnd {
	q := p.p
	w := p.word()
	o := Opnd{T: t}
	switch {
	case w == "":
		p.fail("missing value")
	case w[0] == '%':
		o.K, o.Reg = OReg, p.reg(w)
	case w[0] == '@':
		o.K, o.Name = OGlobal, w[1:]
	case w == "null":
		o.K = ONull
	case w == "true":
		o.K, o.I = OInt, 1
	case w == "false":
		o.K, o.I = OInt, 0
	case w == "undef" || w == "poison":
		o.K = OUndef
	case w == "zeroinitializer":
		o.K = OZero
	case strings.HasPrefix(w, "c\""):
		o.K, o.Str = OStr, unescape(w[2:len(w)-1])
	case w == "[" || w == "{" || w == "<":
		end := "]"
		if w == "{" {
			end = "}"
		}
		if w == "<" {
			p.expect("{")
			end = "}"
		}
		o.K = OAggr
		for !p.try(end) {
			et := p.typ()
			o.Elts = append(o.Elts, p.val(et))
			p.try(",")
		}
		if w == "<" {
			p.expect(">")
		}
	case w == "getelementptr" || w == "bitcast" || w == "inttoptr" || w == "ptrtoint" || w == "add" || w == "sub" || w == "trunc":
		p.attrs()
		p.expect("(")
		in := &Instr{Op: w, Dst: -1}
		if w == "getelementptr" {
			in.SrcT = p.typ()
			p.expect(",")
		}
		for !p.try(")") {
			if p.try("to") {
				in.T = p.typ()
				continue
			}
			at := p.typ()
			p.attrs()
			in.Args = append(in.Args, p.val(at))
			p.try(",")
		}
		o.K, o.Expr = OExpr, in
	default:
		if t.K == TDouble || t.K == TFloat {
			o.K = OFP
			if strings.HasPrefix(w, "0x") {
				v, err := strconv.ParseUint(w[2:], 16, 64)
				if err != nil {
					p.fail("fp %q", w)
				}
				o.I = v
			} else {
				f, err := strconv.ParseFloat(w, 64)
				if err != nil {
					p.fail("fp %q", w)
				}
				o.I = math.Float64bits(f)
			}
			return o
		}
		v, err := strconv.ParseInt(w, 10, 64)
		if err != nil {
			u, err2 := strconv.ParseUint(w, 10, 64)
			if err2 != nil {
				p.p = q
				p.fail("value %q", w)
			}
			v = int64(u)
		}
		o.K, o.I = OInt, uint64(v)
	}
	return o
}

func (p *parser) tv() Opnd {
	t := p.typ()
	p.attrs()
	return p.val(t)
}

func (p *parser) function(head string, body []string) {
	p.s, p.line, p.p = head, head, 0
	p.regs = map[string]int{}
	p.expect("define")
	p.attrs()
	f := &Func{}
	f.Ret = p.typ()
	f.Name = p.word()[1:]
	p.expect("(")
	unnamed := 0
	for !p.try(")") {
		if p.try("...") {
			f.Vararg = true
			continue
		}
		t := p.typ()
		p.attrs()
		f.PTypes = append(f.PTypes, t)
		n := p.peek()
		if strings.HasPrefix(n, "%") {
			p.word()
		} else {
			n = "%" + strconv.Itoa(unnamed)
		}
		unnamed++
		f.Params = append(f.Params, p.reg(n))
		p.try(",")
	}
	cur := &Block{Name: "%entry?" + strconv.Itoa(unnamed)}
	// the first block has an implicit number when it has no label
	cur.Name = "%" + strconv.Itoa(unnamed)
	f.Blocks = append(f.Blocks, cur)
	first := true
	for i := 0; i < len(body); i++ {
		l := body[i]
		if k := strings.Index(l, ", !dbg"); k >= 0 {
			l = l[:k]
		}
		if strings.TrimSpace(l) == "" || strings.HasPrefix(strings.TrimSpace(l), ";") {
			continue
		}
		if l[0] != ' ' { // label
			n := l[:strings.Index(l, ":")]
			n = "%" + unq(n)
			if first && len(cur.Instrs) == 0 {
				cur.Name = n
			} else {
				cur = &Block{Name: n}
				f.Blocks = append(f.Blocks, cur)
			}
			first = false
			continue
		}
		first = false
		if strings.HasPrefix(strings.TrimSpace(l), "switch") && !strings.Contains(l, "]") {
			for !strings.Contains(body[i+1], "]") {
				i++
				l += " " + strings.TrimSpace(body[i])
			}
			i++
			l += " ]"
		}
		p.s, p.line, p.p = l, l, 0
		in := p.instr()
		if in == nil {
			continue
		}
		in.Text = l
		if in.Op == "phi" {
			cur.Phis++
		}
		cur.Instrs = append(cur.Instrs, in)
	}
	idx := map[string]int{}
	for i, b := range f.Blocks {
		idx[b.Name] = i
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, n := range in.Names {
				k, ok := idx[n]
				if !ok {
					p.line = in.Text
					p.fail("label %s in %s", n, f.Name)
				}
				in.Lbls = append(in.Lbls, k)
			}
		}
	}
	f.NRegs = p.nreg
	p.m.Funcs[f.Name] = f
}

func (p *parser) instr() *Instr {
	in := &Instr{Dst: -1}
	w := p.word()
	if w[0] == '%' {
		in.Dst = p.reg(w)
		p.expect("=")
		w = p.word()
	}
	for w == "tail" || w == "musttail" || w == "notail" {
		w = p.word()
	}
	in.Op = w
	switch w {
	case "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
		"fadd", "fsub", "fmul", "fdiv", "frem":
		p.attrs()
		a := p.tv()
		p.expect(",")
		b := p.val(a.T)
		in.T, in.Args = a.T, []Opnd{a, b}
	case "fneg", "freeze":
		p.attrs()
		a := p.tv()
		in.T, in.Args = a.T, []Opnd{a}
	case "icmp", "fcmp":
		p.attrs()
		in.Pred = p.word()
		p.attrs()
		a := p.tv()
		p.expect(",")
		b := p.val(a.T)
		in.T, in.Args = a.T, []Opnd{a, b}
	case "zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast":
		p.attrs()
		a := p.tv()
		p.expect("to")
		in.T, in.Args = p.typ(), []Opnd{a}
	case "select":
		p.attrs()
		c := p.tv()
		p.expect(",")
		a := p.tv()
		p.expect(",")
		b := p.tv()
		in.T, in.Args = a.T, []Opnd{c, a, b}
	case "alloca":
		in.SrcT = p.typ()
		in.T = tPtr
		if p.try(",") {
			if p.peek() != "align" {
				in.Args = []Opnd{p.tv()}
			}
		}
	case "load":
		p.attrs()
		in.T = p.typ()
		p.expect(",")
		in.Args = []Opnd{p.tv()}
	case "store":
		p.attrs()
		v := p.tv()
		p.expect(",")
		a := p.tv()
		in.Args = []Opnd{v, a}
	case "getelementptr":
		p.attrs()
		in.SrcT = p.typ()
		in.T = tPtr
		for p.try(",") {
			in.Args = append(in.Args, p.tv())
		}
	case "br":
		if p.try("label") {
			in.Names = []string{p.word()}
		} else {
			in.Args = []Opnd{p.tv()}
			p.expect(",")
			p.expect("label")
			a := p.word()
			p.expect(",")
			p.expect("label")
			in.Names = []string{a, p.word()}
		}
	case "switch":
		in.Args = []Opnd{p.tv()}
		p.expect(",")
		p.expect("label")
		in.Names = []string{p.word()}
		p.expect("[")
		for !p.try("]") {
			v := p.tv()
			p.expect(",")
			p.expect("label")
			in.Cases = append(in.Cases, v.I)
			in.Names = append(in.Names, p.word())
		}
	case "phi":
		p.attrs()
		in.T = p.typ()
		for {
			p.expect("[")
			in.Args = append(in.Args, p.val(in.T))
			p.expect(",")
			in.Names = append(in.Names, p.word())
			p.expect("]")
			if !p.try(",") {
				break
			}
		}
	case "ret":
		if p.try("void") {
			break
		}
		in.Args = []Opnd{p.tv()}
	case "unreachable":
	case "extractvalue":
		in.Args = []Opnd{p.tv()}
		p.expect(",")
		n, _ := strconv.Atoi(p.word())
		in.Cases = []uint64{uint64(n)}
	case "call":
		p.attrs()
		in.T = p.typ()
		if p.try("(") { // function type of a variadic callee
			d := 1
			for d > 0 {
				switch p.word() {
				case "(":
					d++
				case ")":
					d--
				}
			}
		}
		c := p.word()
		if c[0] == '@' {
			in.Callee = Opnd{K: OGlobal, Name: c[1:]}
		} else if c[0] == '%' {
			in.Callee = Opnd{K: OReg, Reg: p.reg(c)}
		} else {
			p.fail("callee %q", c)
		}
		if strings.HasPrefix(c, "@llvm.dbg") || strings.HasPrefix(c, "@llvm.lifetime") {
			return nil
		}
		p.expect("(")
		for !p.try(")") {
			in.Args = append(in.Args, p.tv())
			p.try(",")
		}
		if in.T.K == TVoid {
			in.Dst = -1
		}
	default:
		p.fail("instruction %q", w)
	}
	return in
}
