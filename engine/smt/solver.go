package smt

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT-LIB process incrementally.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	path    []string
	defined map[*Term]string
	decl    map[string]bool
	ndefs   int
	Log     io.Writer

	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	MaxQ    time.Duration
	timeout int // ms

	stack [][]*Term // asserted terms by level, for restarts

	// Abstract takes every term HardOp names for an unknown value of its sort:
	// what is unsatisfiable then is unsatisfiable.
	Abstract bool
}

// HardOp says whether op is float arithmetic or a conversion, which solvers expand
// to large circuits.
func HardOp(op Op) bool {
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv, OFFromS, OFFromU, OFToS, OFToU, OFToF, OFRoundZ:
		return true
	}
	return false
}

func NewSolver(path []string, timeoutMs int) (*Solver, error) {
	s := &Solver{path: path, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.path[0], s.path[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]string{}
	s.decl = map[string]bool{}
	s.ndefs = 0
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	if strings.Contains(s.path[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	}
	s.send("(set-logic ALL)")
	return nil
}

func (s *Solver) send(x string) {
	if s.Log != nil {
		fmt.Fprintln(s.Log, x)
	}
	s.in.WriteString(x)
	s.in.WriteByte('\n')
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

// Restart replaces the process; no assertions may be outstanding.
func (s *Solver) Restart() error {
	s.Close()
	s.stack = nil
	return s.start()
}

func (s *Solver) Defs() int { return s.ndefs }

func sortStr(x Sort) string {
	switch x.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", x.W)
	}
	if x.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

func fpw(x Sort) string {
	if x.W == 32 {
		return "8 24"
	}
	return "11 53"
}

func bvLit(w uint8, k uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, k)
	}
	return fmt.Sprintf("#b%0*b", int(w), k)
}

func constStr(t *Term) string {
	switch t.S.K {
	case KBool:
		if t.K != 0 {
			return "true"
		}
		return "false"
	case KBV:
		return bvLit(t.S.W, t.K)
	}
	return fmt.Sprintf("((_ to_fp %s) %s)", fpw(t.S), bvLit(t.S.W, t.K))
}

var opStr = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", ONeg: "bvneg", OBNot: "bvnot",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFNaN: "fp.isNaN", OFInf: "fp.isInfinite", OFRoundZ: "fp.roundToIntegral RTZ"}

func quoteName(n string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
}

// ref returns the SMT-LIB reference of t, defining it first if needed.
func (s *Solver) ref(t *Term) string {
	if t.Op == OConst {
		return constStr(t)
	}
	if r, ok := s.defined[t]; ok {
		return r
	}
	if t.Op == OVar {
		n := quoteName(t.Name)
		if !s.decl[n] {
			s.decl[n] = true
			s.send(fmt.Sprintf("(declare-fun %s () %s)", n, sortStr(t.S)))
		}
		s.defined[t] = n
		return n
	}
	if s.Abstract && HardOp(t.Op) {
		s.ndefs++
		n := "a" + strconv.Itoa(s.ndefs)
		s.send(fmt.Sprintf("(declare-fun %s () %s)", n, sortStr(t.S)))
		if t.Op == OFFromS || t.Op == OFFromU {
			// an integer is a finite number
			s.send(fmt.Sprintf("(define-fun %sf () %s (ite (or (fp.isNaN %s) (fp.isInfinite %s)) (_ +zero %s) %s))", n, sortStr(t.S), n, n, fpw(t.S), n))
			n += "f"
		}
		s.defined[t] = n
		return n
	}
	// children first
	var b strings.Builder
	b.WriteByte('(')
	switch t.Op {
	case OExtract:
		fmt.Fprintf(&b, "(_ extract %d %d) %s", t.K>>8, t.K&255, s.ref(t.A))
	case OZext:
		fmt.Fprintf(&b, "(_ zero_extend %d) %s", t.S.W-t.A.S.W, s.ref(t.A))
	case OSext:
		fmt.Fprintf(&b, "(_ sign_extend %d) %s", t.S.W-t.A.S.W, s.ref(t.A))
	case OFFromS:
		fmt.Fprintf(&b, "(_ to_fp %s) RNE %s", fpw(t.S), s.ref(t.A))
	case OFFromU:
		fmt.Fprintf(&b, "(_ to_fp_unsigned %s) RNE %s", fpw(t.S), s.ref(t.A))
	case OFToF:
		fmt.Fprintf(&b, "(_ to_fp %s) RNE %s", fpw(t.S), s.ref(t.A))
	case OFFromBits:
		fmt.Fprintf(&b, "(_ to_fp %s) %s", fpw(t.S), s.ref(t.A))
	case OFToS:
		fmt.Fprintf(&b, "(_ fp.to_sbv %d) RTZ %s", t.S.W, s.ref(t.A))
	case OFToU:
		fmt.Fprintf(&b, "(_ fp.to_ubv %d) RTZ %s", t.S.W, s.ref(t.A))
	case OTable:
		x := s.tableStr(t)
		b.Reset()
		b.WriteString(x)
	default:
		o, ok := opStr[t.Op]
		if !ok {
			panic(fmt.Sprint("print op ", t.Op))
		}
		b.WriteString(o)
		for _, x := range []*Term{t.A, t.B, t.C} {
			if x != nil {
				b.WriteByte(' ')
				b.WriteString(s.ref(x))
			}
		}
	}
	if t.Op != OTable {
		b.WriteByte(')')
	}
	s.ndefs++
	n := "t" + strconv.Itoa(s.ndefs)
	s.send(fmt.Sprintf("(define-fun %s () %s %s)", n, sortStr(t.S), b.String()))
	s.defined[t] = n
	return n
}

func (s *Solver) tableStr(t *Term) string {
	idx := s.ref(t.A)
	iw := t.A.S.W
	groups := map[uint64][][2]int{}
	n := len(t.T.Vals)
	if iw < 63 && n > 1<<iw {
		n = 1 << iw
	}
	count := map[uint64]int{}
	for i := 0; i < n; {
		j := i
		for j+1 < n && t.T.Vals[j+1] == t.T.Vals[i] {
			j++
		}
		groups[t.T.Vals[i]] = append(groups[t.T.Vals[i]], [2]int{i, j})
		count[t.T.Vals[i]] += j - i + 1
		i = j + 1
	}
	keys := make([]uint64, 0, len(groups))
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(a, b int) bool { return keys[a] < keys[b] })
	def := uint64(0)
	full := iw < 63 && n == 1<<iw
	if full {
		for _, k := range keys {
			if count[k] > count[def] {
				def = k
			}
		}
	}
	out := bvLit(t.T.W, def)
	for _, k := range keys {
		if k == def {
			continue
		}
		var cs []string
		for _, r := range groups[k] {
			if r[0] == r[1] {
				cs = append(cs, fmt.Sprintf("(= %s %s)", idx, bvLit(iw, uint64(r[0]))))
			} else {
				cs = append(cs, fmt.Sprintf("(and (bvule %s %s) (bvule %s %s))", bvLit(iw, uint64(r[0])), idx, idx, bvLit(iw, uint64(r[1]))))
			}
		}
		cond := cs[0]
		if len(cs) > 1 {
			cond = "(or " + strings.Join(cs, " ") + ")"
		}
		out = fmt.Sprintf("(ite %s %s %s)", cond, bvLit(t.T.W, k), out)
	}
	if out[0] != '(' {
		return out
	}
	return out
}

func (s *Solver) Push() { s.send("(push 1)"); s.stack = append(s.stack, nil) }
func (s *Solver) Pop() {
	s.send("(pop 1)")
	s.stack = s.stack[:len(s.stack)-1]
}
func (s *Solver) Assert(t *Term) {
	r := s.ref(t)
	s.send("(assert " + r + ")")
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Check asks whether the assertions plus extra are satisfiable. When the answer
// is Sat and vars is not nil, the values of vars are put in model.
func (s *Solver) Check(extra *Term, vars []*Term, model map[*Term]uint64) (Result, error) {
	t0 := time.Now()
	pushed := false
	if extra != nil {
		r := s.ref(extra)
		s.send("(push 1)")
		s.send("(assert " + r + ")")
		pushed = true
	}
	for _, v := range vars {
		s.ref(v)
	}
	s.send("(check-sat)")
	s.in.Flush()
	// A solver does not always keep to its own time limit.
	proc := s.cmd.Process
	kill := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*3/2+5*time.Second, func() { proc.Kill() })
	line, err := s.readLine()
	if !kill.Stop() && err == nil {
		err = fmt.Errorf("out of time")
	}
	if err != nil {
		return Unknown, err
	}
	s.Queries++
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		s.Sat++
		if len(vars) > 0 {
			for _, v := range vars {
				s.send("(get-value (" + s.ref(v) + "))")
			}
			s.in.Flush()
			for _, v := range vars {
				txt, err := s.readSexp()
				if err != nil {
					return Unknown, err
				}
				k, err := parseValue(txt, v.S)
				if err != nil {
					return Unknown, fmt.Errorf("value of %s: %q: %v", v.Name, txt, err)
				}
				model[v] = k
			}
		}
	case "unsat":
		res = Unsat
		s.Unsat++
	case "unknown", "timeout":
		s.Unknown++
	default:
		return Unknown, fmt.Errorf("solver said %q", line)
	}
	if pushed {
		s.send("(pop 1)")
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQ {
		s.MaxQ = d
	}
	return res, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '|' {
			inq = !inq
		}
		if !inq {
			if c == '(' {
				depth++
				started = true
			}
			if c == ')' {
				depth--
			}
		}
		b.WriteByte(c)
		if started && depth == 0 {
			return b.String(), nil
		}
	}
}

func parseValue(txt string, so Sort) (uint64, error) {
	// ((name value))
	txt = strings.TrimSpace(txt)
	txt = strings.TrimSuffix(strings.TrimPrefix(txt, "(("), "))")
	if strings.HasPrefix(txt, "|") {
		i := strings.Index(txt[1:], "|")
		txt = txt[i+2:]
	} else if i := strings.IndexAny(txt, " \n"); i >= 0 {
		txt = txt[i:]
	}
	txt = strings.TrimSpace(txt)
	// the trimming may have eaten the closing parentheses of the value itself
	for strings.Count(txt, "(") > strings.Count(txt, ")") {
		txt += ")"
	}
	return parseVal(txt, so)
}

func parseBits(x string) (uint64, int, error) {
	if strings.HasPrefix(x, "#x") {
		v, err := strconv.ParseUint(x[2:], 16, 64)
		return v, 4 * (len(x) - 2), err
	}
	if strings.HasPrefix(x, "#b") {
		v, err := strconv.ParseUint(x[2:], 2, 64)
		return v, len(x) - 2, err
	}
	return 0, 0, fmt.Errorf("not bits: %q", x)
}

func parseVal(txt string, so Sort) (uint64, error) {
	switch so.K {
	case KBool:
		return b2u(txt == "true"), nil
	case KBV:
		v, _, err := parseBits(txt)
		return v, err
	}
	f := strings.Fields(strings.Trim(txt, "()"))
	if len(f) == 4 && f[0] == "fp" {
		sg, _, e1 := parseBits(f[1])
		ex, _, e2 := parseBits(f[2])
		ma, _, e3 := parseBits(f[3])
		if e1 != nil || e2 != nil || e3 != nil {
			return 0, fmt.Errorf("bad fp %q", txt)
		}
		if so.W == 32 {
			return sg<<31 | ex<<23 | ma, nil
		}
		return sg<<63 | ex<<52 | ma, nil
	}
	if len(f) >= 2 && f[0] == "_" {
		big := so.W == 64
		switch f[1] {
		case "+zero":
			return 0, nil
		case "-zero":
			if big {
				return 1 << 63, nil
			}
			return 1 << 31, nil
		case "+oo":
			if big {
				return 0x7ff0000000000000, nil
			}
			return 0x7f800000, nil
		case "-oo":
			if big {
				return 0xfff0000000000000, nil
			}
			return 0xff800000, nil
		case "NaN":
			return Const(so, 0x7fffffffffffffff).K, nil
		}
	}
	return 0, fmt.Errorf("bad value %q", txt)
}
