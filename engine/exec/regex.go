package exec

import (
	"fmt"
	"regexp/syntax"
	"strings"

	"verif/engine/smt"
)

// symRegexp is a compiled regular expression some of whose literal characters
// are symbolic bytes (private-use runes stand for them).
type symRegexp struct {
	src   Str
	prog  *syntax.Prog
	lits  []*smt.Term
	ncap  int
	names []string
}

const puaBase = 0xE000

const reMeta = `\.+*?()|[]{}^$`

func (x *Path) inSet(t *smt.Term, set string) *smt.Term {
	r := smt.False
	for i := 0; i < len(set); i++ {
		r = x.c.Or(r, x.c.Eq(t, smt.BVc(8, uint64(set[i]))))
	}
	return r
}

func (x *Path) reCompile(s Str) (*symRegexp, error) {
	re := &symRegexp{src: s}
	pat := s.S
	if s.B != nil {
		var b strings.Builder
		plain := true // symbolic literals may be left symbolic here
		esc, group, fold := false, false, false
		for i := 0; i < s.Len(); i++ {
			t := x.narrow(s.At(i))
			if !t.IsConst() {
				switch {
				case esc || !plain:
					t = smt.BVc(8, x.concretize(t))
				case x.branch(x.inSet(t, reMeta)):
					t = smt.BVc(8, x.concretize(t))
				case !x.branch(x.c.Cmp(smt.OUlt, t, smt.BVc(8, 0x80))):
					t = smt.BVc(8, x.concretize(t))
				}
			}
			if !t.IsConst() {
				b.WriteRune(rune(puaBase + len(re.lits)))
				re.lits = append(re.lits, t)
				esc = false
				continue
			}
			c := byte(t.K)
			b.WriteByte(c)
			if esc {
				esc = false
				if c == 'Q' || c == 'p' || c == 'P' || c == 'x' {
					plain = false
				}
				continue
			}
			if group {
				// (?flags) and (?flags: may be followed by symbolic literals
				// again, unless letter case is folded or the group is named
				switch c {
				case ')', ':':
					group, plain = false, !fold
				case 'm', 's', 'U', '-':
				default:
					fold = true
				}
				continue
			}
			switch c {
			case '\\':
				esc = true
			case '[', '{':
				plain = false
			case '?':
				if i > 0 {
					if p := s.At(i - 1); p.IsConst() && p.K == '(' && plain {
						plain, group = false, true
					}
				}
			}
		}
		pat = b.String()
	}
	p, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, fmt.Errorf("error parsing regexp: %v", err)
	}
	re.ncap, re.names = p.MaxCap(), p.CapNames()
	re.prog, err = syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	return re, nil
}

func (re *symRegexp) runeMatch(x *Path, in *syntax.Inst, r *smt.Term) *smt.Term {
	w := int(r.S.W)
	cst := func(k rune) *smt.Term { return smt.BVc(w, uint64(uint32(k))) }
	fits := func(k rune) bool { return w >= 32 || k < 256 }
	one := func(k rune, fold bool) *smt.Term {
		if k >= puaBase && int(k-puaBase) < len(re.lits) {
			t := re.lits[k-puaBase]
			if w > 8 {
				t = x.c.Zext(t, w)
			}
			if fold {
				return x.c.Eq(x.lowerT(r), x.lowerT(t))
			}
			return x.c.Eq(r, t)
		}
		if !fits(k) {
			return smt.False
		}
		return x.c.Eq(r, cst(k))
	}
	switch in.Op {
	case syntax.InstRuneAny:
		return smt.True
	case syntax.InstRuneAnyNotNL:
		return x.c.Not(x.c.Eq(r, cst('\n')))
	}
	fold := syntax.Flags(in.Arg)&syntax.FoldCase != 0
	if len(in.Rune) == 1 {
		k := in.Rune[0]
		if fold && (k < puaBase || int(k-puaBase) >= len(re.lits)) {
			// every rune in the folding orbit
			res := smt.False
			inst := syntax.Inst{Op: syntax.InstRune, Rune: in.Rune, Arg: in.Arg}
			if r.IsConst() {
				return smt.Bc(inst.MatchRune(rune(r.K)))
			}
			for c := rune(0); c < 0x80; c++ {
				if inst.MatchRune(c) {
					res = x.c.Or(res, x.c.Eq(r, cst(c)))
				}
			}
			return res
		}
		return one(k, fold)
	}
	res := smt.False
	for i := 0; i+1 < len(in.Rune); i += 2 {
		lo, hi := in.Rune[i], in.Rune[i+1]
		for k := 0; k < len(re.lits); k++ {
			p := rune(puaBase + k)
			if p >= lo && p <= hi {
				res = x.c.Or(res, one(p, fold))
			}
		}
		if len(re.lits) > 0 && lo >= puaBase && int(hi-puaBase) < len(re.lits) {
			continue
		}
		if lo == hi {
			if fits(lo) {
				res = x.c.Or(res, x.c.Eq(r, cst(lo)))
			}
			continue
		}
		if !fits(lo) {
			continue
		}
		if !fits(hi) {
			hi = 255
		}
		res = x.c.Or(res, x.c.And(x.c.Cmp(smt.OUle, cst(lo), r), x.c.Cmp(smt.OUle, r, cst(hi))))
	}
	return res
}

// reMatch runs the program over the string, giving the condition of a match.
func (x *Path) reMatch(re *symRegexp, s Str) *smt.Term {
	var rs []*smt.Term
	for i := 0; i < s.Len(); {
		r, n := x.decodeRune(s, i)
		rs = append(rs, x.narrow(r))
		i += n
	}
	c := x.c
	n := len(rs)
	isWord := func(i int) bool {
		if i < 0 || i >= n {
			return false
		}
		r := rs[i]
		w := smt.False
		for _, p := range [][2]uint64{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}} {
			w = c.Or(w, c.And(c.Cmp(smt.OUle, smt.Const(r.S, p[0]), r), c.Cmp(smt.OUle, r, smt.Const(r.S, p[1]))))
		}
		return x.branch(w)
	}
	matched := smt.False
	cur := map[uint32]*smt.Term{}
	var add func(set map[uint32]*smt.Term, order *[]uint32, pc uint32, cond *smt.Term, pos int, onPath map[uint32]bool)
	add = func(set map[uint32]*smt.Term, order *[]uint32, pc uint32, cond *smt.Term, pos int, onPath map[uint32]bool) {
		if cond.IsFalse() || onPath[pc] {
			return
		}
		in := &re.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
		case syntax.InstAlt, syntax.InstAltMatch:
			onPath[pc] = true
			add(set, order, in.Out, cond, pos, onPath)
			add(set, order, in.Arg, cond, pos, onPath)
			delete(onPath, pc)
		case syntax.InstCapture, syntax.InstNop:
			onPath[pc] = true
			add(set, order, in.Out, cond, pos, onPath)
			delete(onPath, pc)
		case syntax.InstEmptyWidth:
			ok := true
			f := syntax.EmptyOp(in.Arg)
			if f&syntax.EmptyBeginText != 0 && pos != 0 {
				ok = false
			}
			if f&syntax.EmptyEndText != 0 && pos != n {
				ok = false
			}
			if ok && f&syntax.EmptyBeginLine != 0 && pos != 0 && !x.branch(c.Eq(rs[pos-1], smt.Const(rs[pos-1].S, '\n'))) {
				ok = false
			}
			if ok && f&syntax.EmptyEndLine != 0 && pos != n && !x.branch(c.Eq(rs[pos], smt.Const(rs[pos].S, '\n'))) {
				ok = false
			}
			if ok && f&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				b := isWord(pos-1) != isWord(pos)
				if f&syntax.EmptyWordBoundary != 0 && !b || f&syntax.EmptyNoWordBoundary != 0 && b {
					ok = false
				}
			}
			if ok {
				onPath[pc] = true
				add(set, order, in.Out, cond, pos, onPath)
				delete(onPath, pc)
			}
		case syntax.InstMatch:
			matched = c.Or(matched, cond)
		default:
			if o, ok := set[pc]; ok {
				set[pc] = c.Or(o, cond)
			} else {
				set[pc] = cond
				*order = append(*order, pc)
			}
		}
	}
	var order []uint32
	for pos := 0; pos <= n; pos++ {
		add(cur, &order, uint32(re.prog.Start), smt.True, pos, map[uint32]bool{})
		if matched.IsTrue() || pos == n {
			break
		}
		next := map[uint32]*smt.Term{}
		var norder []uint32
		for _, pc := range order {
			in := &re.prog.Inst[pc]
			cond := c.And(cur[pc], re.runeMatch(x, in, rs[pos]))
			add(next, &norder, in.Out, cond, pos+1, map[uint32]bool{})
		}
		cur, order = next, norder
	}
	return matched
}
