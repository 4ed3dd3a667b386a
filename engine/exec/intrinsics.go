package exec

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/llvm"
	"verif/engine/smt"
)

type intrinsic func(x *Path, fn *ssa.Function, a []Value) Value

var intrinsics map[string]intrinsic

func str(v Value) Str {
	s, ok := v.(Str)
	if !ok {
		panic(unsupported(fmt.Sprintf("string expected, have %T", v)))
	}
	return s
}

// cstring returns a concrete string, forking when needed.
func (x *Path) cstring(v Value) string {
	s := str(v)
	if s.B == nil {
		return s.S
	}
	b := make([]byte, len(s.B))
	for i, t := range s.B {
		b[i] = byte(x.concretize(t))
	}
	return string(b)
}

func sliceStr(v Value) Str {
	sl := v.(Slice)
	b := make([]*smt.Term, len(sl))
	for i := range sl {
		b[i] = sl[i].(*smt.Term)
	}
	return mkStr(b)
}

func strSlice(s Str) Slice {
	r := make(Slice, s.Len())
	for i := range r {
		r[i] = s.At(i)
	}
	return r
}

func term(v Value) *smt.Term { return v.(*smt.Term) }
func i64(n int) *smt.Term    { return smt.BVc(64, uint64(n)) }

func (x *Path) indexByte(s Str, c *smt.Term) Value {
	for i := 0; i < s.Len(); i++ {
		if x.branch(x.c.Eq(s.At(i), c)) {
			return i64(i)
		}
	}
	return i64(-1)
}

func (x *Path) index2(s, sub Str) Value {
	for i := 0; i+sub.Len() <= s.Len(); i++ {
		if x.branch(x.strEq(s.Slice(i, i+sub.Len()), sub)) {
			return i64(i)
		}
	}
	return i64(-1)
}

func (x *Path) count(s Str, c *smt.Term) Value {
	n := 0
	for i := 0; i < s.Len(); i++ {
		if x.branch(x.c.Eq(s.At(i), c)) {
			n++
		}
	}
	return i64(n)
}

func (x *Path) compare(a, b Str) Value {
	return x.c.Ite(x.strEq(a, b), i64(0), x.c.Ite(x.strLess(a, b), i64(-1), i64(1)))
}

// mapASCII applies f to every byte when all are ASCII, forking on whether they are.
func (x *Path) mapCase(s Str, lower bool) Value {
	if s.B == nil {
		if lower {
			return Str{S: strings.ToLower(s.S)}
		}
		return Str{S: strings.ToUpper(s.S)}
	}
	out := make([]*smt.Term, 0, s.Len())
	for i := 0; i < s.Len(); {
		t := s.At(i)
		if x.branch(x.c.Cmp(smt.OUlt, t, smt.BVc(8, 0x80))) {
			if lower {
				out = append(out, x.lowerT(t))
			} else {
				out = append(out, x.upperT(t))
			}
			i++
			continue
		}
		r, n := x.decodeRune(s, i)
		k := rune(int32(x.concretize(r)))
		var c string
		if lower {
			c = strings.ToLower(string(k))
		} else {
			c = strings.ToUpper(string(k))
		}
		for _, b := range []byte(c) {
			out = append(out, smt.BVc(8, uint64(b)))
		}
		i += n
	}
	return mkStr(out)
}

func (x *Path) mkErr(msg Str) Value {
	// *errors.errorString
	p := x.e.prog.ImportedPackage("errors")
	if p == nil {
		panic(unsupported("errors package"))
	}
	t := types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
	var v Value = Struct{msg}
	return Iface{T: t, V: GPtr{&v}}
}

func goroutineNop(x *Path, fn *ssa.Function, a []Value) Value { return nil }

func ptrKey(v Value) *Value {
	if g, ok := v.(GPtr); ok {
		return g.P
	}
	return nil
}

func init() {
	f1 := func(f func(x *Path, a []Value) Value) intrinsic {
		return func(x *Path, _ *ssa.Function, a []Value) Value { return f(x, a) }
	}
	nop := goroutineNop
	intrinsics = map[string]intrinsic{
		// bytes and strings
		"internal/bytealg.IndexByteString": f1(func(x *Path, a []Value) Value { return x.indexByte(str(a[0]), term(a[1])) }),
		"internal/bytealg.IndexByte":       f1(func(x *Path, a []Value) Value { return x.indexByte(sliceStr(a[0]), term(a[1])) }),
		"strings.IndexByte":                f1(func(x *Path, a []Value) Value { return x.indexByte(str(a[0]), term(a[1])) }),
		"strings.Index":                    f1(func(x *Path, a []Value) Value { return x.index2(str(a[0]), str(a[1])) }),
		"bytes.IndexByte":                  f1(func(x *Path, a []Value) Value { return x.indexByte(sliceStr(a[0]), term(a[1])) }),
		"bytes.Index":                      f1(func(x *Path, a []Value) Value { return x.index2(sliceStr(a[0]), sliceStr(a[1])) }),
		"internal/bytealg.CountString":     f1(func(x *Path, a []Value) Value { return x.count(str(a[0]), term(a[1])) }),
		"internal/bytealg.Count":           f1(func(x *Path, a []Value) Value { return x.count(sliceStr(a[0]), term(a[1])) }),
		"internal/bytealg.CompareString":   f1(func(x *Path, a []Value) Value { return x.compare(str(a[0]), str(a[1])) }),
		"internal/bytealg.Compare":         f1(func(x *Path, a []Value) Value { return x.compare(sliceStr(a[0]), sliceStr(a[1])) }),
		"internal/bytealg.Equal":           f1(func(x *Path, a []Value) Value { return x.strEq(sliceStr(a[0]), sliceStr(a[1])) }),
		"bytes.Equal":                      f1(func(x *Path, a []Value) Value { return x.strEq(sliceStr(a[0]), sliceStr(a[1])) }),
		"internal/bytealg.IndexString":     f1(func(x *Path, a []Value) Value { return x.index2(str(a[0]), str(a[1])) }),
		"internal/bytealg.Index":           f1(func(x *Path, a []Value) Value { return x.index2(sliceStr(a[0]), sliceStr(a[1])) }),
		"internal/bytealg.MakeNoZero": f1(func(x *Path, a []Value) Value {
			n := int(x.concretize(term(a[0])))
			r := make(Slice, n)
			for i := range r {
				r[i] = smt.BVc(8, 0)
			}
			return r
		}),
		"strings.ToLower":                f1(func(x *Path, a []Value) Value { return x.mapCase(str(a[0]), true) }),
		"strings.ToUpper":                f1(func(x *Path, a []Value) Value { return x.mapCase(str(a[0]), false) }),
		"strings.Clone":                  f1(func(x *Path, a []Value) Value { return a[0] }),
		"internal/stringslite.Clone":     f1(func(x *Path, a []Value) Value { return a[0] }),
		"internal/stringslite.Index":     f1(func(x *Path, a []Value) Value { return x.index2(str(a[0]), str(a[1])) }),
		"internal/stringslite.IndexByte": f1(func(x *Path, a []Value) Value { return x.indexByte(str(a[0]), term(a[1])) }),
		"(*strings.Builder).copyCheck":   nop,
		"(*strings.Builder).String": f1(func(x *Path, a []Value) Value {
			p := a[0].(GPtr)
			if p.P == nil {
				x.nilDeref()
			}
			s := (*p.P).(Struct)
			return sliceStr(s[len(s)-1])
		}),
		"bytealg.abigen_runtime_memequal": nop,
		// runtime, sync
		"runtime.SetFinalizer": nop, "runtime.KeepAlive": nop, "runtime.GC": nop, "runtime.Gosched": nop, "runtime.AddCleanup": nop,
		"internal/race.Acquire": nop, "internal/race.Release": nop, "internal/race.Enable": nop, "internal/race.Disable": nop,
		"internal/race.ReadRange": nop, "internal/race.WriteRange": nop, "internal/race.Errors": nop,
		"internal/godebug.New":                      f1(func(x *Path, a []Value) Value { return GPtr{} }),
		"(*internal/godebug.Setting).Value":         f1(func(x *Path, a []Value) Value { return Str{} }),
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*sync.Mutex).Lock":                        lockFn(true), "(*sync.Mutex).Unlock": lockFn(false),
		"(*sync.RWMutex).Lock": lockFn(true), "(*sync.RWMutex).Unlock": lockFn(false),
		"(*sync.RWMutex).RLock": lockRFn(true), "(*sync.RWMutex).RUnlock": lockRFn(false),
		"(*sync.Once).Do": f1(func(x *Path, a []Value) Value {
			k := ptrKey(a[0])
			s := (*k).(Struct)
			x.lockEvent("lock", k)
			defer x.lockEvent("unlock", k)
			// field "done" first use: keep our own flag in the last field
			if d, ok := s[0].(onceDone); ok && bool(d) {
				return nil
			}
			s[0] = onceDone(true)
			x.call(a[1].(*Closure), nil)
			return nil
		}),
		"(*sync.Once).doSlow": nop,
		"(*sync.Pool).Get": f1(func(x *Path, a []Value) Value {
			s := (*ptrKey(a[0])).(Struct)
			nf := s[len(s)-1]
			if c, ok := nf.(*Closure); ok && c != nil {
				return x.call(c, nil)
			}
			return Iface{}
		}),
		"(*sync.Pool).Put": nop,
		"os.Getenv":        f1(func(x *Path, a []Value) Value { return Str{} }),
		"time.Now":         f1(timeNow),
		"time.now": f1(func(x *Path, a []Value) Value {
			return Tuple{smt.BVc(64, 1700000000), smt.BVc(32, 123456789), smt.BVc(64, 1000)}
		}),
		"time.runtimeNano": f1(func(x *Path, a []Value) Value { return smt.BVc(64, 1000) }),
		"time.Parse":       timeParse,
		"time.runtimeNow": f1(func(x *Path, a []Value) Value {
			return Tuple{smt.BVc(64, 1700000000), smt.BVc(32, 123456789), smt.BVc(64, 1000)}
		}),
		"time.initLocal": nop,
		// math
		"math.Float64bits": f1(func(x *Path, a []Value) Value {
			t := term(a[0])
			if t.IsConst() {
				return smt.BVc(64, t.K)
			}
			if t.Op == smt.OFFromBits {
				return t.A
			}
			b := x.NewVar("f64bits", smt.BV(64))
			x.assume(x.c.Eq(x.c.FFromBits(b, smt.F64), t))
			return b
		}),
		"math.Float32bits": f1(func(x *Path, a []Value) Value {
			t := term(a[0])
			if t.IsConst() {
				return smt.BVc(32, t.K)
			}
			panic(unsupported("symbolic Float32bits"))
		}),
		"math.Float64frombits": f1(func(x *Path, a []Value) Value { return x.c.FFromBits(term(a[0]), smt.F64) }),
		"math.Float32frombits": f1(func(x *Path, a []Value) Value { return x.c.FFromBits(term(a[0]), smt.F32) }),
		"math.Abs":             f1(func(x *Path, a []Value) Value { return x.c.FAbs(term(a[0])) }),
		"math.IsNaN":           f1(func(x *Path, a []Value) Value { return x.c.FIsNaN(term(a[0])) }),
		"math.IsInf": f1(func(x *Path, a []Value) Value {
			t := term(a[0])
			s := term(a[1])
			inf := x.c.FIsInf(t)
			pos := x.c.FCmp(smt.OFLt, smt.Fc(0), t)
			return x.c.And(inf, x.c.Or(x.c.Eq(s, i64(0)), x.c.Eq(x.c.Cmp(smt.OSlt, i64(0), s), pos)))
		}),
		"math.Signbit": f1(func(x *Path, a []Value) Value {
			t := term(a[0])
			if t.IsConst() {
				return smt.Bc(math.Signbit(t.Float()))
			}
			panic(unsupported("symbolic Signbit"))
		}),
		"math.Mod":   f1(func(x *Path, a []Value) Value { return x.fmod(term(a[0]), term(a[1])) }),
		"math.mod":   f1(func(x *Path, a []Value) Value { return x.fmod(term(a[0]), term(a[1])) }),
		"math.Trunc": f1(func(x *Path, a []Value) Value { return x.c.FRoundZ(term(a[0])) }),
		"math.trunc": f1(func(x *Path, a []Value) Value { return x.c.FRoundZ(term(a[0])) }),
		"math.Floor": f1(floatFn(math.Floor)), "math.Ceil": f1(floatFn(math.Ceil)), "math.Sqrt": f1(floatFn(math.Sqrt)),
		"math.Log": f1(floatFn(math.Log)), "math.Log2": f1(floatFn(math.Log2)), "math.Log10": f1(floatFn(math.Log10)),
		"math.Exp": f1(floatFn(math.Exp)), "math.Exp2": f1(floatFn(math.Exp2)), "math.Cbrt": f1(floatFn(math.Cbrt)),
		"math.Pow": f1(func(x *Path, a []Value) Value {
			p, q := term(a[0]), term(a[1])
			if p.IsConst() && q.IsConst() {
				return smt.Fc(math.Pow(p.Float(), q.Float()))
			}
			panic(unsupported("symbolic Pow"))
		}),
		"math/bits.TrailingZeros64": f1(bitsFn(func(k uint64) uint64 { return uint64(tz(k, 64)) })),
		"math/bits.Len64":           f1(bitsFn(func(k uint64) uint64 { return uint64(bl(k)) })),
		"math/bits.Len32":           f1(bitsFn(func(k uint64) uint64 { return uint64(bl(k)) })),
		"math/bits.Len":             f1(bitsFn(func(k uint64) uint64 { return uint64(bl(k)) })),
		"math/rand.Intn":            f1(randIntn), "math/rand.Int31n": f1(func(x *Path, a []Value) Value {
			r := randIntn(x, []Value{x.c.Sext(term(a[0]), 64)}).(*smt.Term)
			return x.c.Extract(r, 31, 0)
		}), "math/rand.Int63n": f1(randIntn), "(*math/rand.Rand).Intn": f1(func(x *Path, a []Value) Value { return randIntn(x, a[1:]) }),
		"math/rand/v2.IntN": f1(randIntn), "math/rand/v2.N": f1(randIntn),
		"math/rand.Seed": nop,
		// fmt
		"fmt.Sprintf":  f1(func(x *Path, a []Value) Value { return x.sprintf(str(a[0]), a[1].(Slice)) }),
		"fmt.Sprint":   f1(func(x *Path, a []Value) Value { return x.sprint(a[0].(Slice), false) }),
		"fmt.Sprintln": f1(func(x *Path, a []Value) Value { return x.sprint(a[0].(Slice), true) }),
		"fmt.Errorf":   f1(func(x *Path, a []Value) Value { return x.mkErr(x.sprintf(str(a[0]), a[1].(Slice))) }),
		"fmt.Println": f1(func(x *Path, a []Value) Value {
			if x.proc != nil {
				x.procWrite(1, x.sprint(a[0].(Slice), true))
			}
			return Tuple{i64(0), Iface{}}
		}),
		"fmt.Printf": f1(func(x *Path, a []Value) Value {
			if x.proc != nil {
				x.procWrite(1, x.sprintf(str(a[0]), a[1].(Slice)))
			}
			return Tuple{i64(0), Iface{}}
		}),
		"fmt.Print": f1(func(x *Path, a []Value) Value {
			if x.proc != nil {
				x.procWrite(1, x.sprint(a[0].(Slice), false))
			}
			return Tuple{i64(0), Iface{}}
		}),
		"fmt.Fprintf": f1(func(x *Path, a []Value) Value {
			return x.fwrite(a[0].(Iface), x.sprintf(str(a[1]), a[2].(Slice)))
		}),
		"fmt.Fprint": f1(func(x *Path, a []Value) Value { return x.fwrite(a[0].(Iface), x.sprint(a[1].(Slice), false)) }),
		"fmt.Fprintln": f1(func(x *Path, a []Value) Value {
			return x.fwrite(a[0].(Iface), x.sprint(a[1].(Slice), true))
		}),
		"log.Fatal":   f1(func(x *Path, a []Value) Value { return x.fatal("log.Fatal") }),
		"log.Fatalf":  f1(func(x *Path, a []Value) Value { return x.fatal("log.Fatal") }),
		"os.Exit":     f1(func(x *Path, a []Value) Value { return x.exit(term(a[0]), "os.Exit") }),
		"log.Println": nop, "log.Printf": nop, "log.Print": nop,
		// strconv
		"strconv.ParseFloat": f1(parseFloat),
		"strconv.FormatFloat": f1(func(x *Path, a []Value) Value {
			t := term(a[0])
			if !t.IsConst() {
				if term(a[2]).Int() >= 0 || term(a[3]).Int() == 32 {
					return x.lossyText(t, func(f float64) string {
						return strconv.FormatFloat(f, byte(term(a[1]).K), int(term(a[2]).Int()), int(term(a[3]).Int()))
					})
				}
				return Str{S: x.textOfFloat(t)}
			}
			return Str{S: strconv.FormatFloat(t.Float(), byte(term(a[1]).K), int(term(a[2]).Int()), int(term(a[3]).Int()))}
		}),
		"strconv.Itoa": f1(func(x *Path, a []Value) Value {
			return Str{S: strconv.Itoa(int(int64(x.concretize(term(a[0])))))}
		}),
		"strconv.Quote": f1(func(x *Path, a []Value) Value { return x.quote(str(a[0])) }),
		// regexp
		"regexp.MatchString": f1(func(x *Path, a []Value) Value {
			re, err := x.reCompile(str(a[0]))
			if err != nil {
				return Tuple{smt.False, x.mkErr(Str{S: err.Error()})}
			}
			return Tuple{x.reMatch(re, str(a[1])), Iface{}}
		}),
		"regexp.Compile": f1(func(x *Path, a []Value) Value {
			re, err := x.reCompile(str(a[0]))
			if err != nil {
				return Tuple{GPtr{}, x.mkErr(Str{S: err.Error()})}
			}
			var v Value = re
			return Tuple{GPtr{&v}, Iface{}}
		}),
		"regexp.MustCompile": f1(func(x *Path, a []Value) Value {
			re, err := x.reCompile(str(a[0]))
			if err != nil {
				panic(tpanic{v: Iface{types.Typ[types.String], Str{S: err.Error()}}, msg: err.Error()})
			}
			var v Value = re
			return GPtr{&v}
		}),
		"(*regexp.Regexp).MatchString": f1(func(x *Path, a []Value) Value {
			return x.reMatch((*ptrKey(a[0])).(*symRegexp), str(a[1]))
		}),
		"(*regexp.Regexp).Match": f1(func(x *Path, a []Value) Value {
			return x.reMatch((*ptrKey(a[0])).(*symRegexp), sliceStr(a[1]))
		}),
		"(*regexp.Regexp).String": f1(func(x *Path, a []Value) Value { return (*ptrKey(a[0])).(*symRegexp).src }),
		// encoding/json
		"encoding/json.Marshal": f1(jsonMarshal),
	}
	for k, v := range symIntrinsics() {
		intrinsics[k] = v
	}
	for k, v := range reflectIntrinsics() {
		intrinsics[k] = v
	}
	for k, v := range reflectMore() {
		intrinsics[k] = v
	}
	for k, v := range stdlibIntrinsics() {
		intrinsics[k] = v
	}
}

type onceDone bool

func tz(k uint64, w int) int {
	if k == 0 {
		return w
	}
	n := 0
	for k&1 == 0 {
		k >>= 1
		n++
	}
	return n
}
func bl(k uint64) int {
	n := 0
	for k > 0 {
		k >>= 1
		n++
	}
	return n
}

func bitsFn(f func(uint64) uint64) func(x *Path, a []Value) Value {
	return func(x *Path, a []Value) Value {
		return smt.BVc(64, f(x.concretize(term(a[0]))))
	}
}

func floatFn(f func(float64) float64) func(x *Path, a []Value) Value {
	return func(x *Path, a []Value) Value {
		t := term(a[0])
		if t.IsConst() {
			return smt.Fc(f(t.Float()))
		}
		panic(unsupported("symbolic float function"))
	}
}

// fmod is C's fmod: exact on constants; on symbolic operands a fresh value with
// the defining facts that the properties rely on, the same for the same operands.
func (x *Path) fmod(a, b *smt.Term) *smt.Term {
	if a.IsConst() && b.IsConst() {
		return smt.Fc(math.Mod(a.Float(), b.Float()))
	}
	key := fmt.Sprintf("mod:%d.%x:%d.%x", a.ID, a.K, b.ID, b.K)
	if v := x.strtodSeen[key]; v != nil {
		return v
	}
	c := x.c
	v := x.NewVar("fmod", smt.F64)
	x.strtodSeen[key] = v
	bad := c.Or(c.Or(c.FIsNaN(a), c.FIsNaN(b)), c.Or(c.FIsInf(a), c.FCmp(smt.OFEq, b, smt.Fc(0))))
	small := c.FCmp(smt.OFLt, c.FAbs(a), c.FAbs(b))
	ok := c.And(c.FCmp(smt.OFLt, c.FAbs(v), c.FAbs(b)), c.FCmp(smt.OFLe, c.FAbs(v), c.FAbs(a)))
	sign := c.Or(c.FCmp(smt.OFEq, v, smt.Fc(0)), c.Eq(c.FCmp(smt.OFLt, v, smt.Fc(0)), c.FCmp(smt.OFLt, a, smt.Fc(0))))
	x.assume(c.Ite(bad, c.FIsNaN(v), c.And(ok, c.And(sign, c.Or(c.Not(small), c.Eq(v, a))))))
	return v
}

func lockFn(lock bool) intrinsic {
	return func(x *Path, fn *ssa.Function, a []Value) Value {
		p := ptrKey(a[0])
		if p == nil {
			x.nilDeref()
		}
		if lock {
			if x.locks[p] != 0 {
				x.violate("deadlock: mutex locked again by its holder")
			}
			x.locks[p] = 1
			x.lockEvent("lock", p)
		} else {
			if x.locks[p] != 1 {
				panic(tpanic{msg: "fatal error: sync: unlock of unlocked mutex", v: Iface{types.Typ[types.String], Str{S: "unlock of unlocked mutex"}}})
			}
			x.locks[p] = 0
			x.lockEvent("unlock", p)
		}
		return nil
	}
}

func lockRFn(lock bool) intrinsic {
	return func(x *Path, fn *ssa.Function, a []Value) Value {
		p := ptrKey(a[0])
		k := "runlock"
		if lock {
			k = "rlock"
		}
		x.lockEvent(k, p)
		return nil
	}
}

// timeParse answers the case of a text too short for the layout itself and
// interprets the library otherwise.
func timeParse(x *Path, fn *ssa.Function, a []Value) Value {
	l, s := str(a[0]), str(a[1])
	if l.B == nil && (l.S == "2006-01-02T15:04:05Z07:00" || l.S == "2006-01-02") && s.Len() < 10 {
		return Tuple{zero(fn.Signature.Results().At(0).Type()), x.mkErr(Str{S: "parsing time: too short"})}
	}
	return x.callBody(fn, a)
}

func timeNow(x *Path, a []Value) Value {
	x.w.note("time.Now is a fixed instant")
	p := x.e.prog.ImportedPackage("time")
	return x.callSSA(p.Func("Unix"), []Value{smt.BVc(64, 1700000000), smt.BVc(64, 123456789)}, nil)
}

// randIntn gives the digits of a counter, so identifiers built from four letters
// do not repeat.
func randIntn(x *Path, a []Value) Value {
	n := int64(x.concretize(term(a[0])))
	if n <= 0 {
		panic(tpanic{msg: "invalid argument to Intn", v: Iface{types.Typ[types.String], Str{S: "invalid argument to Intn"}}})
	}
	k := x.randN
	x.randN++
	word, digit := k/4, k%4
	for i := 0; i < digit; i++ {
		word /= int(n)
	}
	return i64(word % int(n))
}

func parseFloat(x *Path, a []Value) Value {
	s := str(a[0])
	if s.B == nil {
		t, neg := strings.CutPrefix(s.S, "-")
		if v := x.numText[strings.TrimPrefix(t, "+")]; v != nil {
			if neg {
				v = x.c.FNeg(v)
			}
			if term(a[1]).Int() == 32 && v.S.W == 64 {
				w := x.c.FToF(v, smt.F32)
				if x.branch(x.c.And(x.c.FIsInf(w), x.c.Not(x.c.FIsInf(v)))) {
					return Tuple{x.c.FToF(w, v.S), x.mkErr(Str{S: "strconv.ParseFloat: value out of range"})}
				}
				v = x.c.FToF(w, v.S)
			}
			return Tuple{v, Iface{}}
		}
		f, err := strconv.ParseFloat(s.S, int(term(a[1]).Int()))
		if err != nil {
			return Tuple{smt.Fc(f), x.mkErr(Str{S: err.Error()})}
		}
		return Tuple{smt.Fc(f), Iface{}}
	}
	if x.strtodVal != nil {
		v := x.strtodVal
		x.strtodVal = nil
		return Tuple{v, Iface{}}
	}
	// digits with at most one point are parsed; anything else is concretized
	for i := 0; i < s.Len(); i++ {
		t := s.At(i)
		if t.IsConst() {
			continue
		}
		if !x.feasibleDigitOnly(t) {
			f, err := strconv.ParseFloat(x.cstring(s), 64)
			if err != nil {
				return Tuple{smt.Fc(f), x.mkErr(Str{S: err.Error()})}
			}
			return Tuple{smt.Fc(f), Iface{}}
		}
	}
	return Tuple{x.floatOfText(s), Iface{}}
}

func (x *Path) fwrite(w Iface, s Str) Value {
	if w.T == nil {
		x.nilDeref()
	}
	if types.TypeString(w.T, nil) == "*os.File" {
		x.procWrite(x.fdOf(w.V), s)
		return Tuple{i64(s.Len()), Iface{}}
	}
	if fn := x.methodByName(w.T, "WriteString"); fn != nil {
		return x.callSSA(fn, []Value{w.V, s}, nil)
	}
	fn := x.methodByName(w.T, "Write")
	if fn == nil {
		panic(unsupported("writer " + w.T.String()))
	}
	return x.callSSA(fn, []Value{w.V, strSlice(s)}, nil)
}

// ---- formatting

func (x *Path) sprint(args []Value, ln bool) Str {
	r := Str{}
	prevStr := true
	for i, a := range args {
		f := a.(Iface)
		isStr := f.T != nil && basicOf(f.T) != nil && basicOf(f.T).Info()&types.IsString != 0
		if i > 0 && (ln || !isStr && !prevStr) {
			r = catStr(r, Str{S: " "})
		}
		r = catStr(r, x.fmtVal('v', "", f, 0))
		prevStr = isStr
	}
	if ln {
		r = catStr(r, Str{S: "\n"})
	}
	return r
}

func (x *Path) sprintf(format Str, args []Value) Str {
	if format.B != nil {
		format = Str{S: x.cstring(format)}
	}
	f := format.S
	r := Str{}
	ai := 0
	for i := 0; i < len(f); {
		k := strings.IndexByte(f[i:], '%')
		if k < 0 {
			r = catStr(r, Str{S: f[i:]})
			break
		}
		r = catStr(r, Str{S: f[i : i+k]})
		i += k + 1
		j := i
		for j < len(f) && strings.IndexByte("0123456789.+-# *[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			r = catStr(r, Str{S: "%!(NOVERB)"})
			break
		}
		verb := f[j]
		flags := f[i:j]
		i = j + 1
		// widths and arguments named in the format
		for {
			k := strings.IndexAny(flags, "*[")
			if k < 0 {
				break
			}
			if flags[k] == '[' {
				e := strings.IndexByte(flags[k:], ']')
				n, err := strconv.Atoi(flags[k+1 : k+max(e, 1)])
				if e < 0 || err != nil || n < 1 || n > len(args) {
					panic(unsupported("format " + f))
				}
				flags, ai = flags[:k]+flags[k+e+1:], n-1
				continue
			}
			if ai >= len(args) {
				panic(unsupported("format " + f))
			}
			w, ok := args[ai].(Iface).V.(*smt.Term)
			if !ok {
				panic(unsupported("format " + f))
			}
			ai++
			flags = flags[:k] + fmt.Sprint(x.concretize(w)) + flags[k+1:]
		}
		if verb == '%' {
			r = catStr(r, Str{S: "%"})
			continue
		}
		if ai >= len(args) {
			r = catStr(r, Str{S: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		r = catStr(r, x.fmtVal(verb, flags, a, 0))
	}
	if ai < len(args) {
		r = catStr(r, Str{S: "%!(EXTRA "})
		for k := ai; k < len(args); k++ {
			if k > ai {
				r = catStr(r, Str{S: ", "})
			}
			f := args[k].(Iface)
			r = catStr(r, Str{S: typeName(f.T) + "="})
			r = catStr(r, x.fmtVal('v', "", f, 0))
		}
		r = catStr(r, Str{S: ")"})
	}
	return r
}

// quote is strconv.Quote, by its own code where the text is symbolic.
func (x *Path) quote(s Str) Str {
	if s.B == nil {
		return Str{S: strconv.Quote(s.S)}
	}
	p := x.e.prog.ImportedPackage("strconv")
	if p == nil {
		return Str{S: strconv.Quote(x.cstring(s))}
	}
	p.Build()
	return str(x.callBody(p.Func("Quote"), []Value{s}))
}

func goVal(u *types.Basic, t *smt.Term) any {
	switch u.Kind() {
	case types.Bool:
		return t.K != 0
	case types.Float64:
		return t.Float()
	case types.Float32:
		return math.Float32frombits(uint32(t.K))
	}
	if u.Info()&types.IsUnsigned != 0 {
		return t.K
	}
	return t.Int()
}

func (x *Path) fmtVal(verb byte, flags string, v Iface, depth int) Str {
	if depth > 8 {
		panic(unsupported("deep formatting"))
	}
	if verb == 'T' {
		return Str{S: typeName(v.T)}
	}
	if v.T == nil {
		if verb == 'v' || verb == 's' && false {
			return Str{S: "<nil>"}
		}
		return Str{S: "%!" + string(verb) + "(<nil>)"}
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			fn := x.methodByName(v.T, m)
			if fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Results().At(0).Type(), types.Typ[types.String]) {
				if isNilPtr(v.V) {
					return Str{S: "<nil>"}
				}
				if types.TypeString(v.T, nil) == "time.Time" {
					if f := v.V.(Struct); !term(f[0]).IsConst() || !term(f[1]).IsConst() {
						return x.placeholder(x.c.Ite(x.c.Eq(term(f[0]), smt.BVc(64, 0)), term(f[1]), x.c.Bin(smt.OAdd, term(f[0]), term(f[1]))))
					}
				}
				s := str(x.callSSA(fn, []Value{copyVal(v.V)}, nil))
				if verb == 'q' {
					return x.quote(s)
				}
				return s
			}
		}
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s := str(v.V)
			switch verb {
			case 'v', 's':
				if flags == "" {
					return s
				}
				return Str{S: fmt.Sprintf("%"+flags+"s", x.cstring(s))}
			}
			return Str{S: fmt.Sprintf("%"+flags+string(verb), x.cstring(s))}
		}
		if u.Kind() == types.UnsafePointer {
			return Str{S: "0xc000000000"}
		}
		if u.Info()&types.IsComplex != 0 {
			return Str{S: "(" + typeName(v.T) + ")"}
		}
		t := term(v.V)
		if !t.IsConst() {
			if t.S.K == smt.KFP {
				if verb == 'v' && flags == "" {
					if ft := x.floatText[t]; ft != "" {
						return Str{S: ft}
					}
					return x.placeholder(t)
				}
				if verb == 'g' && flags == "" && t.S.W == 64 {
					return Str{S: x.textOfFloat(t)}
				}
				return x.lossyText(t, func(f float64) string { return fmt.Sprintf("%"+flags+string(verb), f) })
			}
			return x.intText(t, func(t *smt.Term) string { return fmt.Sprintf("%"+flags+string(verb), goVal(u, t)) })
		}
		return Str{S: fmt.Sprintf("%"+flags+string(verb), goVal(u, t))}
	case *types.Slice:
		sl, _ := v.V.(Slice)
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q') {
			return x.fmtVal(verb, flags, Iface{types.Typ[types.String], sliceStr(sl)}, depth+1)
		}
		r := Str{S: "["}
		for i, e := range sl {
			if i > 0 {
				r = catStr(r, Str{S: " "})
			}
			r = catStr(r, x.fmtVal(verb, flags, asIface(u.Elem(), e), depth+1))
		}
		return catStr(r, Str{S: "]"})
	case *types.Array:
		r := Str{S: "["}
		for i, e := range v.V.(Array) {
			if i > 0 {
				r = catStr(r, Str{S: " "})
			}
			r = catStr(r, x.fmtVal(verb, flags, asIface(u.Elem(), e), depth+1))
		}
		return catStr(r, Str{S: "]"})
	case *types.Struct:
		r := Str{S: "{"}
		for i, e := range v.V.(Struct) {
			if i > 0 {
				r = catStr(r, Str{S: " "})
			}
			if strings.Contains(flags, "+") {
				r = catStr(r, Str{S: u.Field(i).Name() + ":"})
			}
			r = catStr(r, x.fmtVal(verb, flags, asIface(u.Field(i).Type(), e), depth+1))
		}
		return catStr(r, Str{S: "}"})
	case *types.Map:
		m, _ := v.V.(*MapObj)
		if m == nil || m.n == 0 {
			return Str{S: "map[]"}
		}
		r := Str{S: "map["}
		n := 0
		for _, e := range m.ents {
			if e.del {
				continue
			}
			if n > 0 {
				r = catStr(r, Str{S: " "})
			}
			n++
			r = catStr(r, x.fmtVal(verb, flags, asIface(u.Key(), e.k), depth+1))
			r = catStr(r, Str{S: ":"})
			r = catStr(r, x.fmtVal(verb, flags, asIface(u.Elem(), e.v), depth+1))
		}
		if n > 1 {
			x.w.note("formatted a map in insertion order")
		}
		return catStr(r, Str{S: "]"})
	case *types.Pointer:
		if isNilPtr(v.V) {
			return Str{S: "<nil>"}
		}
		if g, ok := v.V.(GPtr); ok && depth == 0 {
			if _, st := u.Elem().Underlying().(*types.Struct); st {
				return catStr(Str{S: "&"}, x.fmtVal(verb, flags, Iface{u.Elem(), *g.P}, depth+1))
			}
		}
		return Str{S: "0xc000000000"}
	}
	return Str{S: "<" + typeName(v.T) + ">"}
}

// placeholder stands for the text of a value whose digits are not modelled,
// the same for the same value. No property speaks of such text.
// hardFloats are values that formats of limited precision do not keep.
var hardFloats = []float64{0.1 + 0.2, 123456789.015625, -16777217.1, 1.5}

// lossyText is the text of a symbolic float in a format that does not determine
// it: exact for a few hard values, a placeholder for the others.
func (x *Path) lossyText(t *smt.Term, format func(float64) string) Str {
	for _, h := range hardFloats {
		if x.branch(x.c.Eq(t, smt.Const(t.S, smt.Fc(h).K))) {
			return Str{S: format(h)}
		}
	}
	return x.placeholder(t)
}

func (x *Path) placeholder(t *smt.Term) Str {
	if x.opaque == nil {
		x.opaque = map[*smt.Term]int{}
	}
	n, ok := x.opaque[t]
	if !ok {
		n = len(x.opaque) + 1
		x.opaque[t] = n
	}
	x.w.note("text of a symbolic number or instant stood for by a placeholder")
	return Str{S: fmt.Sprintf("\u27e8value %d\u27e9", n)}
}

func asIface(t types.Type, v Value) Iface {
	if f, ok := v.(Iface); ok && types.IsInterface(t) {
		return f
	}
	return Iface{t, v}
}

var _ = regexp.QuoteMeta

// ---- intrinsics found by name pattern

func (e *Engine) dynIntrinsic(fn *ssa.Function, name string) intrinsic {
	if fn.Synthetic == "package initializer" {
		return nil
	}
	short := fn.Name()
	if strings.HasPrefix(short, "_Cfunc_") {
		c := short[len("_Cfunc_"):]
		switch c {
		case "CString":
			return func(x *Path, _ *ssa.Function, a []Value) Value { return x.newCStr(str(a[0])) }
		case "GoString":
			return func(x *Path, _ *ssa.Function, a []Value) Value {
				if isNilPtr(a[0]) {
					return Str{}
				}
				return x.cstr(a[0])
			}
		case "GoStringN":
			return func(x *Path, _ *ssa.Function, a []Value) Value {
				n := int(x.concretize(term(a[1])))
				b := make([]*smt.Term, n)
				for i := range b {
					b[i] = x.cbyte(cPtrOf(a[0]), int64(i))
				}
				return mkStr(b)
			}
		case "CBytes", "_CMalloc":
			return func(x *Path, _ *ssa.Function, a []Value) Value { panic(unsupported("cgo " + c)) }
		}
		return func(x *Path, fn *ssa.Function, a []Value) Value {
			args := make([]Value, len(a))
			for i, v := range a {
				if isNilPtr(v) {
					v = CPtr{}
				}
				if t, ok := v.(*smt.Term); ok && t.S.K == smt.KBool {
					v = x.toBV(t, 8)
				}
				args[i] = v
			}
			r := x.CCall(c, args)
			switch t := r.(type) {
			case *smt.Term:
				rt := fn.Signature.Results()
				if rt.Len() >= 1 {
					if s, ok := scalarSort(rt.At(0).Type()); ok && s != t.S {
						switch {
						case t.S.K == smt.KBool:
							r = x.toBV(t, int(s.W))
						case s.K == smt.KBool:
							r = b1(t, x.c)
						case s.K == smt.KBV && t.S.K == smt.KBV && s.W < t.S.W:
							r = x.c.Extract(t, int(s.W)-1, 0)
						case s.K == smt.KBV && t.S.K == smt.KBV:
							r = x.c.Zext(t, int(s.W))
						}
					}
				}
			case Undef:
				x.cmemErr("Go receives an uninitialised native value")
			}
			return r
		}
	}
	if strings.HasPrefix(short, "_cgoCheck") || strings.HasPrefix(short, "_Cgo_use") || strings.HasPrefix(short, "_cgo_") {
		return goroutineNop
	}
	if name == "reflect.TypeFor" && len(fn.TypeArgs()) == 1 {
		return func(x *Path, fn *ssa.Function, a []Value) Value { return x.rtypeOf(fn.TypeArgs()[0]) }
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		f := atomicFn(short)
		if f == nil {
			return nil
		}
		return func(x *Path, fn *ssa.Function, a []Value) (r Value) {
			x.quiet(func() { r = f(x, fn, a) })
			return r
		}
	}
	return nil
}

func atomicFn(n string) intrinsic {
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(x *Path, fn *ssa.Function, a []Value) Value {
			return x.load(a[0], deref(fn.Signature.Params().At(0).Type()))
		}
	case strings.HasPrefix(n, "Store"):
		return func(x *Path, fn *ssa.Function, a []Value) Value {
			x.store(a[0], a[1], deref(fn.Signature.Params().At(0).Type()))
			return nil
		}
	case strings.HasPrefix(n, "Add"):
		return func(x *Path, fn *ssa.Function, a []Value) Value {
			t := deref(fn.Signature.Params().At(0).Type())
			v := x.c.Bin(smt.OAdd, term(x.load(a[0], t)), term(a[1]))
			x.store(a[0], v, t)
			return v
		}
	case strings.HasPrefix(n, "Swap"):
		return func(x *Path, fn *ssa.Function, a []Value) Value {
			t := deref(fn.Signature.Params().At(0).Type())
			o := x.load(a[0], t)
			x.store(a[0], a[1], t)
			return o
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(x *Path, fn *ssa.Function, a []Value) Value {
			t := deref(fn.Signature.Params().At(0).Type())
			o := x.load(a[0], t)
			if x.branch(x.eqVals(o, a[1])) {
				x.store(a[0], a[2], t)
				return smt.True
			}
			return smt.False
		}
	}
	return nil
}

var _ = llvm.TVoid
