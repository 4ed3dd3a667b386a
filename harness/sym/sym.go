// Package sym is the interface of the harnesses to the symbolic engine.
//
// The engine interprets calls of these functions itself. The bodies below run
// natively: they take the symbolic inputs from a model the solver found, so
// that the same harness replays a counterexample against the compiled code.
package sym

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
)

var (
	model  map[string]uint64
	count  map[string]int
	Params map[string]int
	Obs    []string
	Toks   []string
)

// Violated is panicked by a failed assertion.
type Violated struct{ Msg string }

// Infeasible is panicked when an assumption does not hold.
type Infeasible struct{}

var Knowns []string

// Reset starts a native run with the given inputs.
func Reset(m map[string]uint64) {
	model, count, Obs, Knowns, Toks = m, map[string]int{}, nil, nil, nil
}

func get(name string, kind, width int) uint64 {
	n := count[name]
	count[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return model[fmt.Sprintf("%s:%d.%d", name, kind, width)]
}

func Byte(name string) byte     { return byte(get(name, 1, 8)) }
func Uint8(name string) uint8   { return uint8(get(name, 1, 8)) }
func Int8(name string) int8     { return int8(get(name, 1, 8)) }
func Uint16(name string) uint16 { return uint16(get(name, 1, 16)) }
func Int16(name string) int16   { return int16(get(name, 1, 16)) }
func Int32(name string) int32   { return int32(get(name, 1, 32)) }
func Uint32(name string) uint32 { return uint32(get(name, 1, 32)) }
func Int(name string) int       { return int(get(name, 1, 64)) }
func Int64(name string) int64   { return int64(get(name, 1, 64)) }
func Uint64(name string) uint64 { return get(name, 1, 64) }
func Uint(name string) uint     { return uint(get(name, 1, 64)) }
func Bool(name string) bool     { return get(name, 0, 1) != 0 }
func Float64(name string) float64 {
	return math.Float64frombits(get(name, 2, 64))
}
func Float32(name string) float32 {
	return math.Float32frombits(uint32(get(name, 2, 32)))
}

// Choose forks the path n ways.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	k := count["!"+name]
	count["!"+name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return int(model[name])
}

// Str is a string of n free bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(fmt.Sprintf("%s[%d]", name, i), 1, 8))
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		panic(Infeasible{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Violated{msg})
	}
}

func Fail(msg string) { panic(Violated{msg}) }

// Known is Assert(ok) except where cond, the shape of a listed finding, holds.
func Known(id string, cond, ok bool, msg string) bool {
	if !ok {
		if !cond {
			panic(Violated{msg})
		}
		Knowns = append(Knowns, id)
	}
	return ok
}

func Cover(string)   {}
func Symbolic() bool { return false }

// Fork makes the engine decide c on each path, without merging.
func Fork(c bool) bool            { return c }
func Concrete[T any](v T) T       { return v }
func ConcreteStr(s string) string { return s }
func And(a, b bool) bool          { return a && b }
func Or(a, b bool) bool           { return a || b }
func Not(a bool) bool             { return !a }
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// SameFloat is equality of the values, all NaNs alike, zeros told apart.
func SameFloat(a, b float64) bool {
	return a != a && b != b || math.Float64bits(a) == math.Float64bits(b)
}
func EqStr(a, b string) bool { return a == b }

// LiveBlocksFn counts native blocks, when the replay binary tracks them.
var LiveBlocksFn func() int

func LiveBlocks() int {
	if LiveBlocksFn != nil {
		return LiveBlocksFn()
	}
	return 0
}

func Param(name string, def int) int {
	if v, ok := Params[name]; ok {
		return v
	}
	return def
}

func WatchShared(bool)              {}
func Mark(string)                   {}
func FloatText(f float64, s string) {}

// Field is the field of struct v whose tag for key has that name.
func Field(v interface{}, key, name string) (interface{}, bool) {
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Struct {
		return nil, false
	}
	for i := 0; i < r.NumField(); i++ {
		tag, _, _ := strings.Cut(r.Type().Field(i).Tag.Get(key), ",")
		if tag == name {
			return r.Field(i).Interface(), true
		}
	}
	return nil, false
}
func TypeName(v interface{}) string { return fmt.Sprintf("%T", v) }
func Strtod(s string) float64 {
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

// Token-level parsing: natively the tokens are written out as text.
func LexStart()       { Toks = nil }
func LexStop()        {}
func LexPos() int     { return 0 }
func Lex(name string) { Toks = append(Toks, spelling(name)) }

var tokens map[string]int

// TokenCode is the scanner's code of a token, from the generated header.
func TokenCode(name string) int {
	if tokens == nil {
		tokens = map[string]int{}
		b, err := os.ReadFile("/repo/v6/pkg/tsl/tsl_parser.tab.h")
		if err != nil {
			panic(err)
		}
		for _, m := range regexp.MustCompile(`(?m)^\s*([A-Za-z_]\w*)\s*=\s*(\d+)\s*,?`).FindAllStringSubmatch(string(b), -1) {
			n, _ := strconv.Atoi(m[2])
			tokens[m[1]] = n
		}
	}
	return tokens[name]
}

// TokenName is its inverse.
func TokenName(code int) string {
	TokenCode("")
	for k, v := range tokens {
		if v == code && !strings.HasPrefix(k, "YY") {
			return k
		}
	}
	return fmt.Sprint("token", code)
}

func LexText(name, text string) {
	switch name {
	case "STRING_LITERAL", "DATE", "RFC3339":
		Toks = append(Toks, Quote(text))
	default:
		Toks = append(Toks, text)
	}
}

var slot interface{}

// Put keeps a value for the rest of the path, Get returns it.
func Put(v interface{}) { slot = v }
func Get() interface{}  { return slot }

func LexNum(name string, f float64) {
	Toks = append(Toks, NumText(f))
}

// NumText is a literal denoting f.
func NumText(f float64) string {
	if math.IsInf(f, 1) {
		return "1" + strings.Repeat("0", 400)
	}
	if math.IsInf(f, -1) {
		return "-1" + strings.Repeat("0", 400)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// Quote writes a v6 string literal.
func Quote(s string) string {
	r := []byte{'\''}
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' || s[i] == '\\' {
			r = append(r, '\\')
		}
		r = append(r, s[i])
	}
	return string(append(r, '\''))
}

var spell = map[string]string{"LPAREN": "(", "RPAREN": ")", "COMMA": ",", "PLUS": "+", "MINUS": "-", "STAR": "*", "SLASH": "/",
	"PERCENT": "%", "LBRACKET": "[", "RBRACKET": "]", "EQ": "=", "NE": "!=", "LT": "<", "LE": "<=", "GT": ">", "GE": ">=", "REQ": "~=", "RNE": "~!"}

func spelling(name string) string {
	if s, ok := spell[name]; ok {
		return s
	}
	return strings.TrimPrefix(name, "K_")
}

// Text is the token list as one text.
func Text() string { return strings.Join(Toks, " ") }

// Observe records a value for the comparison of engine and native runs.
func Observe(label string, v interface{}) {
	Obs = append(Obs, label+"="+render(v))
}

func render(v interface{}) string {
	switch u := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(u)
	case string:
		return fmt.Sprintf("%q", u)
	case float64:
		b := math.Float64bits(u)
		if u != u {
			b = 0x7ff8000000000001
		}
		return fmt.Sprintf("f%016x", b)
	case float32:
		return fmt.Sprintf("f%016x", uint64(math.Float32bits(u)))
	case time.Time:
		return "time"
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.String:
		return fmt.Sprintf("%q", r.String())
	case reflect.Bool:
		return fmt.Sprint(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(r.Uint())
	case reflect.Slice:
		var p []string
		for i := 0; i < r.Len(); i++ {
			p = append(p, render(r.Index(i).Interface()))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("<%T>", v)
}

// LexFunc makes the scanner ask f for each next token (code 0 ends the input).
func LexFunc(f func(pos int) (int, string)) {
	Toks = nil
	for i := 0; ; i++ {
		code, text := f(i)
		if code == 0 {
			return
		}
		name := TokenName(code)
		switch {
		case text == "":
			Lex(name)
		default:
			LexText(name, text)
		}
	}
}
