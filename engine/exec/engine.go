package exec

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/engine/llvm"
	"verif/engine/smt"
)

const RepoPath = "github.com/yaacov/tree-search-language"
const HarnessPath = "verif/h"

type Options struct {
	Harness       string
	MaxSteps      int
	MaxDepth      int
	MaxDecisions  int
	MaxConcretize int
	MaxPaths      int
	MaxViolations int // per message
	Samples       int
	Workers       int
	TimeoutMs     int
	Deadline      time.Time
	Params        map[string]int
	Solver        []string
}

// Engine holds the loaded program.
type Engine struct {
	Opt    Options
	prog   *ssa.Program
	pkgs   []*ssa.Package
	C      *llvm.Module
	cfuncs sync.Map
	sizes  types.Sizes

	rtErrType types.Type
	tabMu     sync.Mutex
	tabs      map[string]*smt.Table
	fieldOff  sync.Map

	LoadTime time.Duration
	tokens   map[string]int
	replace  map[string]*ssa.Function // functions that a harness function stands in for
}

// Load type-checks and builds the harness package (with everything it imports).
func Load(dir string, patterns []string, env []string) (*Engine, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs[:min(len(errs), 5)], "\n"))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: sp, sizes: types.SizesFor("gc", "amd64"), tabs: map[string]*smt.Table{}}
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			e.rtErrType = o.Type()
		}
	}
	if e.rtErrType == nil {
		return nil, fmt.Errorf("no runtime.errorString")
	}
	// a harness function with a //sym:replace NAME comment stands in for NAME
	// on paths that called sym.Put
	e.replace = map[string]*ssa.Function{}
	for i, p := range ps {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if name, ok := strings.CutPrefix(c.Text, "//sym:replace "); ok {
						e.replace[strings.TrimSpace(name)] = sp[i].Func(fd.Name.Name)
					}
				}
			}
		}
	}
	e.LoadTime = time.Since(t0)
	return e, nil
}

// LoadC compiles the C files of dir to LLVM IR and reads it.
func (e *Engine) LoadC(dir string) error {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "gosym-ir")
	if err != nil {
		return err
	}
	defer os.RemoveAll(tmp)
	files, _ := filepath.Glob(filepath.Join(dir, "*.c"))
	sort.Strings(files)
	if len(files) == 0 {
		return fmt.Errorf("no C files in %s", dir)
	}
	e.tokens = map[string]int{}
	hs, _ := filepath.Glob(filepath.Join(dir, "*.h"))
	for _, h := range hs {
		if b, err := os.ReadFile(h); err == nil {
			for _, m := range enumRe.FindAllSubmatch(b, -1) {
				n, _ := strconv.Atoi(string(m[2]))
				e.tokens[string(m[1])] = n
			}
		}
	}
	var lls []string
	for _, f := range files {
		out := filepath.Join(tmp, filepath.Base(f)+".bc")
		cmd := exec.Command("clang", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", "-c", "-emit-llvm", f, "-o", out)
		if b, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("clang %s: %v\n%s", f, err, b)
		}
		lls = append(lls, out)
	}
	all := filepath.Join(tmp, "all.bc")
	ll := tool("llvm-link-18", "llvm-link")
	if b, err := exec.Command(ll, append([]string{"-o", all}, lls...)...).CombinedOutput(); err != nil {
		return fmt.Errorf("llvm-link: %v\n%s", err, b)
	}
	txt := filepath.Join(tmp, "all.ll")
	if b, err := exec.Command(tool("opt-18", "opt"), "-S", "-passes=mem2reg,simplifycfg", all, "-o", txt).CombinedOutput(); err != nil {
		return fmt.Errorf("opt: %v\n%s", err, b)
	}
	b, err := os.ReadFile(txt)
	if err != nil {
		return err
	}
	e.C, err = llvm.Parse(string(b))
	e.LoadTime += time.Since(t0)
	return err
}

var enumRe = regexp.MustCompile(`(?m)^\s*([A-Za-z_]\w*)\s*=\s*(-?\d+)\s*,?`)

func tool(names ...string) string {
	for _, n := range names {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return names[len(names)-1]
}

func (e *Engine) Harness(name string) *ssa.Function {
	for _, p := range e.pkgs {
		if p == nil {
			continue
		}
		if f := p.Func(name); f != nil {
			return f
		}
	}
	return nil
}

// Harnesses lists the functions of the harness package whose name has the prefix.
func (e *Engine) Harnesses(prefix string) []string {
	var r []string
	for _, p := range e.pkgs {
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) {
				r = append(r, n)
			}
		}
	}
	sort.Strings(r)
	return r
}

func (e *Engine) isRepo(path string) bool { return strings.HasPrefix(path, RepoPath) }

// perPath packages get fresh globals on every path. Harnesses never write theirs;
// the ANTLR runtime's and the generated parser's are caches of the grammar's automata.
func (e *Engine) perPath(p *ssa.Package) bool {
	s := p.Pkg.Path()
	if strings.HasPrefix(s, "github.com/antlr/") || strings.HasSuffix(s, "/pkg/parser") {
		return false
	}
	return strings.HasPrefix(s, RepoPath) || strings.HasPrefix(s, "github.com/")
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	var pkg *types.Package
	if !m.Exported() {
		pkg = m.Pkg()
	}
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (e *Engine) fieldOffset(st *types.Struct, i int) int64 {
	if v, ok := e.fieldOff.Load(st); ok {
		return v.([]int64)[i]
	}
	var fs []*types.Var
	for k := 0; k < st.NumFields(); k++ {
		fs = append(fs, st.Field(k))
	}
	o := e.sizes.Offsetsof(fs)
	e.fieldOff.Store(st, o)
	return o[i]
}

func (e *Engine) internTable(t *smt.Table) *smt.Table {
	k := fmt.Sprint(t.W, t.Vals)
	e.tabMu.Lock()
	defer e.tabMu.Unlock()
	if o, ok := e.tabs[k]; ok {
		return o
	}
	e.tabs[k] = t
	return t
}

// ---- exploration

type stats struct {
	DomainForks    int
	DomainChecked  int
	UnknownForks   int
	Asserts        int
	AssertsTrivial int
	AssertQueries  int
	AssertUnknown  int
	Funcs          map[string]int
	CFuncs         map[string]int
}

// Worker explores paths with its own solver.
type Worker struct {
	x            *Explorer
	s            *smt.Solver
	abs          *smt.Solver // see absUnsat
	hard         map[*smt.Term]bool
	st           stats
	c            *smt.Ctx
	cfuncs       map[*ssa.Function]*cfunc
	globals      map[*ssa.Global]*Value
	inited       map[*ssa.Package]bool
	cconst       map[string]*CObj
	lastModel    map[*smt.Term]uint64
	solverBroken bool
	deferFrames  []*frame
	initDepth    int
}

// Explorer is one exploration of one harness function.
type Explorer struct {
	e     *Engine
	fn    *ssa.Function
	mu    sync.Mutex
	cond  *sync.Cond
	work  []task
	busy  int
	stop  bool
	late  atomic.Bool // the time is over
	rep   *Report
	vseen map[string]int
	lastV map[string]bool
}

// Report is what an exploration found.
type Report struct {
	Harness     string
	Paths       int
	Completed   int
	Infeasible  int
	Unsupported int
	Bounded     int
	Unknown     int
	Left        int // unexplored prefixes
	Reasons     map[string]int
	Notes       map[string]int
	Violations  []Violation
	ViolPaths   int
	Known       map[string]Violation
	Samples     []Sample
	Incomplete  []Sample // models of paths the engine could not finish
	Covers      map[string]int
	Funcs       map[string]int
	CFuncs      map[string]int
	Queries     int
	QSat        int
	QUnsat      int
	QUnknown    int
	Asserts     int
	Trivial     int
	AssertQ     int
	AssertUnk   int
	DomForks    int
	DomChecked  int
	Decisions   int
	Steps       int64
	SolverTime  time.Duration
	Wall        time.Duration
	Traces      map[string]*Trace
}

func (w *Worker) push(p task) {
	x := w.x
	x.mu.Lock()
	x.work = append(x.work, p)
	x.mu.Unlock()
	x.cond.Signal()
}

func (w *Worker) note(s string) {
	w.x.mu.Lock()
	w.x.rep.Notes[s]++
	w.x.mu.Unlock()
}

func (w *Worker) violation(v Violation) {
	x := w.x
	x.mu.Lock()
	defer x.mu.Unlock()
	x.rep.ViolPaths++
	x.vseen[v.Msg]++
	if x.vseen[v.Msg] <= x.e.Opt.MaxViolations {
		x.rep.Violations = append(x.rep.Violations, v)
	}
}

// Explore runs every path of the harness.
func (e *Engine) Explore(name string, opt Options) (*Report, error) {
	fn := e.Harness(name)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", name)
	}
	def := func(p *int, v int) {
		if *p == 0 {
			*p = v
		}
	}
	def(&opt.MaxSteps, 50_000_000)
	def(&opt.MaxDepth, 20000)
	def(&opt.MaxDecisions, 5000)
	def(&opt.MaxConcretize, 300)
	def(&opt.MaxPaths, 2_000_000)
	def(&opt.MaxViolations, 4)
	def(&opt.Workers, 8)
	def(&opt.TimeoutMs, 20000)
	if opt.Solver == nil {
		opt.Solver = []string{"z3-new", "-in"}
		if _, err := exec.LookPath("z3-new"); err != nil {
			opt.Solver = []string{"z3", "-in"}
		}
	}
	opt.Harness = name
	e.Opt = opt
	ex := &Explorer{e: e, fn: fn, vseen: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.rep = &Report{Harness: name, Reasons: map[string]int{}, Notes: map[string]int{}, Covers: map[string]int{}, Funcs: map[string]int{}, CFuncs: map[string]int{}, Known: map[string]Violation{}, Traces: map[string]*Trace{}}
	ex.work = []task{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	var firstErr error
	for i := 0; i < opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := ex.worker(); err != nil {
				ex.mu.Lock()
				if firstErr == nil {
					firstErr = err
				}
				ex.stop = true
				ex.late.Store(true)
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
		}()
	}
	done := make(chan bool)
	go func() {
		if opt.Deadline.IsZero() {
			return
		}
		select {
		case <-done:
		case <-time.After(time.Until(opt.Deadline)):
			ex.mu.Lock()
			ex.stop = true
			ex.late.Store(true)
			ex.mu.Unlock()
			ex.cond.Broadcast()
		}
	}()
	wg.Wait()
	close(done)
	ex.rep.Left = len(ex.work)
	ex.rep.Wall = time.Since(t0)
	return ex.rep, firstErr
}

func (ex *Explorer) worker() error {
	w := &Worker{x: ex, cfuncs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, c: smt.NewCtx(), cconst: map[string]*CObj{}}
	w.st.Funcs = map[string]int{}
	w.st.CFuncs = map[string]int{}
	s, err := smt.NewSolver(ex.e.Opt.Solver, ex.e.Opt.TimeoutMs)
	if err != nil {
		return err
	}
	if os.Getenv("GOSYM_SMTLOG") != "" {
		s.Log, _ = os.Create(os.Getenv("GOSYM_SMTLOG"))
	}
	w.s = s
	w.hard = map[*smt.Term]bool{}
	defer func() {
		s.Close()
		if w.abs != nil {
			w.abs.Close()
		}
	}()
	for {
		ex.mu.Lock()
		for len(ex.work) == 0 && ex.busy > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if len(ex.work) == 0 || ex.stop {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			break
		}
		p := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.busy++
		ex.rep.Paths++
		if ex.rep.Paths >= ex.e.Opt.MaxPaths {
			ex.stop = true
		}
		ex.mu.Unlock()
		w.runPath(p)
		ex.mu.Lock()
		ex.busy--
		ex.mu.Unlock()
		ex.cond.Broadcast()
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	r := ex.rep
	for k, v := range w.st.Funcs {
		r.Funcs[k] += v
	}
	for k, v := range w.st.CFuncs {
		r.CFuncs[k] += v
	}
	r.Queries += s.Queries
	r.QSat += s.Sat
	r.QUnsat += s.Unsat
	r.QUnknown += s.Unknown
	r.SolverTime += s.Time
	if w.abs != nil {
		r.Queries += w.abs.Unsat
		r.QUnsat += w.abs.Unsat
		r.SolverTime += w.abs.Time
	}
	r.Asserts += w.st.Asserts
	r.Trivial += w.st.AssertsTrivial
	r.AssertQ += w.st.AssertQueries
	r.AssertUnk += w.st.AssertUnknown
	r.DomForks += w.st.DomainForks
	r.DomChecked += w.st.DomainChecked
	return nil
}

func (w *Worker) newPath(t task) *Path {
	x := &Path{w: w, e: w.x.e, c: w.c, prefix: t.prefix, seed: t.seed,
		dom: map[*smt.Term]*[8]uint64{}, tangled: map[*smt.Term]bool{}, varOf: map[string]*smt.Term{},
		names: map[string]int{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		covers: map[string]bool{}, locks: map[*Value]int{}, strtodSeen: map[string]*smt.Term{}, tags: map[string]Value{}}
	x.model = map[*smt.Term]uint64{}
	x.modelOK = true
	x.cm = newCMem(x)
	return x
}

func (w *Worker) runPath(t task) {
	if w.c.Size() > 150000 || w.s.Defs() > 40000 || w.solverBroken {
		w.c = smt.NewCtx()
		w.s.Restart()
		w.hard = map[*smt.Term]bool{}
		if w.abs != nil {
			w.abs.Restart()
		}
		w.solverBroken = false
		// library globals hold constants only, but be safe
		w.globals = map[*ssa.Global]*Value{}
		w.inited = map[*ssa.Package]bool{}
		w.cconst = map[string]*CObj{}
	}
	w.deferFrames = nil
	x := w.newPath(t)
	kind, msg := "ok", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case abort:
					kind, msg = r.kind, r.msg
				case tpanic:
					kind = "panic"
					msg = r.msg
					func() {
						defer func() {
							if r := recover(); r != nil {
								if a, ok := r.(abort); ok {
									kind, msg = a.kind, a.msg
									return
								}
								panic(r)
							}
						}()
						x.violate("panic: " + r.msg)
					}()
				default:
					kind = "unsupported"
					msg = fmt.Sprintf("engine: %v", r)
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
					}
				}
			}
		}()
		x.callSSA(w.x.fn, nil, nil)
	}()
	var samp *Sample
	r := w.x.rep
	if len(x.events) > 0 && kind == "ok" && !w.solverBroken {
		ev := normal(x.events)
		key := traceKey(ev)
		w.x.mu.Lock()
		_, seen := r.Traces[key]
		if !seen {
			r.Traces[key] = nil
		}
		w.x.mu.Unlock()
		if !seen {
			s := x.sample()
			w.x.mu.Lock()
			if s == nil {
				delete(r.Traces, key)
			} else {
				r.Traces[key] = &Trace{Events: ev, Model: s.Model}
			}
			w.x.mu.Unlock()
		}
	}
	w.x.mu.Lock()
	want := kind == "ok" && len(r.Samples) < w.x.e.Opt.Samples || (kind == "unsupported" || kind == "bound") && len(r.Incomplete) < 40
	w.x.mu.Unlock()
	if want && !w.solverBroken {
		samp = x.sample()
	}
	if x.pushed {
		w.s.Pop()
	}
	if x.absPushed {
		w.abs.Pop()
	}
	w.x.mu.Lock()
	defer w.x.mu.Unlock()
	r.Steps += int64(x.steps)
	for k := range x.covers {
		r.Covers[k]++
	}
	switch kind {
	case "ok", "done", "panic":
		r.Completed++
		r.Decisions += len(x.taken)
		if samp != nil && kind == "ok" {
			r.Samples = append(r.Samples, *samp)
		}
	case "infeasible":
		r.Infeasible++
	case "unsupported":
		r.Unsupported++
		r.Reasons["unsupported: "+msg]++
		if samp != nil {
			samp.Why = msg
			r.Incomplete = append(r.Incomplete, *samp)
		}
	case "bound":
		r.Bounded++
		r.Reasons["bound: "+msg]++
		if samp != nil {
			samp.Why = msg
			r.Incomplete = append(r.Incomplete, *samp)
		}
	case "unknown":
		r.Unknown++
		r.Reasons["unknown: "+msg]++
	}
}

// sample solves for one concrete input of the path and evaluates what was observed.
func (x *Path) sample() (s *Sample) {
	defer func() {
		if r := recover(); r != nil {
			s = nil
		}
	}()
	m, r := x.fullModel(nil)
	if r != smt.Sat {
		return nil
	}
	s = &Sample{Model: x.modelByName(m)}
	for k, v := range x.tagModel(m) {
		s.Model[k] = v
	}
	memo := map[*smt.Term]uint64{}
	for k, v := range m {
		memo[k] = v
	}
	for _, o := range x.obs {
		s.Obs = append(s.Obs, o.label+"="+x.render(o.v, memo, 0))
	}
	return s
}

// render writes a value as the native harness runtime does.
func (x *Path) render(v Value, m map[*smt.Term]uint64, d int) string {
	if d > 20 {
		return "..."
	}
	switch v := v.(type) {
	case nil:
		return "nil"
	case Iface:
		if v.T == nil {
			return "nil"
		}
		t := v.T.Underlying()
		if types.TypeString(v.T, nil) == "time.Time" {
			return "time"
		}
		switch u := t.(type) {
		case *types.Basic:
			tm, isT := v.V.(*smt.Term)
			switch {
			case u.Info()&types.IsBoolean != 0:
				return fmt.Sprint(smt.EvalMemo(tm, m) != 0)
			case u.Info()&types.IsString != 0:
				return fmt.Sprintf("%q", concStr(v.V.(Str), m))
			case u.Info()&types.IsFloat != 0 && isT:
				return fmt.Sprintf("f%016x", smt.Const(tm.S, smt.EvalMemo(tm, m)).K)
			case u.Info()&types.IsInteger != 0 && isT:
				k := smt.Const(tm.S, smt.EvalMemo(tm, m))
				if u.Info()&types.IsUnsigned != 0 {
					return fmt.Sprint(k.K)
				}
				return fmt.Sprint(k.Int())
			}
		case *types.Slice:
			sl := v.V.(Slice)
			if sl == nil {
				return "[]"
			}
			var r []string
			for _, e := range sl {
				if types.IsInterface(u.Elem()) {
					r = append(r, x.render(e, m, d+1))
				} else {
					r = append(r, x.render(Iface{u.Elem(), e}, m, d+1))
				}
			}
			return "[" + strings.Join(r, " ") + "]"
		}
		return "<" + typeName(v.T) + ">"
	}
	return fmt.Sprintf("?%T", v)
}

func concStr(s Str, m map[*smt.Term]uint64) string {
	if s.B == nil {
		return s.S
	}
	b := make([]byte, len(s.B))
	for i, t := range s.B {
		b[i] = byte(smt.EvalMemo(t, m))
	}
	return string(b)
}
