package exec

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// proc is the process a program under test runs as.
type proc struct {
	out    Str
	stderr bool // something was written there
	code   int64
	files  [3]*Value
}

func (x *Path) procWrite(fd int, s Str) {
	if x.proc == nil {
		return
	}
	if fd == 1 {
		x.proc.out = catStr(x.proc.out, s)
	} else if s.Len() > 0 {
		x.proc.stderr = true
	}
}

// fdOf tells which of the standard files v is.
func (x *Path) fdOf(v Value) int {
	if p, ok := v.(GPtr); ok && x.proc != nil {
		for i, f := range x.proc.files {
			if f != nil && f == p.P {
				return i
			}
		}
	}
	return 2
}

// exit ends the process the program under test runs as.
func (x *Path) exit(code *smt.Term, what string) Value {
	if x.proc == nil {
		x.violate(what + " ends the process")
	}
	x.proc.code = int64(x.concretize(code))
	panic(abort{"exit", ""})
}

func (x *Path) fatal(what string) Value {
	if x.proc != nil {
		x.proc.stderr = true
	}
	return x.exit(i64(1), what)
}

// runMain runs the program in a directory of the repository:
// (standard output, whether it wrote to standard error, exit status).
func (x *Path) runMain(dir string, args []Str) Value {
	path := RepoPath + "/" + dir
	var pkg *ssa.Package
	for _, p := range x.e.pkgs {
		if p != nil && p.Pkg.Path() == path {
			pkg = p
		}
	}
	if pkg == nil || pkg.Func("main") == nil {
		panic(unsupported("no program " + dir))
	}
	argv := Slice{Str{S: dir[strings.LastIndexByte(dir, '/')+1:]}}
	for _, a := range args {
		// no argument holds a NUL
		for i := 0; i < a.Len(); i++ {
			x.assume(x.c.Not(x.c.Eq(a.At(i), smt.BVc(8, 0))))
		}
		argv = append(argv, a)
	}
	if !x.modelOK && !x.replaying() && !x.feasible(smt.True) {
		x.fail("infeasible", "")
	}
	globals, inited := x.globals, x.inited
	x.globals, x.inited = map[*ssa.Global]*Value{}, map[*ssa.Package]bool{}
	pr := &proc{}
	if x.lexMode != nil {
		x.lexMode.once = true
	}
	x.proc = pr
	forget := func(pkgs ...string) {
		for _, n := range pkgs {
			if p := x.e.prog.ImportedPackage(n); p != nil {
				delete(x.w.inited, p)
				for _, m := range p.Members {
					if g, ok := m.(*ssa.Global); ok {
						delete(x.w.globals, g)
					}
				}
			}
		}
	}
	forget("flag", "log")
	if p := x.e.prog.ImportedPackage("os"); p != nil {
		set := func(name string, v Value) {
			if g := p.Var(name); g != nil {
				x.w.globals[g] = &v
			}
		}
		set("Args", argv)
		for i, n := range []string{"Stdin", "Stdout", "Stderr"} {
			var v Value = Struct{GPtr{}}
			pr.files[i] = &v
			set(n, GPtr{&v})
		}
	}
	depth, frames, stack := x.depth, len(x.w.deferFrames), len(x.stack)
	func() {
		defer func() {
			if r := recover(); r != nil {
				a, ok := r.(abort)
				if !ok || a.kind != "exit" {
					x.proc = nil
					panic(r)
				}
				x.depth, x.w.deferFrames = depth, x.w.deferFrames[:frames]
				if len(x.stack) > stack {
					x.stack = x.stack[:stack]
				}
			}
		}()
		x.ensureInit(pkg)
		x.callSSA(pkg.Func("main"), nil, nil)
	}()
	x.globals, x.inited, x.proc = globals, inited, nil
	forget("flag", "log", "os")
	return Tuple{pr.out, smt.Bc(pr.stderr), i64(int(pr.code))}
}
