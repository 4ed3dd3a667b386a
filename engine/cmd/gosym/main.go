package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"verif/engine/exec"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym explore|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "explore":
		explore(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func explore(args []string) {
	fs := flag.NewFlagSet("explore", flag.ExitOnError)
	v := fs.String("v", "v6", "version")
	w := fs.Int("w", 8, "workers")
	t := fs.Int("t", 60, "seconds")
	max := fs.Int("max", 0, "paths")
	samples := fs.Int("samples", 3, "")
	params := fs.String("p", "", "k=v,...")
	prof := fs.String("prof", "", "")
	cmds := fs.String("cmds", "", "programs, comma separated")
	fs.Parse(args)
	e, err := exec.Load("/verif/harness/"+*v, patterns(strings.Split(*cmds, ",")), goEnv())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *v == "v6" {
		if err := e.LoadC("/repo/v6/pkg/tsl"); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Println("loaded in", e.LoadTime)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, pre := range fs.Args() {
		for _, h := range e.Harnesses(pre) {
			r, err := e.Explore(h, exec.Options{Workers: *w, Samples: *samples, MaxPaths: *max, Deadline: time.Now().Add(time.Duration(*t) * time.Second), Params: parseParams(*params)})
			if err != nil {
				fmt.Println("ERROR", err)
				continue
			}
			show(r)
		}
	}
}

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			n := 0
			fmt.Sscan(v, &n)
			m[k] = n
		}
	}
	return m
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1")
}

func show(r *exec.Report) {
	fmt.Printf("== %s: paths %d completed %d infeasible %d unsupported %d bounded %d unknown %d left %d; queries %d (sat %d unsat %d unk %d) asserts %d trivial %d q %d; steps %d; solver %v wall %v\n",
		r.Harness, r.Paths, r.Completed, r.Infeasible, r.Unsupported, r.Bounded, r.Unknown, r.Left, r.Queries, r.QSat, r.QUnsat, r.QUnknown, r.Asserts, r.Trivial, r.AssertQ, r.Steps, r.SolverTime.Round(time.Millisecond), r.Wall.Round(time.Millisecond))
	pm := func(t string, m map[string]int) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(a, b int) bool { return m[ks[a]] > m[ks[b]] })
		for i, k := range ks {
			if i > 12 {
				break
			}
			fmt.Printf("   %s %d× %s\n", t, m[k], k)
		}
	}
	pm("reason", r.Reasons)
	pm("note", r.Notes)
	for _, v := range r.Violations {
		fmt.Printf("   VIOL %s %v\n", v.Msg, fmtModel(v.Model))
	}
	for id, v := range r.Known {
		fmt.Printf("   KNOWN %s %s %v\n", id, v.Msg, fmtModel(v.Model))
	}
	fmt.Printf("   %d traces\n", len(r.Traces))
	if os.Getenv("GOSYM_TRACES") != "" {
		for k, t := range r.Traces {
			fmt.Println("TRACE", fmtModel(t.Model))
			fmt.Println(k)
		}
	}
	for _, s := range r.Incomplete {
		fmt.Printf("   incomplete %v: %s\n", fmtModel(s.Model), s.Why)
	}
	for _, s := range r.Samples {
		fmt.Printf("   sample %v -> %v\n", fmtModel(s.Model), s.Obs)
	}
}

func fmtModel(m map[string]uint64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s=%#x", k, m[k]))
	}
	return strings.Join(p, " ")
}

// patterns are the packages to load: the harness and programs under test.
func patterns(cmds []string) []string {
	r := []string{"./h"}
	for _, c := range cmds {
		if c != "" {
			r = append(r, exec.RepoPath+"/"+c)
		}
	}
	return r
}
