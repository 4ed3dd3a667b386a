package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/engine/exec"
)

type evidence struct {
	prop, tier     string
	seed           int
	spec           *CheckSpec
	load, wall     time.Duration
	solver         time.Duration
	paths          int
	queries        int
	violations     int
	validated      int
	incompleteRuns int
	transitions    int
	harness        []map[string]any
	funcs, cfuncs  map[string]int
	samples        []map[string]any
	perHarness     map[string]int
	unconfirmed    []map[string]any
	mismatches     []map[string]any
	known          []string
	qs, qu, qk     int
	asserts, triv  int
	assertQ        int
	undecided      int
	dom, domChk    int
	open           []string
	extra          map[string]any
}

func newEvidence(prop, tier string, seed int, spec *CheckSpec) *evidence {
	return &evidence{prop: prop, tier: tier, seed: seed, spec: spec, funcs: map[string]int{}, cfuncs: map[string]int{}, perHarness: map[string]int{}, extra: map[string]any{}}
}

func (ev *evidence) add(hs HarnessSpec, p map[string]int, r *exec.Report) {
	ev.paths += r.Completed
	ev.queries += r.Queries
	ev.qs += r.QSat
	ev.qu += r.QUnsat
	ev.qk += r.QUnknown
	ev.solver += r.SolverTime
	ev.asserts += r.Asserts
	ev.triv += r.Trivial
	ev.assertQ += r.AssertQ
	ev.undecided += r.AssertUnk
	ev.dom += r.DomForks
	ev.domChk += r.DomChecked
	ev.transitions += r.Decisions
	for k, v := range r.Funcs {
		ev.funcs[k] += v
	}
	for k, v := range r.CFuncs {
		ev.cfuncs[k] += v
	}
	h := map[string]any{"name": hs.Name, "params": p, "bounds": hs.Bounds, "paths_completed": r.Completed, "paths_infeasible": r.Infeasible,
		"paths_beyond_engine": r.Unsupported, "paths_cut_by_bound": r.Bounded, "paths_unknown": r.Unknown, "prefixes_left": r.Left,
		"assertions": r.Asserts, "wall_s": round(r.Wall.Seconds())}
	if len(r.Reasons) > 0 {
		h["incomplete_reasons"] = r.Reasons
	}
	if len(r.Notes) > 0 {
		h["notes"] = r.Notes
	}
	if len(r.Covers) > 0 {
		h["covered"] = r.Covers
	}
	ev.harness = append(ev.harness, h)
	if r.Left > 0 || r.Unsupported > 0 || r.Bounded > 0 || r.Unknown > 0 || r.AssertUnk > 0 {
		ev.open = append(ev.open, fmt.Sprintf("%s: %d unexplored prefixes, %d beyond the engine, %d cut by a bound, %d unknown", hs.Name, r.Left, r.Unsupported, r.Bounded, r.Unknown+r.AssertUnk))
	}
}

func (ev *evidence) schedules(h string, r *schedResult, traces int) {
	ev.queries += r.pairs
	ev.qs += r.sat
	ev.qu += r.unsat
	ev.qk += r.unknown
	ev.solver += r.time
	ev.extra["schedules_"+h] = map[string]any{"call_traces": traces, "pairs_decided": r.pairs, "pairs_with_bad_schedule": r.sat, "pairs_without": r.unsat, "unknown": r.unknown, "time_s": round(r.time.Seconds())}
	if r.unknown > 0 {
		ev.open = append(ev.open, fmt.Sprintf("%s: %d pairs of calls undecided", h, r.unknown))
	}
}

func (ev *evidence) sample(c natCase, r natResult) {
	if ev.perHarness[c.Harness] >= 3 || len(ev.samples) > 40 {
		return
	}
	ev.perHarness[c.Harness]++
	ev.samples = append(ev.samples, map[string]any{"harness": c.Harness, "model": c.Model, "input": r.Text, "observed": r.Obs})
}

func (ev *evidence) state() string {
	if len(ev.open) == 0 {
		return ""
	}
	return " (within bounds not exhausted: " + strings.Join(ev.open, "; ") + ")"
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func (ev *evidence) write(path string) error {
	fl := func(m map[string]int) []string {
		var r []string
		for k := range m {
			r = append(r, strings.ReplaceAll(k, exec.RepoPath+"/", ""))
		}
		sort.Strings(r)
		return r
	}
	cov := map[string]any{
		"states":                        ev.paths,
		"transitions":                   ev.transitions,
		"traces_validated_against_impl": ev.validated,
		"samples":                       ev.samples,
		"bounds":                        ev.spec.Bounds,
		"outside_bounds":                ev.spec.Outside,
		"harnesses":                     ev.harness,
		"go_functions_encoded":          fl(ev.funcs),
		"solver": map[string]any{"name": "z3 (incremental, per worker)", "queries": ev.queries, "sat": ev.qs, "unsat": ev.qu, "unknown": ev.qk,
			"time_s": round(ev.solver.Seconds()), "byte_domain_decisions": ev.dom, "byte_domain_decisions_confirmed_by_solver": ev.domChk},
		"assertions":           map[string]any{"total": ev.asserts, "discharged_by_simplifier": ev.triv, "discharged_by_query": ev.assertQ, "undecided": ev.undecided},
		"encoding_load_s":      round(ev.load.Seconds()),
		"exhausted_in_bounds":  len(ev.open) == 0,
		"meaning":              "states = symbolic paths carried to their end (each stands for every input that satisfies its path condition); transitions = recorded branch decisions of those paths; traces_validated_against_impl = path models run on the compiled code with the same observations",
		"incomplete_paths_run": ev.incompleteRuns,
	}
	if len(ev.cfuncs) > 0 {
		cov["native_functions_encoded"] = fl(ev.cfuncs)
	}
	if len(ev.open) > 0 {
		cov["not_exhausted"] = ev.open
	}
	if len(ev.unconfirmed) > 0 {
		cov["unconfirmed_counterexamples"] = ev.unconfirmed
	}
	if len(ev.mismatches) > 0 {
		cov["native_mismatches"] = ev.mismatches
	}
	if len(ev.known) > 0 {
		cov["known_findings_seen"] = ev.known
	}
	for k, v := range ev.extra {
		cov[k] = v
	}
	if ev.samples == nil {
		cov["samples"] = []any{}
	}
	as := append([]string{"the engine's semantics of Go SSA and LLVM IR, its stand-ins for library functions (listed in DESIGN.md) and the SMT solver"}, ev.spec.Assumptions...)
	out := map[string]any{"property": ev.prop, "tier": ev.tier, "seed": ev.seed, "level": "model_checking", "coverage": cov, "assumptions": as,
		"wall_s": round(ev.wall.Seconds()), "violations": ev.violations}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
