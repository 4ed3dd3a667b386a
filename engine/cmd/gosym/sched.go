package main

import (
	"bytes"
	"fmt"
	osexec "os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/engine/exec"
)

// Two calls run at the same time: the order of their accesses to shared memory
// is symbolic, locks exclude each other, and the solver looks for an order in
// which two conflicting accesses meet, the calls cannot be put one after the
// other, or both wait for each other.

type schedViol struct {
	a, b *exec.Trace
	what string
	plan string
}

type schedResult struct {
	pairs, sat, unsat, unknown int
	time                       time.Duration
	viols                      []schedViol
}

type section struct {
	lock, unlock int
	obj          string
	shared       bool // read lock
}

func sections(ev []exec.Event) (out []section) {
	open := map[string]int{}
	for i, e := range ev {
		switch e.Kind {
		case "lock", "rlock":
			open[e.Kind+e.Arg] = i
		case "unlock", "runlock":
			k := strings.Replace(e.Kind, "un", "", 1) + e.Arg
			if st, ok := open[k]; ok {
				out = append(out, section{st, i, e.Arg, e.Kind == "runlock"})
				delete(open, k)
			}
		}
	}
	for k, st := range open {
		_, arg, _ := strings.Cut(k, "lock")
		out = append(out, section{st, len(ev), arg, strings.HasPrefix(k, "rlock")})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].lock < out[j].lock })
	return
}

func overlap(a, b string) bool { return strings.HasPrefix(a, b) || strings.HasPrefix(b, a) }

// encode writes the constraints of the pair.
func encodePair(a, b *exec.Trace, atomic bool) string {
	var w strings.Builder
	decl := func(p string, n int) {
		for i := 0; i <= n; i++ {
			fmt.Fprintf(&w, "(declare-const %s%d Int)\n", p, i)
		}
		for i := 0; i < n; i++ {
			fmt.Fprintf(&w, "(assert (< %s%d %s%d))\n", p, i, p, i+1)
		}
	}
	decl("a", len(a.Events))
	decl("b", len(b.Events))
	sa, sb := sections(a.Events), sections(b.Events)
	for _, x := range sa {
		for _, y := range sb {
			if x.obj == y.obj && !(x.shared && y.shared) {
				fmt.Fprintf(&w, "(assert (or (< a%d b%d) (< b%d a%d)))\n", x.unlock, y.lock, y.unlock, x.lock)
			}
		}
	}
	var race, ab, ba, dead []string
	for i, x := range a.Events {
		if x.Kind != "r" && x.Kind != "w" {
			continue
		}
		for j, y := range b.Events {
			if y.Kind != "r" && y.Kind != "w" || x.Kind == "r" && y.Kind == "r" || !overlap(x.Arg, y.Arg) {
				continue
			}
			race = append(race, fmt.Sprintf("(= a%d b%d)", i, j))
			ab = append(ab, fmt.Sprintf("(< a%d b%d)", i, j))
			ba = append(ba, fmt.Sprintf("(< b%d a%d)", j, i))
		}
	}
	// each waits for a lock the other holds
	for _, x1 := range sa {
		for _, x2 := range sa {
			if !(x1.lock < x2.lock && x2.lock < x1.unlock) {
				continue
			}
			for _, y1 := range sb {
				for _, y2 := range sb {
					if y1.lock < y2.lock && y2.lock < y1.unlock && y1.obj == x2.obj && y2.obj == x1.obj && x1.obj != x2.obj {
						// no common lock held around both
						gate := false
						for _, g := range sa {
							for _, h := range sb {
								gate = gate || g.obj == h.obj && g.lock < x1.lock && x2.lock < g.unlock && h.lock < y1.lock && y2.lock < h.unlock
							}
						}
						if !gate {
							dead = append(dead, "true")
						}
					}
				}
			}
		}
	}
	or := func(l []string) string {
		if len(l) == 0 {
			return "false"
		}
		return "(or " + strings.Join(l, " ") + ")"
	}
	if !atomic {
		ab = nil // several calls, which others may come between
	}
	fmt.Fprintf(&w, "(define-fun race () Bool %s)\n(define-fun mixed () Bool (and %s %s))\n(define-fun dead () Bool %s)\n(assert (or race mixed dead))\n", or(race), or(ab), or(ba), or(dead))
	return w.String()
}

func shorten(s string) string {
	s = strings.ReplaceAll(s, "github.com/yaacov/tree-search-language/", "")
	return strings.TrimSuffix(s, "/")
}

func solvePair(a, b *exec.Trace, atomic bool) (res, what, plan string) {
	enc := encodePair(a, b, atomic)
	q := "(set-logic QF_IDL)\n(set-option :timeout 20000)\n" + enc + "(check-sat)\n(get-value (race mixed dead))\n(get-model)\n"
	cmd := osexec.Command("z3", "-in")
	cmd.Stdin = strings.NewReader(q)
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Run()
	out := o.String()
	res, rest, _ := strings.Cut(out, "\n")
	if res != "sat" {
		return res, "", ""
	}
	line, model, _ := strings.Cut(rest, "\n")
	_ = line
	switch {
	case strings.Contains(rest, "(race true)"):
		what = "two concurrent calls access shared memory at the same time"
	case strings.Contains(rest, "(mixed true)"):
		what = "the shared accesses of two concurrent calls interleave"
	default:
		what = "two concurrent calls wait for each other"
	}
	// the schedule
	type at struct {
		t int
		s string
	}
	var evs []at
	fs := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(model))
	for i := 0; i+1 < len(fs); i++ {
		if fs[i] != "define-fun" || len(fs[i+1]) < 2 || fs[i+1][0] != 'a' && fs[i+1][0] != 'b' {
			continue
		}
		var n, v int
		if _, err := fmt.Sscan(fs[i+1][1:], &n); err != nil {
			continue
		}
		k := i + 2
		for k < len(fs) && fs[k] != "Int" {
			k++
		}
		if k+1 < len(fs) && fs[k+1] == "(" {
			fmt.Sscan(fs[k+3], &v)
			v = -v
		} else if k+1 < len(fs) {
			fmt.Sscan(fs[k+1], &v)
		}
		tr := a
		if fs[i+1][0] == 'b' {
			tr = b
		}
		if n < len(tr.Events) {
			evs = append(evs, at{v, fs[i+1][:1] + ":" + tr.Events[n].Kind + " " + shorten(tr.Events[n].Arg)})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	var ps []string
	for _, e := range evs {
		ps = append(ps, e.s)
	}
	return res, what, strings.Join(ps, "; ")
}

// schedules decides every pair of traces.
func schedules(trs map[string]*exec.Trace, atomic bool) *schedResult {
	t0 := time.Now()
	var keys []string
	for k, t := range trs {
		if t != nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	// objects nobody writes cannot conflict
	var written []string
	for _, k := range keys {
		for _, e := range trs[k].Events {
			if e.Kind == "w" {
				written = append(written, e.Arg)
			}
		}
	}
	sort.Strings(written)
	seen := map[string]bool{}
	var ts []*exec.Trace
	for _, k := range keys {
		t := &exec.Trace{Model: trs[k].Model}
		key := ""
		for _, e := range trs[k].Events {
			if e.Kind == "r" {
				hit := false
				for _, w := range written {
					hit = hit || overlap(w, e.Arg)
				}
				if !hit {
					continue
				}
			}
			t.Events = append(t.Events, e)
			key += e.Kind + e.Arg + "\n"
		}
		if !seen[key] {
			seen[key] = true
			ts = append(ts, t)
		}
	}
	r := &schedResult{}
	type job struct{ a, b *exec.Trace }
	jobs := make(chan job)
	var mu sync.Mutex
	var wg sync.WaitGroup
	whats := map[string]int{}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				res, what, plan := solvePair(j.a, j.b, atomic)
				mu.Lock()
				r.pairs++
				switch res {
				case "sat":
					r.sat++
					whats[what]++
					if whats[what] <= 6 {
						r.viols = append(r.viols, schedViol{j.a, j.b, what, plan})
					}
				case "unsat":
					r.unsat++
				default:
					r.unknown++
				}
				mu.Unlock()
			}
		}()
	}
	for i := range ts {
		for j := i; j < len(ts); j++ {
			jobs <- job{ts[i], ts[j]}
		}
	}
	close(jobs)
	wg.Wait()
	r.time = time.Since(t0)
	return r
}
