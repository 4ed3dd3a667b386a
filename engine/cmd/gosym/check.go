package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine/exec"
)

// HarnessSpec is one harness of a check.
type HarnessSpec struct {
	Name     string         `json:"name"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	SecQ     int            `json:"sec_quick"`
	SecT     int            `json:"sec_thorough"`
	Only     string         `json:"only"` // "thorough": not in the quick tier
	Bounds   string         `json:"bounds"`
}

// CheckSpec says how one property is decided.
type CheckSpec struct {
	ID          string        `json:"id"`
	Version     string        `json:"version"`
	Harnesses   []HarnessSpec `json:"harnesses"`
	Bounds      string        `json:"bounds"`
	Outside     string        `json:"outside"`
	Assumptions []string      `json:"assumptions"`
	Schedules   bool          `json:"schedules"`
	Cmds        []string      `json:"cmds"` // programs the harnesses run
}

type known struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

type natCase struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"model"`
	Params  map[string]int    `json:"params,omitempty"`
}

type natResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg,omitempty"`
	Obs    []string `json:"obs,omitempty"`
	Knowns []string `json:"knowns,omitempty"`
	Text   string   `json:"text,omitempty"`
	Stack  string   `json:"stack,omitempty"`
}

// quickSec is the time a quick check explores for.
const quickSec = 480

func bad(r natResult) bool {
	return r.Status == "violation" || r.Status == "panic" || r.Status == "crash" || r.Status == "timeout"
}

// native builds replay binaries on demand.
type native struct {
	root, version, tmp string
	bins               map[string]string
}

func (n *native) bin(mode string) (string, error) {
	if b, ok := n.bins[mode]; ok {
		return b, nil
	}
	out := filepath.Join(n.tmp, "run-"+mode)
	args := []string{"build", "-o", out}
	env := goEnv()
	switch mode {
	case "wrap":
		args = append(args, "-tags", "wrapmalloc")
		env = append(env, "CGO_LDFLAGS_ALLOW=-Wl,--wrap=.*")
	case "stress":
		args = append(args, "-tags", "stresshook")
		env = append(env, "CGO_CFLAGS=-g -O1 -finstrument-functions")
	case "race":
		args = append(args, "-race")
	case "tsan":
		env = append(env, "CGO_CFLAGS=-g -O1 -fsanitize=thread", "CGO_LDFLAGS=-fsanitize=thread")
	case "asan":
		args = append(args, "-asan")
	}
	args = append(args, "./run")
	c := osexec.Command("go", args...)
	c.Dir = filepath.Join(n.root, "harness", n.version)
	c.Env = env
	if b, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build (%s): %v\n%s", mode, err, b)
	}
	n.bins[mode] = out
	return out, nil
}

// program builds a program the harnesses run, where sym.RunMain looks for it.
func (n *native) program(dir string) error {
	c := osexec.Command("go", "build", "-o", filepath.Join(n.tmp, "cmd-"+strings.ReplaceAll(dir, "/", "-")), exec.RepoPath+"/"+dir)
	c.Dir = filepath.Join(n.root, "harness", n.version)
	c.Env = goEnv()
	if b, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("build of %s: %v\n%s", dir, err, b)
	}
	return nil
}

// run executes the cases, restarting the process after one that kills it.
func (n *native) run(mode string, cs []natCase) ([]natResult, error) {
	b, err := n.bin(mode)
	if err != nil {
		return nil, err
	}
	var out []natResult
	wait := 20 * time.Second
	for len(out) < len(cs) {
		cmd := osexec.Command(b)
		cmd.Env = append(os.Environ(), "SYM_CMD_DIR="+n.tmp, "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0", "GOTRACEBACK=single", "GORACE=halt_on_error=1", "TSAN_OPTIONS=halt_on_error=1")
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		in, _ := cmd.StdinPipe()
		so, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		lines := make(chan string)
		go func() {
			rd := bufio.NewReaderSize(so, 1<<20)
			for {
				l, err := rd.ReadString('\n')
				if strings.HasPrefix(l, "{\"status\"") {
					lines <- l
				}
				if err != nil {
					close(lines)
					return
				}
			}
		}()
		dead := false
		for !dead && len(out) < len(cs) {
			j, _ := json.Marshal(cs[len(out)])
			io.WriteString(in, string(j)+"\n")
			select {
			case l, ok := <-lines:
				var r natResult
				if !ok {
					r = natResult{Status: "crash", Msg: tail(stderr.String(), 1500)}
					dead = true
				} else if json.Unmarshal([]byte(l), &r) != nil {
					r = natResult{Status: "nomodel", Msg: "unreadable result"}
				}
				out = append(out, r)
			case <-time.After(wait):
				dead = true
				if wait < time.Minute {
					wait = 100 * time.Second // once more, the machine may be busy
					continue
				}
				out = append(out, natResult{Status: "timeout", Msg: "the native run does not end"})
			}
		}
		in.Close()
		if dead {
			cmd.Process.Kill()
		}
		go func() {
			for range lines {
			}
		}()
		cmd.Wait()
	}
	return out, nil
}

func tail(s string, n int) string {
	if i := strings.Index(s, "ERROR: AddressSanitizer"); i >= 0 && len(s)-i > n {
		return s[i : i+n]
	}
	if len(s) > n {
		return s[:n]
	}
	return s
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	only := fs.String("only", "", "one harness")
	verbose := fs.Bool("verbose", false, "")
	workers := fs.Int("w", 8, "")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	t0 := time.Now()
	var specs []CheckSpec
	if b, err := os.ReadFile(filepath.Join(*root, "checks.json")); err != nil || json.Unmarshal(b, &specs) != nil {
		fmt.Fprintln(os.Stderr, "cannot read checks.json", err)
		return 2
	}
	var spec *CheckSpec
	for i := range specs {
		if specs[i].ID == *prop {
			spec = &specs[i]
		}
	}
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no check for", *prop)
		return 2
	}
	var knowns []known
	if b, err := os.ReadFile(filepath.Join(*root, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &knowns); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
	}
	listed := map[string]known{}
	for _, k := range knowns {
		if k.Property == *prop && k.Status == "known" {
			listed[k.ID] = k
		}
	}
	tmp, err := os.MkdirTemp("", "gosym-"+*prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	nat := &native{root: *root, version: spec.Version, tmp: tmp, bins: map[string]string{}}
	// build the replay binary while the program is loaded
	natErr := make(chan error, 1)
	go func() {
		_, err := nat.bin("plain")
		for _, c := range spec.Cmds {
			if err == nil {
				err = nat.program(c)
			}
		}
		natErr <- err
	}()
	e, err := exec.Load(filepath.Join(*root, "harness", spec.Version), patterns(spec.Cmds), goEnv())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if spec.Version == "v6" {
		if err := e.LoadC(filepath.Join(*repo, "v6/pkg/tsl")); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if err := <-natErr; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ev := newEvidence(*prop, *tier, seed, spec)
	ev.load = e.LoadTime
	type viol struct {
		v      exec.Violation
		params map[string]int
	}
	var viols []viol
	var knownHits []struct {
		id string
		viol
	}
	traces := map[string]map[string]*exec.Trace{}
	traceP := map[string]map[string]int{}
	var samples []natCase
	var sampleObs [][]string
	var sampleKind []string
	started := time.Now()
	for i, hs := range spec.Harnesses {
		if *only != "" && hs.Name != *only {
			continue
		}
		if hs.Only == "thorough" && *tier != "thorough" {
			continue
		}
		p, sec := hs.Quick, hs.SecQ
		if *tier == "thorough" {
			sec = hs.SecT
			if hs.Thorough != nil {
				p = hs.Thorough
			}
			if sec == 0 {
				sec = 1800
			}
		} else if sec == 0 {
			sec = 150
		}
		// A check that runs on every change has to end: all its explorations
		// share quickSec, and each leaves the ones after it a part.
		if *tier != "thorough" {
			rest := quickSec - int(time.Since(started).Seconds()) - 15*(len(spec.Harnesses)-1-i)
			sec = max(10, min(sec, rest))
		}
		opt := exec.Options{Workers: *workers, Samples: 60, Params: p, Deadline: time.Now().Add(time.Duration(sec) * time.Second)}
		rep, err := e.Explore(hs.Name, opt)
		if err != nil {
			fmt.Fprintln(os.Stderr, hs.Name+":", err)
			return 2
		}
		if *verbose {
			show(rep)
		}
		ev.add(hs, p, rep)
		if spec.Schedules {
			traces[hs.Name], traceP[hs.Name] = rep.Traces, p
		}
		for _, v := range rep.Violations {
			viols = append(viols, viol{v, p})
		}
		var ids []string
		for id := range rep.Known {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			knownHits = append(knownHits, struct {
				id string
				viol
			}{id, viol{rep.Known[id], p}})
		}
		for _, s := range rep.Samples {
			samples = append(samples, natCase{hs.Name, s.Model, p})
			sampleObs = append(sampleObs, s.Obs)
			sampleKind = append(sampleKind, "sample")
		}
		for _, s := range rep.Incomplete {
			samples = append(samples, natCase{hs.Name, s.Model, p})
			sampleObs = append(sampleObs, nil)
			sampleKind = append(sampleKind, "incomplete")
		}
	}
	// confirm counterexamples on the compiled code
	exit := 0
	replayDir := filepath.Join(*root, "replays")
	nrep := 0
	violation := func(c natCase, r natResult, mode, msg string) {
		nrep++
		os.MkdirAll(replayDir, 0o755)
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", *prop, nrep))
		b, _ := json.MarshalIndent(map[string]any{"property": *prop, "message": msg, "harness": c.Harness, "model": c.Model, "params": c.Params,
			"native": r, "mode": mode, "how": "cd /verif/harness/" + spec.Version + " && GOFLAGS=-mod=mod go run ./run <this file>"}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		fmt.Printf("  %s: %s; native run: %s %s; input: %s\n", c.Harness, msg, r.Status, firstLine(r.Msg), r.Text)
		exit = 1
		ev.violations++
	}
	confirmed := map[string]bool{}
	tried := map[string]int{}
	for _, v := range viols {
		key := v.v.Harness + "|" + v.v.Msg
		if confirmed[key] || nrep >= 8 {
			continue
		}
		tried[key]++
		c := natCase{v.v.Harness, v.v.Model, v.params}
		modes := []string{"plain"}
		if spec.Version == "v6" {
			modes = []string{"plain", "wrap", "asan"}
		}
		for _, m := range modes {
			rs, err := nat.run(m, []natCase{c})
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if bad(rs[0]) {
				violation(c, rs[0], m, v.v.Msg)
				confirmed[key] = true
				break
			}
			if *verbose {
				fmt.Println("   not reproduced in mode", m, rs[0])
			}
		}
		if !confirmed[key] {
			ev.unconfirmed = append(ev.unconfirmed, map[string]any{"harness": v.v.Harness, "msg": v.v.Msg, "model": v.v.Model})
		}
	}
	for key := range tried {
		if !confirmed[key] {
			fmt.Fprintln(os.Stderr, "UNCONFIRMED counterexample (does not reproduce natively, not reported):", key)
		}
	}
	if spec.Schedules {
		var hn []string
		for h := range traces {
			hn = append(hn, h)
		}
		sort.Strings(hn)
		for _, h := range hn {
			r := schedules(traces[h], !strings.HasSuffix(h, "_use"))
			ev.schedules(h, r, len(traces[h]))
			if *verbose {
				fmt.Printf("   %s: %d pairs of calls, %d with a bad schedule, %d unknown, %v\n", h, r.pairs, r.sat, r.unknown, r.time.Round(time.Millisecond))
			}
			sure := map[string]bool{}
			for _, v := range r.viols {
				if sure[v.what] || nrep >= 4 {
					continue
				}
				c := natCase{h, map[string]uint64{}, map[string]int{"stress": 400}}
				for k, x := range traceP[h] {
					c.Params[k] = x
				}
				for k, x := range v.a.Model {
					c.Model[k] = x
				}
				for k, x := range v.b.Model {
					if strings.HasPrefix(k, "a.") {
						c.Model["b."+k[2:]] = x
					}
				}
				for _, m := range []string{"stress", "race", "tsan"} {
					rs, err := nat.run(m, []natCase{c})
					if err != nil {
						fmt.Fprintln(os.Stderr, err)
						return 2
					}
					if bad(rs[0]) && (m != "tsan" || strings.Contains(rs[0].Msg, "data race")) {
						violation(c, rs[0], m, v.what+", schedule: "+v.plan)
						sure[v.what] = true
						break
					}
				}
				if !sure[v.what] {
					ev.unconfirmed = append(ev.unconfirmed, map[string]any{"harness": h, "msg": v.what, "schedule": v.plan})
				}
			}
			for _, v := range r.viols {
				if !sure[v.what] {
					fmt.Fprintln(os.Stderr, "UNCONFIRMED schedule (no native run shows it, not reported):", h, v.what)
					break
				}
			}
		}
	}
	knownSeen := map[string]bool{}
	for _, k := range knownHits {
		if knownSeen[k.id] {
			continue
		}
		c := natCase{k.v.Harness, k.v.Model, k.params}
		rs, err := nat.run("plain", []natCase{c})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ok := false
		for _, id := range rs[0].Knowns {
			ok = ok || id == k.id
		}
		if !ok && rs[0].Status == "ok" {
			ev.unconfirmed = append(ev.unconfirmed, map[string]any{"known": k.id, "model": k.v.Model})
			continue
		}
		if kf, in := listed[k.id]; in {
			knownSeen[k.id] = true
			eg := ""
			if t := oneLine(rs[0].Text); rs[0].Text != "" {
				eg = " (e.g. " + t + ")"
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s%s\n", *prop, kf.What, eg)
			ev.known = append(ev.known, k.id)
		} else {
			knownSeen[k.id] = true
			violation(c, rs[0], "plain", "["+k.id+"] "+k.v.Msg)
		}
	}
	// the same harness, natively, on models of explored paths
	if len(samples) > 0 {
		rs, err := nat.run("plain", samples)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for i, r := range rs {
			switch {
			case bad(r):
				if len(confirmed) == 0 && nrep < 4 {
					violation(samples[i], r, "plain", r.Msg)
				}
			case sampleKind[i] == "incomplete":
				ev.incompleteRuns++
			case r.Status == "ok" && strings.Join(r.Obs, "\n") == strings.Join(sampleObs[i], "\n"):
				ev.validated++
				ev.sample(samples[i], r)
			default:
				ev.mismatches = append(ev.mismatches, map[string]any{"harness": samples[i].Harness, "model": samples[i].Model, "native": r.Status + " " + r.Msg, "native_obs": r.Obs, "engine_obs": sampleObs[i]})
			}
		}
	}
	if len(ev.mismatches) > 0 {
		fmt.Fprintf(os.Stderr, "%d sampled paths differ between engine and native run (see evidence)\n", len(ev.mismatches))
	}
	ev.wall = time.Since(t0)
	if err := ev.write(filepath.Join(*root, "evidence", *prop+".json")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d paths, %d queries, solver %.1fs, %d sampled paths agree natively, %d violations, %.1fs%s\n", *prop, *tier, ev.paths, ev.queries, ev.solver.Seconds(), ev.validated, ev.violations, ev.wall.Seconds(), ev.state())
	return exit
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func oneLine(s string) string { return strings.ReplaceAll(strconv.Quote(s), "\n", " ") }
