package exec

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Accesses to memory that another call can reach: C globals, C blocks and Go
// variables that exist before the watched part begins.

type goWatch struct {
	cells map[*Value]string
	maps  map[*MapObj]string
	chans map[*ChanObj]string
}

func (x *Path) startWatch() {
	x.cm.watch = map[string]bool{}
	x.cm.watchFrom = x.cm.next
	x.events = nil
	var gs []*ssa.Global
	for _, p := range x.e.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), RepoPath) {
			continue
		}
		x.ensureInit(p)
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") && !strings.HasPrefix(g.Name(), "_cgo") && !strings.HasPrefix(g.Name(), "_Cgo") {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	w := &goWatch{map[*Value]string{}, map[*MapObj]string{}, map[*ChanObj]string{}}
	for _, g := range gs {
		w.reach(x.global(g), g.String()+"/")
	}
	x.gw = w
}

func (w *goWatch) reach(p *Value, name string) {
	if p == nil {
		return
	}
	if _, ok := w.cells[p]; ok {
		return
	}
	w.cells[p] = name
	w.value(*p, name)
}

func (w *goWatch) value(v Value, name string) {
	if len(name) > 120 {
		return
	}
	switch v := v.(type) {
	case Struct:
		for i := range v {
			w.reach(&v[i], fmt.Sprintf("%s%d/", name, i))
		}
	case Array:
		for i := range v {
			w.reach(&v[i], fmt.Sprintf("%s%d/", name, i))
		}
	case Slice:
		for i := range v {
			w.reach(&v[i], fmt.Sprintf("%s[%d]/", name, i))
		}
	case GPtr:
		w.reach(v.P, name+"*/")
	case Iface:
		w.value(v.V, name)
	case *MapObj:
		if v == nil || w.maps[v] != "" {
			return
		}
		w.maps[v] = name + "map/"
		for i, e := range v.ents {
			w.value(e.v, fmt.Sprintf("%smap/%d/", name, i))
		}
	case *ChanObj:
		if v != nil {
			w.chans[v] = name + "chan/"
		}
	case *Closure:
		if v != nil {
			for i := range v.Env {
				w.value(v.Env[i], fmt.Sprintf("%senv%d/", name, i))
			}
		}
	}
}

func (x *Path) event(kind, arg string) {
	if n := len(x.events); n > 0 && x.events[n-1].Kind == kind && x.events[n-1].Arg == arg {
		return
	}
	x.events = append(x.events, Event{kind, arg})
}

func (x *Path) goAccess(p *Value, kind string) {
	if n, ok := x.gw.cells[p]; ok {
		x.event(kind, "go:"+n)
	}
}

func (x *Path) mapAccess(m *MapObj, kind string) {
	if x.gw != nil && m != nil {
		if n, ok := x.gw.maps[m]; ok {
			x.event(kind, "go:"+n)
		}
	}
}

// lockEvent names the lock by the variable it is in.
func (x *Path) lockEvent(kind string, p *Value) {
	if x.gw == nil {
		return
	}
	n, ok := x.gw.cells[p]
	if !ok {
		return // no other call can have this lock
	}
	x.events = append(x.events, Event{kind, "go:" + n})
}

// chanEvent sees a channel with one slot as a lock.
func (x *Path) chanEvent(c *ChanObj) {
	if x.gw == nil {
		return
	}
	n, ok := x.gw.chans[c]
	if !ok {
		return
	}
	k := "lock"
	for _, e := range x.events {
		if e.Arg == "go:"+n {
			if k == "lock" {
				k = "unlock"
			} else {
				k = "lock"
			}
		}
	}
	x.events = append(x.events, Event{k, "go:" + n})
}

// normal brings a trace to its normal form: between two synchronisations each
// object has one access, a write if there is any. The order inside such a part
// makes no difference: accesses of two calls that share a lock are never
// interleaved, those that do not are a race whatever their order.
func normal(ev []Event) []Event {
	var out []Event
	seg := func(es []Event) {
		kind := map[string]string{}
		for _, e := range es {
			if kind[e.Arg] != "w" {
				kind[e.Arg] = e.Kind
			}
		}
		var names []string
		for n := range kind {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			out = append(out, Event{kind[n], n})
		}
	}
	st := 0
	for i, e := range ev {
		if e.Kind != "r" && e.Kind != "w" {
			seg(ev[st:i])
			out = append(out, e)
			st = i + 1
		}
	}
	seg(ev[st:])
	return out
}

func traceKey(ev []Event) string {
	var b strings.Builder
	for _, e := range ev {
		b.WriteString(e.Kind + " " + e.Arg + "\n")
	}
	return b.String()
}

// Trace is what one path does to memory that other calls can reach.
type Trace struct {
	Events []Event
	Model  map[string]uint64
}
