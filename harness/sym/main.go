package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
)

// Case is one native run asked for by the driver.
type Case struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"model"`
	Params  map[string]int    `json:"params,omitempty"`
}

// Result is what it did.
type Result struct {
	Status string   `json:"status"` // ok, violation, panic, infeasible, nomodel
	Msg    string   `json:"msg,omitempty"`
	Obs    []string `json:"obs,omitempty"`
	Knowns []string `json:"knowns,omitempty"`
	Text   string   `json:"text,omitempty"`
	Stack  string   `json:"stack,omitempty"`
}

// Run runs one harness natively.
func Run(reg map[string]func(), c Case) (r Result) {
	f := reg[c.Harness]
	if f == nil {
		return Result{Status: "nomodel", Msg: "no harness " + c.Harness}
	}
	Params = c.Params
	Reset(c.Model)
	defer func() {
		r.Obs, r.Knowns, r.Text = Obs, Knowns, Text()
		switch e := recover().(type) {
		case nil:
			if r.Status == "" {
				r.Status = "ok"
			}
		case Violated:
			r.Status, r.Msg = "violation", e.Msg
		case Infeasible:
			r.Status = "infeasible"
		default:
			r.Status, r.Msg = "panic", fmt.Sprint(e)
			r.Stack = string(debug.Stack())
		}
	}()
	f()
	return
}

// Main reads cases, one per line, and writes results, one per line.
func Main(reg map[string]func()) {
	defer func() {
		if ownDir != "" {
			os.RemoveAll(ownDir)
		}
	}()
	if len(os.Args) > 1 {
		// one case from a file, for a person
		b, err := os.ReadFile(os.Args[1])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		r := Run(reg, c)
		o, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(strings.ReplaceAll(string(o), `\n`, "\n"))
		if r.Status == "violation" || r.Status == "panic" {
			if ownDir != "" {
				os.RemoveAll(ownDir)
			}
			os.Exit(1)
		}
		return
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	for {
		var c Case
		if err := dec.Decode(&c); err != nil {
			return
		}
		r := Run(reg, c)
		o, _ := json.Marshal(r)
		os.Stdout.Write(append(o, '\n'))
	}
}
