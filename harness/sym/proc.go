package sym

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"
)

var ownDir string

// program builds the program in a directory of the repository.
func program(dir string) string {
	d := os.Getenv("SYM_CMD_DIR")
	if d == "" {
		if ownDir == "" {
			t, err := os.MkdirTemp("", "sym-cmd")
			if err != nil {
				panic(err)
			}
			ownDir = t
		}
		d = ownDir
	}
	out := filepath.Join(d, "cmd-"+strings.ReplaceAll(dir, "/", "-"))
	if _, err := os.Stat(out); err == nil {
		return out
	}
	_, here, _, _ := runtime.Caller(0)
	c := exec.Command("go", "build", "-o", out, "github.com/yaacov/tree-search-language/"+dir)
	c.Dir = filepath.Join(filepath.Dir(filepath.Dir(here)), dir[:strings.IndexByte(dir, '/')])
	if b, err := c.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("build of %s: %v\n%s", dir, err, b))
	}
	return out
}

// RunMain runs the program in a directory of the repository: its standard
// output, whether it wrote to standard error, and its exit status.
func RunMain(dir string, args ...string) (string, bool, int) {
	for _, a := range args {
		if strings.IndexByte(a, 0) >= 0 {
			panic(Infeasible{})
		}
	}
	c := exec.Command(program(dir), args...)
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	if err := c.Start(); err != nil {
		panic(Infeasible{}) // too long an argument
	}
	t := time.AfterFunc(30*time.Second, func() { c.Process.Kill() })
	c.Wait()
	if !t.Stop() {
		panic("the program does not end")
	}
	code := c.ProcessState.ExitCode()
	if code < 0 || code == 2 && strings.Contains(errs.String(), "goroutine ") {
		panic("the program crashes: " + errs.String())
	}
	return out.String(), errs.Len() > 0, code
}
