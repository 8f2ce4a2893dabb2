package zzverif

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/zzdriver"
)

// ---------------------------------------------------------------------------
// Running the real command, built from cmd/ddlctl with the database drivers
// replaced by one that calls back to this process.
// ---------------------------------------------------------------------------

// Database answers the calls of the command.
type Database interface {
	Call(c *zzdriver.Call) *zzdriver.Reply
}

type cliRun struct {
	Dir   string // working directory
	Args  []string
	Stdin string
	Env   []string
	DB    Database
}

type cliOut struct {
	Code    int // -1: killed by a signal or by the time limit
	Stdout  string
	Stderr  string
	Hung    bool
	Crashed bool // the Go runtime reported a panic or a fatal error
}

func (o *cliOut) String() string {
	return fmt.Sprintf("exit %d\n--- stdout\n%s\n--- stderr\n%s", o.Code, clip(o.Stdout, 1500), clip(o.Stderr, 1500))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

const cliLimit = 40 * time.Second

func runCLI(c *cliRun) *cliOut {
	bin := os.Getenv("ZZ_CLI")
	if bin == "" {
		harnessf("ZZ_CLI is not set")
	}
	// an endless loop must not use up the memory of the machine
	cmd := exec.Command("/bin/sh", append([]string{"-c", `ulimit -v 4000000; exec "$0" "$@"`, bin}, c.Args...)...)
	cmd.Dir = c.Dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + c.Dir, "GOTRACEBACK=single", "GOMAXPROCS=2"}, c.Env...)
	cmd.Stdin = strings.NewReader(c.Stdin)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	var closers []io.Closer
	done := make(chan struct{})
	if c.DB != nil {
		cmd.Env = append(cmd.Env, "ZZ_DB=1")
		inR, inW, err := os.Pipe()
		if err != nil {
			harnessf("pipe: %v", err)
		}
		outR, outW, err := os.Pipe()
		if err != nil {
			harnessf("pipe: %v", err)
		}
		cmd.ExtraFiles = []*os.File{inR, outW}
		closers = []io.Closer{inR, outW}
		go func() {
			defer close(done)
			defer outR.Close()
			defer inW.Close()
			br := bufio.NewReader(outR)
			for {
				line, err := br.ReadBytes('\n')
				if err != nil {
					return
				}
				call := &zzdriver.Call{}
				if err := json.Unmarshal(line, call); err != nil {
					return
				}
				b, _ := json.Marshal(c.DB.Call(call))
				if _, err := inW.Write(append(b, '\n')); err != nil {
					return
				}
			}
		}()
	} else {
		close(done)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		harnessf("cannot start the command: %v", err)
	}
	for _, f := range closers {
		f.Close()
	}
	o := &cliOut{}
	timer := time.AfterFunc(cliLimit, func() { o.Hung = true; _ = cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	<-done
	o.Stdout, o.Stderr = stdout.String(), stderr.String()
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		o.Code = ee.ExitCode()
	default:
		harnessf("wait: %v", err)
	}
	for _, l := range strings.Split(o.Stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			o.Crashed = true
		}
	}
	if strings.Contains(o.Stderr, "zzdriver: no database here") && c.DB != nil {
		harnessf("the driver found no database")
	}
	return o
}

// broken tells what is wrong with any run: a crash or a hang.
func (o *cliOut) broken() string {
	switch {
	case o.Hung:
		return "the command did not end"
	case o.Crashed:
		return "the command crashed"
	case o.Code == -1:
		return "the command was killed by a signal"
	}
	return ""
}

// failed tells whether the command reported a failure: a status and a message.
func (o *cliOut) refused() bool {
	return o.Code != 0 && strings.Contains(o.Stderr, "ddlctl: ")
}

// scratch makes an empty directory that lives as long as f runs.
func scratch(f func(dir string) *Result) *Result {
	dir, err := os.MkdirTemp("", "zzcli")
	if err != nil {
		harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	return f(dir)
}

func writeFiles(dir string, files map[string]string) {
	for n, s := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			harnessf("%v", err)
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			harnessf("%v", err)
		}
	}
}

// tree reads a directory: relative path -> content, or "<dir>".
func tree(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			m[rel] = "<dir>"
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[rel] = string(b)
		default:
			m[rel] = "<" + fi.Mode().String() + ">"
		}
		return nil
	})
	if err != nil {
		harnessf("%v", err)
	}
	return m
}

// treeDiff lists the paths whose content differs, but for those in except.
func treeDiff(a, b map[string]string, except ...string) []string {
	var out []string
	skip := map[string]bool{}
	for _, e := range except {
		skip[e] = true
	}
	for p := range a {
		if _, ok := b[p]; !ok && !skip[p] {
			out = append(out, "gone: "+p)
		} else if a[p] != b[p] && !skip[p] {
			out = append(out, "changed: "+p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok && !skip[p] {
			out = append(out, "new: "+p)
		}
	}
	sort.Strings(out)
	return out
}
