// Package cli runs the built command line tool under limits.
package cli

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

// Result of a run.
type Result struct {
	Stdout, Stderr string
	Code           int
	Signal         string
	Timeout        bool
	Elapsed        time.Duration
}

// Limits of a run.
type Limits struct {
	Timeout time.Duration // default 30 s
	Env     []string
}

// Run the tool with the given standard input and arguments.
func Run(l Limits, stdin string, args ...string) (*Result, error) {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		return nil, errors.New("VERIF_CLI is not set")
	}
	return RunBin(bin, l, stdin, args...)
}

// RunBin runs the given binary like Run.
func RunBin(bin string, l Limits, stdin string, args ...string) (*Result, error) {
	if l.Timeout == 0 {
		l.Timeout = 30 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), l.Timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append([]string{"HOME=/nonexistent", "GOMEMLIMIT=1500MiB", "GOTRACEBACK=single", "TMPDIR=" + os.TempDir()}, l.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	start := time.Now()
	err := cmd.Run()
	r := &Result{Stdout: out.String(), Stderr: errb.String(), Elapsed: time.Since(start)}
	if ctx.Err() != nil {
		r.Timeout = true
		return r, nil
	}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		r.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Signal = ws.Signal().String()
		}
	default:
		return nil, err
	}
	return r, nil
}

// Crashed reports how a run ended other than by returning a result or a
// diagnostic with a conventional exit status.
func (r *Result) Crashed() error {
	switch {
	case r.Timeout:
		return fmt.Errorf("did not terminate within %v", r.Elapsed.Round(time.Second))
	case r.Signal != "":
		return fmt.Errorf("killed by signal: %s", r.Signal)
	case strings.Contains(r.Stderr, "goroutine ") && (strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:")):
		return fmt.Errorf("crash:\n%.600s", r.Stderr)
	case strings.Contains(r.Stderr, "fatal error: "):
		return fmt.Errorf("crash:\n%.600s", r.Stderr)
	case r.Code < 0 || r.Code > 2:
		return fmt.Errorf("exit status %d", r.Code)
	case r.Code == 2 && !strings.Contains(strings.ToLower(r.Stderr), "usage") && strings.Contains(r.Stderr, "goroutine"):
		return fmt.Errorf("exit status 2:\n%.600s", r.Stderr)
	case r.Code != 0 && strings.TrimSpace(r.Stderr) == "":
		return fmt.Errorf("exit status %d without a diagnostic", r.Code)
	}
	return nil
}
