package fw

import (
	"bytes"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Built is the path of a program built by check.sh from the tree under test.
func Built(c *Ctx, name string) string {
	p := filepath.Join(os.Getenv("VERIF_BUILD"), name)
	if _, err := os.Stat(p); err != nil {
		c.Fatalf("the program is missing: %v", err)
	}
	return p
}

// Outcome is how a process ended.
type Outcome struct {
	Code           int
	Stdout, Stderr string
}

// Process runs a program in dir. A program that does not end is inconclusive.
func Process(c *Ctx, dir, prog string, args ...string) Outcome {
	return process(c, dir, nil, nil, prog, args...)
}

// ProcessEnv is Process with more environment variables.
func ProcessEnv(c *Ctx, dir string, env []string, prog string, args ...string) Outcome {
	return process(c, dir, env, nil, prog, args...)
}

func process(c *Ctx, dir string, env []string, in io.Reader, prog string, args ...string) Outcome {
	var so, se bytes.Buffer
	cmd := exec.Command(prog, args...)
	cmd.Dir = dir
	cmd.Stdin = in
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}
	cmd.Env = append(cmd.Env, env...)
	if err := cmd.Start(); err != nil {
		c.Fatalf("%s %q does not start: %v", filepath.Base(prog), args, err)
	}
	tm := time.AfterFunc(2*time.Minute, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !tm.Stop() {
		c.Fatalf("%s %q did not end", filepath.Base(prog), args)
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		c.Fatalf("%s: %v", filepath.Base(prog), err)
	}
	return Outcome{cmd.ProcessState.ExitCode(), so.String(), se.String()}
}

// ProcessIn is Process with something to read from a pipe.
func ProcessIn(c *Ctx, dir, in, prog string, args ...string) Outcome {
	return process(c, dir, nil, strings.NewReader(in), prog, args...)
}

// Listing is the content of a directory.
func Listing(c *Ctx, dir string) map[string]string {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out[rel] = "file " + string(b)
		} else {
			out[rel] = "other"
		}
		return nil
	})
	if err != nil {
		c.Fatalf("%v", err)
	}
	return out
}

// Write writes a file of the scratch directory.
func Write(c *Ctx, path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		c.Fatalf("%v", err)
	}
}

// CaseDir makes the directory of a case and a function to remove it.
func CaseDir(t *T) (string, func()) {
	d := Scratch("case-" + strings.ReplaceAll(t.Key, "/", "-"))
	return d, func() { os.RemoveAll(d) }
}
