package fw

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// frames of the code under test in a crash or race report
var aqlFrame = regexp.MustCompile(`github\.com/flowchartsman/aql[/.]`)

// Main is the entry point of every check binary. The process supervises a copy
// of itself, so that fatal errors of the runtime (data races, concurrent map
// accesses, stack overflows, faults) are observed too.
func Main() {
	var (
		id     = flag.String("prop", "", "property to check")
		replay = flag.String("replay", "", "replay file of a violation")
		child  = flag.String("child", "", "internal: result file")
		only   = flag.String("case", "", "internal: only this case")
	)
	flag.Parse()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			n = caseSeed(s)
		}
		seed = n
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if *child != "" {
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
		}
		RunChild(*id, *child, seed, thorough, *only)
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		die(err)
		var r struct {
			Property, Case, Tier string
			Seed                 int64
		}
		die(json.Unmarshal(b, &r))
		*id, *only, seed, thorough = r.Property, r.Case, r.Seed, r.Tier == "thorough"
		os.Setenv("VERIF_SEED", fmt.Sprint(seed))
		os.Setenv("VERIF_TIER", r.Tier)
	}
	os.Exit(supervise(*id, seed, thorough, *only))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
}

func supervise(id string, seed int64, thorough bool, only string) int {
	p := Lookup(id)
	if p == nil {
		fmt.Fprintf(os.Stderr, "no check %q, have %v\n", id, IDs())
		return 2
	}
	evDir := filepath.Join(Root, "evidence")
	die(os.MkdirAll(filepath.Join(evDir, "replay"), 0o755))
	evFile := filepath.Join(evDir, id+".json")
	if only == "" {
		os.Remove(evFile)
	}
	scratch, err := os.MkdirTemp("", "aqlverif-"+id+"-")
	die(err)
	defer os.RemoveAll(scratch)
	out := filepath.Join(scratch, "result.json")
	args := []string{"-prop", id, "-child", out}
	if only != "" {
		args = append(args, "-case", only)
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66",
		"VERIF_SEED="+fmt.Sprint(seed))
	var stderr bytes.Buffer
	cmd.Stderr = &capped{buf: &stderr, max: 16 << 20}
	start := time.Now()
	runErr := cmd.Run()
	var res Result
	if b, err := os.ReadFile(out); err == nil {
		if err := json.Unmarshal(b, &res); err != nil {
			fmt.Fprintln(os.Stderr, "error: bad result:", err)
			return 2
		}
	} else {
		// the child died
		text := stderr.String()
		if !aqlFrame.MatchString(text) {
			fmt.Fprintf(os.Stderr, "error: check died: %v\n%s\n", runErr, tail(text, 4000))
			return 2
		}
		what := "the process crashed in the code under test"
		if strings.Contains(text, "DATA RACE") {
			what = "data race in the code under test"
		}
		for _, l := range strings.Split(text, "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
				what += ": " + l
				break
			}
		}
		tier := "quick"
		if thorough {
			tier = "thorough"
		}
		res.Failures = []Failure{{Case: only, What: what, Trace: head(text, 20000)}}
		res.Evidence = map[string]any{"property": id, "tier": tier, "seed": seed, "level": p.Level,
			"coverage": map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": p.Rule, "samples": []any{what}},
			"wall_s":   time.Since(start).Seconds(), "violations": 1}
	}
	if only == "" {
		b, err := json.MarshalIndent(res.Evidence, "", " ")
		die(err)
		die(os.WriteFile(evFile, append(b, '\n'), 0o644))
	}
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(res.Failures) > 0 {
		f := res.Failures[0]
		path := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d.json", id, seed))
		tier := "quick"
		if thorough {
			tier = "thorough"
		}
		b, _ := json.MarshalIndent(map[string]any{"property": id, "seed": seed, "tier": tier, "case": f.Case, "what": f.What, "trace": f.Trace}, "", " ")
		die(os.WriteFile(path, append(b, '\n'), 0o644))
		fmt.Printf("%s: case %s: %s\n", id, f.Case, head(f.What, 3000))
		if f.Trace != "" {
			fmt.Println(head(f.Trace, 3000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if res.Error != "" {
		fmt.Fprintf(os.Stderr, "error: %s\n", head(res.Error, 6000))
		return 2
	}
	if runErr != nil {
		fmt.Fprintf(os.Stderr, "error: check died after reporting: %v\n%s\n", runErr, tail(stderr.String(), 4000))
		return 2
	}
	cov := res.Evidence["coverage"].(map[string]any)
	fmt.Printf("%s held: %v evaluations, %v distinct, %.1fs\n", id, cov["evaluations"], cov["distinct_nontrivial"], time.Since(start).Seconds())
	return 0
}

type capped struct {
	buf *bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	if room := c.max - c.buf.Len(); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		c.buf.Write(p[:room])
	}
	return len(p), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "... " + s[len(s)-n:]
	}
	return s
}
