// Package fw is the framework the checks run in: it hands out cases that are
// fixed by (seed, property, index), counts what the monitors observed, turns
// panics and disagreements into violations and writes the evidence file.
package fw

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Root is the directory of the verification repository.
var Root = "/verif"

// Stdout is the real standard output; os.Stdout is silenced because the code
// under test may print to it.
var Stdout = os.Stdout

// Prop is one registered check.
type Prop struct {
	ID    string
	Level string
	Rule  string
	// Assumptions the verdict rests on.
	Assumptions []string
	Run         func(c *Ctx)
}

var registry = map[string]*Prop{}

// Register adds a check.
func Register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	registry[p.ID] = p
}

var extensions = map[string][]func(c *Ctx){}

// Extend adds a part to a check, run after the others.
func Extend(id string, f func(c *Ctx)) { extensions[id] = append(extensions[id], f) }

// Lookup finds a registered check.
func Lookup(id string) *Prop { return registry[id] }

// IDs lists the registered checks.
func IDs() []string {
	var out []string
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// Ctx is the state of one run of a check.
type Ctx struct {
	Prop     *Prop
	Seed     int64
	Thorough bool
	Only     string // replay: only the case with this key

	evals    atomic.Int64
	mu       sync.Mutex
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []any
	requires map[string]int64
	fails    []Failure
	failed   atomic.Bool
	peak     atomic.Int64 // of the heap, in MB
	sections int
	busy     sync.Map // key -> running
	extra    map[string]any
	known    []string
}

// Failure is a violation that was observed.
type Failure struct {
	Case  string `json:"case"`
	What  string `json:"what"`
	Trace string `json:"trace,omitempty"`
	order int64
}

// NewCtx makes the state for a run.
func NewCtx(p *Prop, seed int64, thorough bool, only string) *Ctx {
	return &Ctx{Prop: p, Seed: seed, Thorough: thorough, Only: only,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, requires: map[string]int64{}, extra: map[string]any{}}
}

// N picks a number of cases by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// T is one case.
type T struct {
	*rand.Rand
	C    *Ctx
	Key  string
	ord  int64
	note []string
}

type harnessAbort struct{ msg string }
type caseDone struct{}

// Fatalf reports that the check itself cannot run (exit 2, not a violation).
func (c *Ctx) Fatalf(format string, a ...any) {
	panic(harnessAbort{fmt.Sprintf(format, a...)})
}

func caseSeed(parts ...string) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return int64(h.Sum64())
}

// Note records context that is written out when the case fails.
func (t *T) Note(format string, a ...any) {
	t.note = append(t.note, fmt.Sprintf(format, a...))
}

// ClearNotes drops the context recorded so far.
func (t *T) ClearNotes() { t.note = t.note[:0] }

// Failf records a violation and ends the case.
func (t *T) Failf(format string, a ...any) {
	t.fail(fmt.Sprintf(format, a...), "")
	panic(caseDone{})
}

func (t *T) fail(what, trace string) {
	if len(t.note) > 0 {
		what += "\n  " + strings.Join(t.note, "\n  ")
	}
	t.C.mu.Lock()
	t.C.fails = append(t.C.fails, Failure{Case: t.Key, What: what, Trace: trace, order: t.ord})
	t.C.mu.Unlock()
	t.C.failed.Store(true)
}

// Call runs code under test; a panic in it is a violation.
func (t *T) Call(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case caseDone, harnessAbort:
				panic(r)
			}
			t.fail(fmt.Sprintf("%s panicked: %v", what, r), string(debug.Stack()))
			panic(caseDone{})
		}
	}()
	f()
}

// Eval counts one evaluation of the oracle.
func (t *T) Eval() { t.C.evals.Add(1) }

// Distinct counts a distinct non-trivial case, identified by key.
func (t *T) Distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	s := h.Sum64()
	t.C.mu.Lock()
	t.C.distinct[s] = struct{}{}
	t.C.mu.Unlock()
}

// Count bumps a named monitor counter.
func (t *T) Count(name string) { t.C.Count(name, 1) }

// Count bumps a named monitor counter by n.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Require makes the run fail (as an error of the check) unless the counter
// reached min: a run that observed nothing shows nothing.
func (c *Ctx) Require(name string, min int64) {
	c.mu.Lock()
	c.requires[name] = min
	c.mu.Unlock()
}

// Extra records something measured in the coverage of the evidence file.
func (c *Ctx) Extra(name string, v any) {
	c.mu.Lock()
	c.extra[name] = v
	c.mu.Unlock()
}

// Known tells whether a finding is listed, by its name, among the findings of
// the property that are not repaired.
func (c *Ctx) Known(name string) bool {
	b, err := os.ReadFile(filepath.Join(Root, "known-findings.txt"))
	if err != nil {
		c.Fatalf("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, fmt.Sprintf("known: property=%s [%s] ", c.Prop.ID, name)) {
			return true
		}
	}
	return false
}

// Finding reports a listed finding that was observed again.
func (c *Ctx) Finding(what string) {
	c.mu.Lock()
	c.known = append(c.known, what)
	c.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence file.
func (t *T) Sample(v any) {
	t.C.mu.Lock()
	defer t.C.mu.Unlock()
	if len(t.C.samples) < 6 {
		t.C.samples = append(t.C.samples, v)
	}
}

// Bump counts an evaluation made outside of a case.
func (c *Ctx) Bump(n int64) { c.evals.Add(n) }

// Failed reports whether a violation was observed already.
func (c *Ctx) Failed() bool { return c.failed.Load() }

// Workers is the number of parallel workers.
var Workers = runtime.NumCPU()

// Run runs n cases of a section in parallel. Each is fixed by its key.
func (c *Ctx) Run(section string, n int, f func(t *T)) { c.run(section, n, Workers, f) }

// RunSeq runs n cases of a section one after the other.
func (c *Ctx) RunSeq(section string, n int, f func(t *T)) { c.run(section, n, 1, f) }

func (c *Ctx) run(section string, n, workers int, f func(t *T)) {
	c.sections++
	base := int64(c.sections) << 40
	if c.Only != "" && !strings.HasPrefix(c.Only, section+"/") {
		return
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	var abort atomic.Value
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.failed.Load() || abort.Load() != nil {
					return
				}
				key := fmt.Sprintf("%s/%d", section, i)
				if c.Only != "" && c.Only != key {
					continue
				}
				if msg := c.one(key, base+int64(i), f); msg != "" {
					abort.Store(msg)
				}
			}
		}()
	}
	wg.Wait()
	if m := abort.Load(); m != nil {
		panic(harnessAbort{m.(string)})
	}
}

func (c *Ctx) one(key string, ord int64, f func(t *T)) (abort string) {
	t := &T{Rand: rand.New(rand.NewSource(caseSeed(fmt.Sprint(c.Seed), c.Prop.ID, key))), C: c, Key: key, ord: ord}
	c.busy.Store(key, running{time.Now(), goroutineID()})
	defer c.busy.Delete(key)
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case caseDone:
			case harnessAbort:
				abort = v.msg
			default:
				abort = fmt.Sprintf("harness panic in case %s: %v\n%s\n%s", key, r, strings.Join(t.note, "\n"), debug.Stack())
			}
		}
	}()
	f(t)
	return ""
}

// HangLimit is how long one case may take before it counts as hung.
var HangLimit = 150 * time.Second

// watch reports a case that does not end, as a violation. The limit is
// thousands of times what a case takes, the process has to have used the
// processor for most of it, and the case has to be in the code under test.
func (c *Ctx) watch(done <-chan struct{}, finish func(errMsg string)) {
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	cpu := map[string]time.Duration{}
	stop := func(key, what string) {
		c.mu.Lock()
		c.fails = append(c.fails, Failure{Case: key, What: what, Trace: stacks()})
		c.mu.Unlock()
		finish("")
	}
	for {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if mb := int64(ms.HeapInuse >> 20); mb > c.peak.Load() {
			c.peak.Store(mb)
		}
		if ms.HeapInuse > MemLimit {
			c.busy.Range(func(k, v any) bool {
				stop(k.(string), "memory exhausted: more than 6 GB in use")
				return false
			})
		}
		now := time.Now()
		used := cpuTime()
		seen := map[string]bool{}
		c.busy.Range(func(k, v any) bool {
			key := k.(string)
			seen[key] = true
			if _, ok := cpu[key]; !ok {
				cpu[key] = used
			}
			run := v.(running)
			if now.Sub(run.since) < HangLimit || used-cpu[key] < HangLimit/3 && !stuck() {
				return true
			}
			if stuck() || inCode(run.id) {
				stop(key, "the case did not end (hang)")
			} else if now.Sub(run.since) > 4*HangLimit {
				finish("the check itself took too long in case " + key)
			}
			return true
		})
		for k := range cpu {
			if !seen[k] {
				delete(cpu, k)
			}
		}
	}
}

// MemLimit is dozens of times what a check uses.
const MemLimit = 6 << 30

func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// blocked goroutines that have waited for minutes
var blocked = regexp.MustCompile(`^goroutine \d+ \[[^\]]*\d+ minutes`)

// stuck reports whether a goroutine has been blocked for minutes inside the
// code under test.
func stuck() bool {
	for _, g := range strings.Split(stacks(), "\n\n") {
		if blocked.MatchString(g) && aqlFrame.MatchString(g) {
			return true
		}
	}
	return false
}

// running is a case that has begun.
type running struct {
	since time.Time
	id    string // of its goroutine
}

func goroutineID() string {
	buf := make([]byte, 64)
	f := strings.Fields(string(buf[:runtime.Stack(buf, false)]))
	return f[1]
}

// inCode reports whether the goroutine, or one it started, is found in the code
// under test most of the time.
func inCode(id string) bool {
	found := 0
	for i := 0; i < 10; i++ {
		for _, g := range strings.Split(stacks(), "\n\n") {
			if (strings.HasPrefix(g, "goroutine "+id+" ") || strings.Contains(g, "in goroutine "+id+"\n")) && aqlFrame.MatchString(g) {
				found++
				break
			}
		}
		time.Sleep(100 * time.Millisecond)
	}
	return found > 5
}

// Result is what a child hands back to its supervisor.
type Result struct {
	Failures []Failure      `json:"failures"`
	Known    []string       `json:"known,omitempty"`
	Error    string         `json:"error,omitempty"`
	Evidence map[string]any `json:"evidence"`
}

func (c *Ctx) result(start time.Time, errMsg string) *Result {
	c.mu.Lock()
	defer c.mu.Unlock()
	sort.Slice(c.fails, func(i, j int) bool { return c.fails[i].order < c.fails[j].order })
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	cov := map[string]any{
		"evaluations":         c.evals.Load(),
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Prop.Rule,
		"samples":             c.samples,
		"monitor":             c.counters,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if c.peak.Load() > 0 {
		cov["peak_heap_mb"] = c.peak.Load()
	}
	if errMsg == "" && len(c.fails) == 0 && c.Only == "" {
		for name, min := range c.requires {
			if c.counters[name] < min {
				errMsg = fmt.Sprintf("vacuous run: %s observed %d times, need %d", name, c.counters[name], min)
			}
		}
		if c.evals.Load() == 0 || len(c.distinct) == 0 || len(c.samples) == 0 {
			errMsg = "vacuous run: nothing was evaluated"
		}
	}
	return &Result{Failures: c.fails, Known: c.known, Error: errMsg, Evidence: map[string]any{
		"property":    c.Prop.ID,
		"tier":        tier,
		"seed":        c.Seed,
		"level":       c.Prop.Level,
		"coverage":    cov,
		"assumptions": c.Prop.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(c.fails),
	}}
}

// RunChild runs a check and writes its result to out.
func RunChild(id, out string, seed int64, thorough bool, only string) {
	p := Lookup(id)
	if p == nil {
		fmt.Fprintf(os.Stderr, "no check %q\n", id)
		os.Exit(2)
	}
	start := time.Now()
	c := NewCtx(p, seed, thorough, only)
	var once sync.Once
	write := func(errMsg string) {
		once.Do(func() {
			b, err := json.Marshal(c.result(start, errMsg))
			if err == nil {
				err = os.WriteFile(out, b, 0o644)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		})
	}
	done := make(chan struct{})
	go c.watch(done, func(errMsg string) { write(errMsg); os.Exit(0) })
	errMsg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(harnessAbort); ok {
					errMsg = h.msg
					return
				}
				errMsg = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
			}
		}()
		p.Run(c)
		for _, f := range extensions[id] {
			f(c)
		}
	}()
	close(done)
	write(errMsg)
}

// Scratch makes a directory that the supervisor removes.
func Scratch(name string) string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		panic(harnessAbort{"no scratch directory"})
	}
	d := filepath.Join(base, name)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(harnessAbort{err.Error()})
	}
	return d
}
