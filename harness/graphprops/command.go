package graphprops

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/aqlgraph"
	"github.com/flowchartsman/aql/parser"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C32",
		Rule: "the built command run as a process on random queries and output names, writable or not; status, messages and every file left behind are compared; non-trivial: a distinct (query, output name) pair drawn",
		Run:  runCommand,
	})
}

func runCommand(c *fw.Ctx) {
	prog := fw.Built(c, "aqlgraph")
	// the drawings to expect
	library := func(t *fw.T, q, format string) string {
		dir := fw.Scratch("library")
		f := filepath.Join(dir, "expected."+format)
		g, err := aqlgraph.QueryGraph(q)
		if err == nil && format == "svg" {
			err = g.OutputSVG(f)
		} else if err == nil {
			err = g.OutputDOT(f)
		}
		if err != nil {
			t.Failf("an accepted query gave no graph: %v", err)
		}
		b, err := os.ReadFile(f)
		if err != nil {
			t.Failf("no output: %v", err)
		}
		return string(b)
	}
	query := func(t *fw.T) string {
		if t.Intn(40) == 0 { // a long one
			e := gen.Config{MaxList: 1500}.Expr(t.Rand)
			if q := gen.Text(t.Rand, e, gen.TextStyle{}); len(e.Vals) > 50 && !strings.Contains(q, "\x00") && len(q) < 100000 {
				t.Count("long")
				return q
			}
		}
		for {
			q := gen.Text(t.Rand, gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 3, 8), MaxList: 4}.Query(t.Rand), gen.TextStyle{Stars: true})
			if !strings.Contains(q, "\x00") && len(q) < 50000 {
				return q
			}
		}
	}
	// decoys are files that are there before
	decoys := func(t *fw.T, dir string) {
		os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
		os.MkdirAll(filepath.Join(dir, "d.svg"), 0o755)
		for _, n := range []string{"old.svg", "old.dot", "sub/old.svg", "q.png", "old", "x.aql"} {
			fw.Write(c, filepath.Join(dir, n), "old contents "+strings.Repeat("x", t.Intn(2)*100000))
		}
		if t.Intn(3) == 0 {
			fw.Write(c, filepath.Join(dir, "query_graph.svg"), "old contents")
		}
	}
	failed := func(t *fw.T, o fw.Outcome, before, after map[string]string, why string) {
		t.Eval()
		if o.Code == 0 || strings.TrimSpace(o.Stderr) == "" {
			t.Failf("%s: status %d, messages %q", why, o.Code, o.Stderr)
		}
		if strings.Contains(o.Stderr, "goroutine ") {
			t.Failf("%s: the command crashed: %s", why, o.Stderr)
		}
		if d := differ(before, after); d != "" {
			t.Failf("%s, but %s", why, d)
		}
	}
	c.RunSeq("draw", c.N(1000, 6000), func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		decoys(t, dir)
		q := query(t)
		name := pick(t, "", "x.svg", "x.dot", "X.SVG", "X.DOT", "x.Svg", "x.dOt", "sub/x.svg", "sub/x.dot", "a.dot.svg", "a.svg.dot", ".svg", ".dot", "old.svg", "old.dot", "my file.svg", "é大.dot", "-x.svg", "sub/../y.dot", "./z.svg", "%s.svg")
		args := []string{q}
		out := "query_graph.svg"
		if name != "" {
			args = append(args, name)
			out = filepath.Clean(name)
			if t.Intn(3) == 0 {
				args[1] = filepath.Join(dir, name)
			}
		}
		format := strings.ToLower(filepath.Ext(out))[1:]
		t.Note("arguments: %q", args)
		before := fw.Listing(c, dir)
		o := fw.Process(c, dir, prog, args...)
		t.Eval()
		if o.Code != 0 {
			t.Failf("status %d, %s", o.Code, o.Stderr)
		}
		after := fw.Listing(c, dir)
		if want := library(t, q, format); after[out] != "file "+want {
			t.Failf("%s holds %.300q, expected the graph in %s %.300q", out, after[out], format, want)
		}
		delete(before, out)
		delete(after, out)
		if d := differ(before, after); d != "" {
			t.Failf("%s", d)
		}
		t.Count("drawn " + format)
		t.Distinct(q + "\x00" + name)
		t.Sample(map[string]any{"query": q, "output": out})
	})
	c.RunSeq("rejected", c.N(500, 4000), func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		decoys(t, dir)
		q := query(t)
		if i := t.Intn(len(q)); true {
			q = q[:i] + pick(t, "", "(", ")", `"`, ":", " ", "\n", "~", ">", "x y") + q[min(len(q), i+t.Intn(3)):]
		}
		if t.Intn(10) == 0 {
			q = pick(t, "", " ", "a", "a:", "old.svg", "x.aql", "a:/(/", "a:<true")
		}
		if _, err := ref.Parse(q); err == nil {
			return
		}
		_, perr := parser.ParseQuery(q)
		args := []string{q}
		if n := pick(t, "", "x.svg", "x.dot", "old.svg", "old.dot", "sub/x.svg", "q.png", "missing/x.svg"); n != "" {
			args = append(args, n)
		}
		t.Note("arguments: %q", args)
		before := fw.Listing(c, dir)
		o := fw.Process(c, dir, prog, args...)
		failed(t, o, before, fw.Listing(c, dir), "the query is rejected")
		if !strings.Contains(o.Stderr, fmt.Sprint(perr)) {
			t.Failf("the parser says %v, the command says %q", perr, o.Stderr)
		}
		t.Count("queries_rejected")
	})
	c.RunSeq("output", c.N(300, 2000), func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		decoys(t, dir)
		name := pick(t, "x.png", "x", "x.svgz", "svg", "x.", "x.dot.txt", ".", "", "q.png", "old", "x.svg ", "x.svg.", "missing/x.svg", "missing/x.dot", "d.svg", "old/x.svg", "sub", "x.svg/", "x.dot/", strings.Repeat("n", 300)+".svg")
		args := []string{query(t), name}
		t.Note("arguments: %q", args)
		before := fw.Listing(c, dir)
		o := fw.Process(c, dir, prog, args...)
		failed(t, o, before, fw.Listing(c, dir), "the output name is unusable")
		t.Count("names_rejected")
	})
	if _, err := os.Stat("/dev/full"); err == nil {
		c.RunSeq("full", c.N(20, 60), func(t *fw.T) {
			dir, done := fw.CaseDir(t)
			defer done()
			name := pick(t, "full.svg", "full.dot")
			if err := os.Symlink("/dev/full", filepath.Join(dir, name)); err != nil {
				c.Fatalf("%v", err)
			}
			args := []string{query(t), name}
			t.Note("arguments: %q, nothing can be written", args)
			o := fw.Process(c, dir, prog, args...)
			t.Eval()
			if o.Code == 0 || strings.TrimSpace(o.Stderr) == "" {
				t.Failf("nothing can be written, but status %d, messages %q", o.Code, o.Stderr)
			}
			t.Count("full_outputs")
		})
	}
	c.RunSeq("arguments", 1, func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		o := fw.Process(c, dir, prog)
		failed(t, o, map[string]string{".": "other"}, fw.Listing(c, dir), "there is no query")
	})
	c.Require("drawn svg", 100)
	c.Require("drawn dot", 100)
	c.Require("queries_rejected", 50)
	c.Require("names_rejected", 100)
}

// differ says how two directories differ.
func differ(a, b map[string]string) string {
	for n, x := range b {
		if y, ok := a[n]; !ok {
			return fmt.Sprintf("%s was left behind", n)
		} else if x != y {
			return fmt.Sprintf("%s was changed to %.200q", n, x)
		}
	}
	for n := range a {
		if _, ok := b[n]; !ok {
			return fmt.Sprintf("%s was removed", n)
		}
	}
	return ""
}
