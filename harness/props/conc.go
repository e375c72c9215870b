package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
	"github.com/flowchartsman/aql/sampler"
)

// par runs n goroutines from a common start; each returns "" or what it
// observed to be wrong. Panics count as wrong.
func par(t *fw.T, n int, f func(i int) string) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	bad := make([]string, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[i] = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			<-start
			bad[i] = f(i)
		}(i)
	}
	close(start)
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			t.Failf("%s", b)
		}
	}
}

// friendly is the name of a condition in statistics.
func friendly(e *ast.ExprNode) string {
	var f, v []string
	for _, p := range e.Field {
		if strings.ContainsAny(p, ` ."`) {
			p = strconv.Quote(p)
		}
		f = append(f, p)
	}
	for _, r := range e.RVals {
		v = append(v, r.String())
	}
	op := string(e.Op)
	if op == "==" {
		op = ""
	}
	out := strings.Join(f, ".") + ":" + op + " "
	switch len(v) {
	case 0:
		return out
	case 1:
		return out + v[0]
	}
	return out + "(" + strings.Join(v, ",") + ")"
}

// checkStats compares statistics with the counts of the model.
func checkStats(s *jsonmatcher.MatchStats, n ast.Node, q *ref.Node, want map[*ref.Node]*ref.Stat) string {
	if s == nil {
		return "no statistics for " + q.Dump()
	}
	name := ""
	var an, bn ast.Node
	switch a := n.(type) {
	case *ast.AndNode:
		name, an, bn = "AND", a.Left, a.Right
	case *ast.OrNode:
		name, an, bn = "OR", a.Left, a.Right
	case *ast.NotNode:
		name, an = "NOT", a.Expr
	case *ast.ExprNode:
		name = friendly(a)
	}
	if s.NodeName != name {
		return fmt.Sprintf("statistics for %q, expected %q", s.NodeName, name)
	}
	w := want[q]
	if w == nil {
		w = &ref.Stat{}
	}
	if s.TimesChecked != w.Checked || s.TimesMatched != w.Matched {
		return fmt.Sprintf("%s was checked %d times and matched %d times, expected %d and %d", name, s.TimesChecked, s.TimesMatched, w.Checked, w.Matched)
	}
	kids := 0
	if an != nil {
		kids++
	}
	if bn != nil {
		kids++
	}
	if len(s.Children) != kids {
		return fmt.Sprintf("%s has %d children in the statistics, expected %d", name, len(s.Children), kids)
	}
	if an != nil {
		if b := checkStats(s.Children[0], an, q.L, want); b != "" {
			return b
		}
	}
	if bn != nil {
		return checkStats(s.Children[1], bn, q.R, want)
	}
	return ""
}

// flat lists the counts of a snapshot in order.
func flat(s *jsonmatcher.MatchStats, out []int64) []int64 {
	if s == nil {
		return out
	}
	out = append(out, s.TimesChecked, s.TimesMatched)
	for _, c := range s.Children {
		out = flat(c, out)
	}
	return out
}

func addStats(into, from map[*ref.Node]*ref.Stat, times int64) {
	for k, v := range from {
		s := into[k]
		if s == nil {
			s = &ref.Stat{}
			into[k] = s
		}
		s.Checked += v.Checked * times
		s.Matched += v.Matched * times
	}
}

// unshare copies a tree so that every node is its own.
func unshare(n *ref.Node) *ref.Node {
	if n == nil {
		return nil
	}
	c := *n
	c.L, c.R = unshare(n.L), unshare(n.R)
	return &c
}

func init() {
	fw.Register(&fw.Prop{
		ID:          "C16",
		Rule:        "goroutines sharing matchers, trees, formatters and messages, and parsing, building and sampling at the same time, in a build with the race detector; every answer is compared with the sequential one; non-trivial: a distinct workload",
		Run:         runConcurrent,
		Assumptions: []string{"only interleavings that occurred are covered; samplers are not shared between goroutines"},
	})
	fw.Register(&fw.Prop{
		ID:   "C17",
		Rule: "documents matched one after the other and by many goroutines at once, with statistics read in between and compared with the evaluations the documents imply; non-trivial: a distinct query with statistics compared after matches",
		Run:  runStats,
	})
}

func runConcurrent(c *fw.Ctx) {
	if !raceEnabled {
		c.Fatalf("the check was built without the race detector")
	}
	cfg := gen.Config{MaxNodes: 10, MaxList: 6}
	type work struct {
		text, dump, printed string
		node                ast.Node
		m                   *jsonmatcher.Matcher
		docs                [][]byte
		want                []bool
		msgs                []string
	}
	mk := func(t *fw.T, cfg gen.Config, docs int) *work {
		q := cfg.Query(t.Rand)
		w := &work{text: gen.Text(t.Rand, q, gen.TextStyle{Parens: 10}), dump: q.Dump()}
		t.Note("query: %s", clip(w.text))
		n, err := parse(t, w.text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		w.node, w.printed = n, n.String()
		w.m = matcher(t, w.text)
		for i := 0; i < docs; i++ {
			d := gen.Doc(t.Rand, q)
			w.docs = append(w.docs, []byte(d.Write(gen.DocStyle(t.Rand))))
			w.want = append(w.want, ref.Eval(q, d, nil))
		}
		pr := fmtmsg.NewTerminalFormatter(60).WithQuery(w.text)
		for _, m := range w.m.Messages() {
			w.msgs = append(w.msgs, m.String()+pr.Sprint(m))
		}
		return w
	}
	matchAll := func(w *work, off, rounds int) string {
		for r := 0; r < rounds; r++ {
			for k := range w.docs {
				j := (k + off) % len(w.docs)
				got, err := w.m.Match(w.docs[j])
				if err != nil || got != w.want[j] {
					return fmt.Sprintf("concurrent match gave %v (%v), expected %v\n  query: %s\n  document: %s", got, err, w.want[j], clip(w.text), clip(string(w.docs[j])))
				}
				if (k+off+r)%7 == 0 {
					runtime.Gosched()
				}
			}
		}
		return ""
	}
	// one matcher, all goroutines; one type of term at a time and all together
	n := len(gen.Types) + 2
	c.RunSeq("match", n*c.N(8, 60), func(t *fw.T) {
		i := mustIndex(t.Key) % n
		cc := cfg
		if i < len(gen.Types) {
			cc.Types = []ref.VType{gen.Types[i]}
		}
		w := mk(t, cc, 24)
		g := gen.Pick(t.Rand, 2, 4, 8, 16)
		par(t, g, func(i int) string { return matchAll(w, i*5, 6) })
		c.Count("concurrent_matches", int64(g*6*len(w.docs)))
		c.Bump(int64(g * 6 * len(w.docs)))
		t.Distinct("match" + w.text)
		t.Sample(map[string]any{"query": clip(w.text), "goroutines": g})
	})
	// parsing and building the same and different queries, with and without errors
	c.RunSeq("parse", c.N(60, 500), func(t *fw.T) {
		var ws []*work
		var bad, badErr []string
		for i := 0; i < 8; i++ {
			w := mk(t, cfg, 4)
			ws = append(ws, w)
			b := mutate(t, w.text)
			bad = append(bad, b)
			_, err := parse(t, b)
			badErr = append(badErr, fmt.Sprint(err))
		}
		g := gen.Pick(t.Rand, 4, 8, 16)
		par(t, g, func(i int) string {
			for k := range ws {
				w := ws[(k+i)%len(ws)]
				n, err := parser.ParseQuery(w.text)
				if err != nil {
					return fmt.Sprintf("valid query rejected concurrently: %v\n  %s", err, clip(w.text))
				}
				if d, err := fromAST(n); err != nil || d.Dump() != w.dump || n.String() != w.printed {
					return fmt.Sprintf("concurrent parse gave another tree: %s\n  query: %s", clip(n.String()), clip(w.text))
				}
				if _, err := parser.ParseQuery(bad[(k+i)%len(ws)]); fmt.Sprint(err) != badErr[(k+i)%len(ws)] {
					return fmt.Sprintf("concurrent parse gave error %v, expected %s\n  query: %s", err, badErr[(k+i)%len(ws)], bad[(k+i)%len(ws)])
				}
				m, err := jsonmatcher.NewMatcher(w.text)
				if err != nil {
					return err.Error()
				}
				v := *w
				v.m = m
				if b := matchAll(&v, i, 1); b != "" {
					return b
				}
			}
			return ""
		})
		c.Count("concurrent_parses", int64(g*len(ws)*3))
		c.Bump(int64(g * len(ws) * 3))
		t.Distinct("parse" + t.Key + ws[0].text)
	})
	// everything at once, on shared objects
	c.RunSeq("mixed", c.N(60, 500), func(t *fw.T) {
		var ws []*work
		for i := 0; i < 4; i++ {
			ws = append(ws, mk(t, cfg, 12))
		}
		f := fmtmsg.NewTerminalFormatter(60)
		hf, err := fmtmsg.NewFormatter(htmlTmpl, true, 40)
		if err != nil {
			c.Fatalf("%v", err)
		}
		docs := [][]byte{}
		for i := 0; i < 10; i++ {
			d := gen.Doc(t.Rand, gen.Config{MaxNodes: 4}.Query(t.Rand))
			docs = append(docs, []byte(d.Text()))
		}
		sample := func() []string {
			s := sampler.New(-1)
			for _, d := range docs {
				s.Sample(d)
			}
			k := append(s.KeysAtThreshold(20), s.Keys()...)
			sort.Strings(k)
			return k
		}
		keys := strings.Join(sample(), "\n")
		var hpr []string
		for _, w := range ws {
			s := ""
			for _, m := range w.m.Messages() {
				s += hf.WithQuery(w.text).Sprint(m)
			}
			hpr = append(hpr, s)
		}
		pr := make([]*fmtmsg.Printer, len(ws))
		for i, w := range ws {
			pr[i] = f.WithQuery(w.text)
		}
		g := 10
		par(t, g, func(i int) string {
			for k := 0; k < 4; k++ {
				wi := (i + k) % len(ws)
				w := ws[wi]
				switch (i + k) % 5 {
				case 0, 1:
					if b := matchAll(w, i, 2); b != "" {
						return b
					}
				case 2:
					prev := flat(w.m.Stats(), nil)
					for j := 0; j < 10; j++ {
						cur := flat(w.m.Stats(), nil)
						if len(cur) != len(prev) {
							return "the statistics changed their shape"
						}
						for x := range cur {
							if cur[x] < prev[x] {
								return "a statistic decreased"
							}
						}
						prev = cur
					}
					if _, err := json.Marshal(w.m.Stats()); err != nil {
						return err.Error()
					}
				case 3:
					var got []string
					h := ""
					for _, m := range w.m.Messages() {
						got = append(got, m.String()+pr[wi].Sprint(m))
						h += hf.WithQuery(w.m.Query()).Sprint(m)
					}
					if strings.Join(got, "\x00") != strings.Join(w.msgs, "\x00") || h != hpr[wi] {
						return fmt.Sprintf("messages printed concurrently differ:\n  %q\n  %q", got, w.msgs)
					}
					if w.node.String() != w.printed || w.m.Query() != w.text {
						return "a shared tree or query changed"
					}
				case 4:
					if k := strings.Join(sample(), "\n"); k != keys {
						return fmt.Sprintf("sampling concurrently gave %q, expected %q", k, keys)
					}
				}
			}
			return ""
		})
		c.Count("mixed_steps", int64(g*4))
		c.Bump(int64(g * 4))
		t.Distinct("mixed" + t.Key + ws[0].text)
	})
	// everything that fails, at once, with good uses in between
	c.RunSeq("failing", c.N(60, 500), func(t *fw.T) {
		w := mk(t, cfg, 8)
		bad := []string{}
		for i := 0; i < 12; i++ {
			bad = append(bad, oneOf(t, brokenDocs...))
			if i%2 == 0 {
				bad[i] = mutate(t, string(w.docs[i%len(w.docs)]))
			}
		}
		queries := []string{w.text + " AND", "(" + w.text, `a:(1,1)`, `a:><(2,1)`, `a:/(/`, "", `a:("x",1.2.3.4)`, mutate(t, w.text)}
		bf, err := fmtmsg.NewFormatter("{{.Message}} {{.Nothing}}", false, 30)
		if err != nil {
			t.Failf("a valid template was rejected: %v", err)
		}
		step := func(k int) string {
			d := bad[k%len(bad)]
			ok, err := w.m.Match([]byte(d))
			out := fmt.Sprint(ok, err)
			s := sampler.New(k % 4)
			out += fmt.Sprint(s.Sample([]byte(d)), s.Scanned(), len(s.Keys()))
			q := queries[k%len(queries)]
			_, err = jsonmatcher.NewMatcher(q)
			out += fmt.Sprint(err)
			var pe *parser.ParseError
			if errors.As(err, &pe) {
				out += fmtmsg.NewTerminalFormatter(40).WithQuery(q).Sprint(pe) + fmt.Sprint(pe.Pos(), pe.Expected)
			}
			_, err = parser.ParseQueryReader(&chunked{s: w.text, next: func() int { return 3 }, failAt: k % len(w.text), err: io.ErrClosedPipe})
			out += fmt.Sprint(err)
			_, err = parser.ParseQuery(w.text, parser.Visitors(parser.VisitorFunc(func(ast.Node) error { return io.ErrNoProgress })))
			out += fmt.Sprint(err)
			_, err = fmtmsg.NewFormatter("{{if}}", k%2 == 0, 30)
			out += fmt.Sprint(err)
			func() {
				defer func() { out += fmt.Sprint(recover() != nil) }()
				out += bf.WithQuery(w.text).Sprint(customMsg{ast.Pos{Line: 1, Col: 1, Len: 1}, "m"})
			}()
			for _, lit := range []string{"", "x", "99999999999999999999", "1e999"} {
				_, e1 := ast.NewIntVal([]byte(lit), ast.NoPosition())
				_, e2 := ast.NewTimeVal([]byte(lit), ast.NoPosition())
				_, e3 := ast.NewNetVal([]byte(lit), ast.NoPosition())
				out += fmt.Sprint(e1, e2, e3)
			}
			return out
		}
		const n = 24
		var want [n]string
		for k := range want {
			t.Call("calls that fail", func() { want[k] = step(k) })
		}
		g := gen.Pick(t.Rand, 4, 8)
		par(t, g, func(i int) string {
			for k := 0; k < n; k++ {
				j := (k*5 + i) % n
				if got := step(j); got != want[j] {
					return fmt.Sprintf("calls that fail gave, concurrently, %q, expected %q", clip(got), clip(want[j]))
				}
				if k%6 == i%6 {
					if b := matchAll(w, i, 1); b != "" {
						return b
					}
				}
			}
			return ""
		})
		c.Count("concurrent_failures", int64(g*n*6))
		c.Bump(int64(g * n))
		t.Distinct("failing" + t.Key + w.text)
	})
	c.Require("concurrent_failures", 20000)
	// the first uses of fresh objects happen at once
	c.RunSeq("first", c.N(150, 1200), func(t *fw.T) {
		w := mk(t, cfg, 3)
		w.m = matcher(t, w.text)
		n, _ := parse(t, w.text)
		f := fmtmsg.NewTerminalFormatter(30)
		par(t, 8, func(i int) string {
			if i%4 == 3 {
				if n.String() != w.printed {
					return "a fresh tree printed differently"
				}
				for k, m := range w.m.Messages() {
					_ = f.WithQuery(w.text).Sprint(m)
					if !strings.HasPrefix(w.msgs[k], m.String()) {
						return "a message changed"
					}
				}
				flat(w.m.Stats(), nil)
				return ""
			}
			return matchAll(w, i, 1)
		})
		c.Count("first_uses", 8)
		c.Bump(8)
		t.Distinct("first" + w.text)
	})
	c.Require("concurrent_matches", 20000)
	c.Require("concurrent_parses", 3000)
	c.Require("mixed_steps", 1000)
}

const htmlTmpl = `{{.Type}}|{{.Message}}|{{.QueryPre}}<b>{{.QueryHL}}</b>{{.QueryPost}}`

func runStats(c *fw.Ctx) {
	prep := func(t *fw.T, cfg gen.Config) (*ref.Node, ast.Node, *jsonmatcher.Matcher, string) {
		q := unshare(cfg.Query(t.Rand))
		text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: 10})
		t.Note("query: %s", clip(text))
		n, err := parse(t, text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		return q, n, matcher(t, text), text
	}
	c.Run("sequential", c.N(2500, 25000), func(t *fw.T) {
		cfg := gen.Config{MaxNodes: 30, MaxList: 5}
		if chance(t, 50) {
			cfg.Paths = [][]string{{"a"}, {"b"}, {"a", "b"}}
			cfg.Types = []ref.VType{ref.VInt, ref.VBool}
		}
		q, n, m, text := prep(t, cfg)
		want := map[*ref.Node]*ref.Stat{}
		if b := checkStats(m.Stats(), n, q, want); b != "" {
			t.Failf("before any match: %s", b)
		}
		var old *jsonmatcher.MatchStats
		var oldFlat []int64
		docs := 1 + t.Intn(12)
		for i := 0; i < docs; i++ {
			if chance(t, 15) {
				d := oneOf(t, brokenDocs...)
				t.Call("matching", func() { m.Match([]byte(d)) })
				t.Count("failing_documents")
			} else {
				d := gen.Doc(t.Rand, q)
				s := d.Text()
				w := ref.Eval(q, d, want)
				if got := match(t, m, []byte(s)); got != w {
					t.Failf("match gave %v, expected %v\n  document: %s", got, w, clip(s))
				}
			}
			if b := checkStats(m.Stats(), n, q, want); b != "" {
				t.Failf("after %d documents: %s", i+1, b)
			}
			t.Eval()
			if i == 0 {
				old = m.Stats()
				oldFlat = flat(old, nil)
			}
		}
		if fmt.Sprint(flat(old, nil)) != fmt.Sprint(oldFlat) {
			t.Failf("statistics taken earlier changed afterwards")
		}
		t.Distinct(text)
		t.Sample(map[string]any{"query": clip(text), "documents": docs, "counts": flat(m.Stats(), nil)})
	})
	c.Run("tall", c.N(80, 600), func(t *fw.T) {
		// queries of many levels
		depth := gen.Pick(t.Rand, 40, 110, 270, 600, 1100, 2500)
		leaf := func() *ref.Node {
			return gen.Config{Paths: [][]string{{"a"}, {"b"}, {"a", "b"}}, Types: []ref.VType{ref.VInt, ref.VBool}, MaxList: 2}.Expr(t.Rand)
		}
		q := leaf()
		for i := 0; i < depth; i++ {
			switch t.Intn(6) {
			case 0:
				q = ref.And(q, leaf())
			case 1:
				q = ref.And(leaf(), q)
			case 2:
				q = ref.Or(q, leaf())
			case 3:
				q = ref.Or(leaf(), q)
			default:
				q = ref.Not(q)
			}
		}
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		t.Note("query of %d levels: %s", depth, clip(text))
		n, err := parse(t, text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		m := matcher(t, text)
		want := map[*ref.Node]*ref.Stat{}
		for i := 0; i < 6; i++ {
			d := gen.Doc(t.Rand, q)
			if w := ref.Eval(q, d, want); match(t, m, []byte(d.Text())) != w {
				t.Failf("the answer for %s is not %v", clip(d.Text()), w)
			}
			if b := checkStats(m.Stats(), n, q, want); b != "" {
				t.Failf("after %d documents: %s", i+1, clip(b))
			}
			t.Eval()
		}
		if depth > 500 {
			t.Count("tall_queries")
		}
		t.Distinct(text)
	})
	c.Require("tall_queries", 10)
	c.Run("many", c.N(40, 300), func(t *fw.T) {
		// long histories
		q, n, m, text := prep(t, gen.Config{MaxNodes: 8, MaxList: 4})
		want := map[*ref.Node]*ref.Stat{}
		var docs []*ref.J
		var bytes [][]byte
		for i := 0; i < 10; i++ {
			d := gen.Doc(t.Rand, q)
			docs = append(docs, d)
			bytes = append(bytes, []byte(d.Text()))
		}
		for i := 0; i < 1500; i++ {
			k := t.Intn(len(docs))
			ref.Eval(q, docs[k], want)
			match(t, m, bytes[k])
		}
		if b := checkStats(m.Stats(), n, q, want); b != "" {
			t.Failf("after 1500 documents: %s", b)
		}
		t.Eval()
		t.Count("long_histories")
		t.Distinct("many" + text)
	})
	c.RunSeq("concurrent", c.N(120, 1000), func(t *fw.T) {
		q, n, m, text := prep(t, gen.Config{MaxNodes: 12, MaxList: 4})
		want := map[*ref.Node]*ref.Stat{}
		g, rounds := gen.Pick(t.Rand, 2, 4, 8, 16), 3
		var docs [][]byte
		for i := 0; i < 12; i++ {
			d := gen.Doc(t.Rand, q)
			one := map[*ref.Node]*ref.Stat{}
			ref.Eval(q, d, one)
			addStats(want, one, int64(g*rounds))
			docs = append(docs, []byte(d.Text()))
		}
		var left atomic.Int64
		left.Store(int64(g))
		var snaps atomic.Int64
		par(t, g+2, func(i int) string {
			if i >= g {
				prev := flat(m.Stats(), nil)
				for left.Load() > 0 {
					cur := flat(m.Stats(), nil)
					for x := range cur {
						if cur[x] < prev[x] {
							return "a statistic decreased while matching"
						}
					}
					prev = cur
					snaps.Add(1)
					runtime.Gosched()
				}
				return ""
			}
			defer left.Add(-1)
			for r := 0; r < rounds; r++ {
				for k := range docs {
					if _, err := m.Match(docs[(k+i)%len(docs)]); err != nil {
						return err.Error()
					}
				}
			}
			return ""
		})
		if b := checkStats(m.Stats(), n, q, want); b != "" {
			t.Failf("after %d goroutines matched: %s", g, b)
		}
		t.Eval()
		c.Count("snapshots", snaps.Load())
		t.Count("concurrent_histories")
		t.Distinct("concurrent" + text)
	})
	c.Require("failing_documents", 500)
	c.Require("snapshots", 500)
}
