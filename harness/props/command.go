package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func init() {
	fw.Register(&fw.Prop{
		ID:          "C28",
		Rule:        "the built command run as a process on random queries, given directly or in files, and documents, and on unusable arguments; result, statistics, advisories and exit status are compared with the models; non-trivial: a distinct (query, document) pair",
		Run:         runTestCommand,
		Assumptions: []string{"queries given as an argument have at most a few kilobytes, those in files up to 150 KB; documents of up to 20 MB"},
	})
}

func argument(s string) bool { return !strings.Contains(s, "\x00") && len(s) < 100000 }

func runTestCommand(c *fw.Ctx) {
	prog := fw.Built(c, "aqltest")
	piped := fw.ProcessIn(c, fw.Scratch("pipe"), "x", "/bin/cat", "/dev/stdin").Stdout == "x"
	// give prepares the query as an argument
	give := func(t *fw.T, dir, q string) string {
		if argument(q) && !strings.HasSuffix(q, ".aql") && chance(t, 60) {
			return q
		}
		name := oneOf(t, "q.aql", "my query.aql", "é大.aql", "-q.aql", "a:1.aql", ".aql", "x.json.aql")
		fw.Write(c, filepath.Join(dir, name), q)
		if chance(t, 30) {
			return filepath.Join(dir, name)
		}
		t.Count("query_files")
		return name
	}
	// document writes the document
	document := func(t *fw.T, dir, text string) string {
		name := oneOf(t, "doc.json", "doc", "my doc.json", "é.json", "-doc.json", "doc.aqljson", "sub/doc.json")
		os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
		fw.Write(c, filepath.Join(dir, name), text)
		if chance(t, 30) {
			return filepath.Join(dir, name)
		}
		return name
	}
	failed := func(t *fw.T, o fw.Outcome, why string) {
		t.Eval()
		if o.Code == 0 || o.Stdout != "" || strings.TrimSpace(o.Stderr) == "" {
			t.Failf("%s: status %d, output %q, messages %q", why, o.Code, o.Stdout, o.Stderr)
		}
		if strings.Contains(o.Stderr, "goroutine ") {
			t.Failf("%s: the command crashed: %s", why, o.Stderr)
		}
	}
	run := func(t *fw.T, text string, doc *ref.J) {
		dir, done := fw.CaseDir(t)
		defer done()
		q, err := ref.Parse(text)
		if err != nil {
			c.Fatalf("generated query %q: %v", clip(text), err)
		}
		js := doc.Write(gen.DocStyle(t.Rand))
		qa, da := give(t, dir, text), document(t, dir, js)
		t.Note("arguments: %q %q", clip(qa), da)
		t.Note("query: %q", clip(text))
		t.Note("document: %s", clip(js))
		before := fw.Listing(c, dir)
		o := fw.Outcome{}
		if piped && chance(t, 10) {
			t.Note("the document comes from a pipe")
			o = fw.ProcessIn(c, dir, js, prog, qa, "/dev/stdin")
			t.Count("piped_documents")
		} else {
			o = fw.Process(c, dir, prog, qa, da)
		}
		t.Eval()
		if after := fw.Listing(c, dir); fmt.Sprint(after) != fmt.Sprint(before) {
			t.Failf("the command changed files")
		}
		stats := map[*ref.Node]*ref.Stat{}
		want := ref.Eval(q, doc, stats)
		if o.Code != 0 {
			t.Failf("status %d, messages %q", o.Code, clip(o.Stderr))
		}
		result, rest, _ := strings.Cut(o.Stdout, "\n")
		if result != fmt.Sprint(want) {
			t.Failf("the command says %q, expected %v", result, want)
		}
		t.Count("result " + result)
		dec := json.NewDecoder(strings.NewReader(rest))
		var s *jsonmatcher.MatchStats
		if err := dec.Decode(&s); err != nil {
			t.Failf("the statistics %q: %v", clip(rest), err)
		}
		if more := strings.TrimSpace(rest[dec.InputOffset():]); more != "" {
			t.Failf("%q after the statistics", more)
		}
		n, err := parse(t, text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		if b := checkStats(s, n, q, stats); b != "" {
			t.Failf("%s", b)
		}
		// the advisories in order, each with its mark
		at := 0
		msgs := matcher(t, text).Messages()
		for i, m := range msgs {
			k := strings.Index(o.Stderr[at:], m.Message())
			if k < 0 {
				t.Failf("advisory %d, %q, is missing in %q", i, m.Message(), clip(o.Stderr))
			}
			at += k + len(m.Message())
			t.Count("advisories")
		}
		if len(msgs) == 0 && o.Stderr != "" {
			t.Failf("no advisories, but %q", o.Stderr)
		}
		if got := strings.Count(o.Stderr, "WARNING: ") + strings.Count(o.Stderr, "INFO: "); got != len(msgs) && !strings.Contains(text, ": ") {
			t.Failf("%d advisories printed, expected %d", got, len(msgs))
		}
		t.Distinct(text + js)
		t.Sample(map[string]any{"query": clip(text), "document": clip(js), "printed": clip(o.Stdout), "advisories": len(msgs)})
	}
	c.Run("match", c.N(4000, 25000), func(t *fw.T) {
		cfg := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 3, 8), MaxList: 4}
		text := gen.Text(t.Rand, cfg.Query(t.Rand), gen.TextStyle{Stars: true, Parens: 10})
		if chance(t, 25) {
			text = "x:~/.*" + oneOf(t, "foo", "é", "(a)") + "/" + gap(t) + "AND" + gap(t) + "d:2020-01-01T00:00:00Z" + gap(t) + "OR" + gap(t) + text
		}
		q, err := ref.Parse(text)
		if err != nil {
			c.Fatalf("generated query %q: %v", text, err)
		}
		run(t, text, gen.Doc(t.Rand, q))
	})
	// large files
	c.Run("large", c.N(60, 300), func(t *fw.T) {
		cfg := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 3), MaxList: 4}
		q := cfg.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		if chance(t, 30) {
			text = longQuery(t, around(t, 150000))
			var err error
			if q, err = ref.Parse(text); err != nil {
				c.Fatalf("generated query: %v", err)
			}
			if n := len(matcher(t, text).Messages()); n*len(text) > 20<<20 {
				return // each advisory shows all of the query
			}
			if len(q.Exprs()) > 2000 {
				return // beyond the finding below
			}
			t.Count("large_queries")
		}
		doc := gen.Doc(t.Rand, q)
		pad := ref.Str(strings.Repeat(oneOf(t, "x", "é", " y"), around(t, 3000000)/2))
		if doc.Kind == ref.JObj && chance(t, 80) {
			doc.Keys = append([]string{"padding qkz"}, doc.Keys...)
			doc.Vals = append([]*ref.J{pad}, doc.Vals...)
		} else {
			doc = ref.Arr(pad, doc)
		}
		run(t, text, doc)
		t.Count("large_documents")
	})
	// the finding
	c.RunSeq("deep", 1, func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		const conditions = 6000
		text := strings.Repeat("a:1 AND ", conditions-1) + "a:1"
		fw.Write(c, filepath.Join(dir, "q.aql"), text)
		fw.Write(c, filepath.Join(dir, "d"), `{"a":1}`)
		t.Note("query: a:1 AND a:1 AND ..., %d conditions; document: {\"a\":1}", conditions)
		o := fw.Process(c, dir, prog, "q.aql", "d")
		t.Eval()
		if o.Code == 0 && strings.HasPrefix(o.Stdout, "true\n") {
			return
		}
		if strings.HasPrefix(o.Stdout, "true\n") && strings.Contains(o.Stderr, "exceeded max depth") && c.Known("6000 conditions") {
			c.Finding(fmt.Sprintf("the command ends with status %d and %q instead of statistics for %d conditions joined by AND", o.Code, strings.TrimSpace(o.Stderr), conditions))
			return
		}
		t.Failf("status %d, output %q, messages %q", o.Code, clip(o.Stdout), clip(o.Stderr))
	})
	c.Run("query", c.N(2000, 12000), func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		text := mutate(t, gen.Text(t.Rand, gen.Config{MaxNodes: 4, MaxList: 4}.Query(t.Rand), gen.TextStyle{}))
		if chance(t, 10) {
			text = oneOf(t, "", " ", "\n", "(", "a", "a:", "a:(", "\xff", "a:99999999999999999999", "a:/(/", "a:<true")
		}
		da := document(t, dir, oneOf(t, `{"a":1}`, `{}`, `[]`, "{", ""))
		_, perr := jsonmatcher.NewMatcher(text)
		if perr == nil {
			return
		}
		qa := give(t, dir, text)
		t.Note("arguments: %q %q, query: %q", clip(qa), da, clip(text))
		o := fw.Process(c, dir, prog, qa, da)
		failed(t, o, "the query is rejected")
		var m interface{ Message() string }
		if !errors.As(perr, &m) || !strings.Contains(o.Stderr, m.Message()) {
			t.Failf("the library says %v, the command says %q", perr, o.Stderr)
		}
		t.Count("queries_rejected")
	})
	c.Run("broken", c.N(1000, 6000), func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		js := gen.Any(t.Rand, 3).Text()
		if k := t.Intn(100); k < 40 && len(js) > 1 {
			js = js[:t.Intn(len(js))]
		} else if k < 55 { // a document with something before it
			js = oneOf(t, "\ufeff", "\ufeff", "x", ",", "]", "\x00", "\v", "\f", "\u00a0", "\u2028", "//\n", "/**/", "#\n", "1 ", "\x1e", ")]}'\n", "---\n") + js
		} else if k < 70 { // or after it
			js += oneOf(t, "\ufeff", "{}", ",", "}", "]", " x", "\x00", "\x1a", " null", "//", "\n{}\n", ";", "\u00a0", "...")
		} else {
			js = oneOf(t, brokenDocs...)
		}
		if ref.ValidJSON(js) {
			return
		}
		qa := give(t, dir, oneOf(t, "a:1", "a:1 OR b:2", "!a:exists", "!a:1 AND !b:null"))
		da := document(t, dir, js)
		t.Note("arguments: %q %q, document: %q", qa, da, js)
		failed(t, fw.Process(c, dir, prog, qa, da), "the document is no JSON")
		t.Count("documents_rejected")
	})
	c.Run("arguments", c.N(500, 3000), func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		qa, da := give(t, dir, "a:1"), document(t, dir, `{"a":1}`)
		os.Mkdir(filepath.Join(dir, "d.aql"), 0o755)
		os.Mkdir(filepath.Join(dir, "e"), 0o755)
		var args []string
		switch t.Intn(7) {
		case 0:
		case 1:
			args = []string{oneOf(t, qa, da)}
		case 2:
			args = []string{qa, da, oneOf(t, qa, da, "", "x")}
		case 3:
			args = []string{qa, oneOf(t, "missing.json", "", "e", "doc.json/x", "missing/doc.json", ".", strings.Repeat("n", 300))}
		case 4:
			args = []string{oneOf(t, "missing.aql", "d.aql", "q.aql/x.aql", strings.Repeat("n", 300)+".aql"), da}
		case 5:
			args = []string{"", da}
		case 6:
			args = []string{da, qa} // swapped
			if strings.HasSuffix(da, ".aql") {
				return
			}
		}
		t.Note("arguments: %q", args)
		before := fw.Listing(c, dir)
		failed(t, fw.Process(c, dir, prog, args...), "the arguments are unusable")
		if fmt.Sprint(fw.Listing(c, dir)) != fmt.Sprint(before) {
			t.Failf("the command changed files")
		}
		t.Count("arguments_rejected")
	})
	c.Require("large_documents", 20)
	c.Require("large_queries", 5)
	c.Require("result true", 100)
	c.Require("result false", 100)
	c.Require("advisories", 100)
	c.Require("query_files", 50)
	c.Require("queries_rejected", 100)
	c.Require("documents_rejected", 100)
	c.Require("arguments_rejected", 50)
}
