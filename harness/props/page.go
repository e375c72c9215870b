package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf16"

	"aqlverif/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C37",
		Rule: "the page of the playground, with its scripts and its module, run over a model of a browser on sequences of inputs, also with markup in them; what it shows is compared with what the module says; non-trivial: a distinct input with its predecessor",
		Run:  runPage,
		Assumptions: []string{
			"the browser and the two libraries the page loads are modelled; styles are not",
		},
	})
}

type pageView struct {
	Says *struct {
		AST      string
		Messages []pageMsg
	}
	Shows struct {
		Output                   string
		OutputPlain, OutputShown bool
		Messages                 []struct {
			Text, Skeleton string
			Shown          bool
		}
		Loose        int
		Ranges       [][2]int
		Highlighters int
		Alerts       int
		Errors       []string
	}
}

// markups are texts that mean something to a browser.
var markups = []string{"<b>x</b>", "<img src=x onerror=alert(1)>", "<script>alert(1)</script>", "&lt;", "&amp;", "</div>", "<!--", `"><i>`, "' x='", "<", ">", "&", "a<b", "<svg/onload=alert(1)>", "</alerttitle>", "${1}", "`", "$&", "\\n", "<é>", "<大>"}

// pageInput is something typed, with markup where messages repeat it.
func pageInput(t *fw.T) string {
	m := func() string { return markups[t.Intn(len(markups))] }
	q := func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`) }
	re := func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `/`, `\/`) }
	switch t.Intn(10) {
	case 0:
		return ""
	case 1: // a hint naming the field
		return `"` + q(m()) + `":/one|two/`
	case 2: // an advisory repeating the expression
		return "a:/(?i)é" + re(strings.ReplaceAll(m(), "$", "")) + "/"
	case 3:
		return "a:/.*" + re(strings.NewReplacer("$", "", "(", "", ")", "").Replace(m())) + ".*/"
	case 4: // an expression that is rejected
		return "a:/" + re(m()) + "(/"
	case 5:
		return "a:(\"" + q(m()) + "\",\"" + q(m()) + "\")"
	case 6:
		s := q(m())
		return `a:("` + s + `","` + s + `")`
	case 7:
		return m()
	case 8:
		return `x:1 AND "` + q(m()) + `":<"` + q(m()) + `"`
	}
	return string(utf16.Decode(pageQuery(t)))
}

func runPage(c *fw.Ctx) {
	module := fw.Built(c, "aqlparse")
	host := filepath.Join(fw.Root, "harness", "js", "page.js")
	execJS := filepath.Join(os.Getenv("VERIF_GOROOT"), "lib", "wasm", "wasm_exec.js")
	c.Run("session", c.N(24, 200), func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		// one plain message of each kind shows what a message looks like
		states := []string{"a:1", "a:/(x)/", "a:2020-01-01T00:00:00Z", "a:("}
		if chance(t, 50) {
			states = append([]string{pageInput(t)}, states...)
		}
		calibrated := len(states)
		for len(states) < 300 {
			switch {
			case chance(t, 10):
				states = append(states, states[t.Intn(len(states))])
			case chance(t, 4): // with many messages
				var es []string
				for n := 2 + t.Intn(40); n > 0; n-- {
					es = append(es, oneOf(t, "a:/.*x/", "b:/(é|😀)/", "a:~/x/", "d:2020-01-01T00:00:00Z", "c:1", `"<b>":/one|two/`))
				}
				states = append(states, strings.Join(es, oneOf(t, " AND ", " OR ", "\nAND\n")))
				t.Count("many_messages")
			case chance(t, 1): // long
				states = append(states, wideQuery(t, around(t, 20000)))
				t.Count("long")
			case chance(t, 5): // typed letter by letter
				rs := []rune(pageInput(t))
				for i := range rs {
					states = append(states, string(rs[:i+1]))
				}
			default:
				states = append(states, pageInput(t))
			}
		}
		var in strings.Builder
		for _, s := range states {
			units := []int{}
			for _, u := range utf16.Encode([]rune(s)) {
				units = append(units, int(u))
			}
			b, _ := json.Marshal(units)
			in.Write(b)
			in.WriteByte('\n')
		}
		inFile, outFile := filepath.Join(dir, "in"), filepath.Join(dir, "out")
		fw.Write(c, inFile, in.String())
		o := fw.Process(c, dir, "node", host, execJS, module, filepath.Join(os.Getenv("VERIF_REPO"), "wasm", "aqlparse", "index.html"), inFile, outFile)
		b, err := os.ReadFile(outFile)
		if err != nil {
			c.Fatalf("the host failed: status %d %s", o.Code, o.Stderr)
		}
		lines := strings.Split(strings.TrimSpace(string(b)), "\n")
		forms := map[string]string{}
		var views []pageView
		for i, l := range lines {
			var v pageView
			if err := json.Unmarshal([]byte(l), &v); err != nil {
				c.Fatalf("the host gave %s", l)
			}
			for _, e := range v.Shows.Errors {
				if strings.Contains(e, "not modelled") || strings.Contains(e, "is not a function") {
					c.Fatalf("the model of the browser does not suffice: %s", e)
				}
			}
			if v.Says == nil || len(v.Shows.Errors) > 0 {
				t.Failf("the page failed on %q: %q", states[min(i, len(states)-1)], v.Shows.Errors)
			}
			views = append(views, v)
		}
		if len(views) != len(states) {
			t.Failf("the page stopped after %d of %d inputs", len(views), len(states))
		}
		for _, v := range views[calibrated-4 : calibrated] {
			if len(v.Says.Messages) == 1 && len(v.Shows.Messages) == 1 {
				forms[v.Says.Messages[0].Type] = v.Shows.Messages[0].Skeleton
			}
		}
		if len(forms) != 3 {
			t.Note("inputs: %q", states[:calibrated])
			t.Failf("plain messages of the three kinds are not shown as one message each: %q", forms)
		}
		if forms["error"] == forms["hint"] || forms["warning"] == forms["hint"] {
			t.Failf("messages of different kinds look alike: %q", forms)
		}
		for i, v := range views {
			t.ClearNotes()
			t.Note("input %d: %q", i, clip(states[i]))
			if i > 0 {
				t.Note("after: %q", clip(states[i-1]))
			}
			t.Eval()
			s := v.Shows
			if s.Highlighters != 1 || s.Alerts > 0 || s.Loose > 0 || !s.OutputPlain {
				t.Failf("the page is broken: %+v", s)
			}
			if states[i] == "" {
				if strings.TrimSpace(s.Output) != "" || len(s.Messages) > 0 || len(s.Ranges) > 0 {
					t.Failf("an empty input shows %+v", s)
				}
				t.Count("emptied")
				continue
			}
			if len(s.Messages) != len(v.Says.Messages) {
				t.Failf("%d messages are shown, expected %d: %+v", len(s.Messages), len(v.Says.Messages), s.Messages)
			}
			var want [][2]int
			for k, m := range v.Says.Messages {
				g := s.Messages[k]
				if !g.Shown || !strings.Contains(g.Text, m.Msg) || !strings.Contains(strings.ToLower(g.Text), m.Type) {
					t.Failf("message %d is shown as %q (%v), expected the %s %q", k, g.Text, g.Shown, m.Type, m.Msg)
				}
				if g.Skeleton != forms[m.Type] {
					t.Failf("the text %q became markup: %s, expected %s", m.Msg, g.Skeleton, forms[m.Type])
				}
				want = append(want, [2]int{*m.Start, *m.End})
				t.Count("message " + m.Type)
				if strings.ContainsAny(m.Msg, "<&>") {
					t.Count("messages_with_markup")
				}
			}
			if fmt.Sprint(want) != fmt.Sprint(s.Ranges) {
				t.Failf("the ranges %v are marked, expected %v", s.Ranges, want)
			}
			if len(want) == 0 {
				if s.Output != v.Says.AST || !s.OutputShown || s.Output == "" {
					t.Failf("the tree is shown as %q, expected %q", clip(s.Output), clip(v.Says.AST))
				}
				t.Count("trees")
				if strings.ContainsAny(s.Output, "<&>") {
					t.Count("trees_with_markup")
				}
			} else if strings.TrimSpace(s.Output) != "" {
				t.Failf("a tree is shown besides messages: %q", clip(s.Output))
			}
			before := ""
			if i > 0 {
				before = states[i-1]
			}
			t.Distinct(before + "\x00" + states[i])
			if i >= calibrated && i < calibrated+3 {
				t.Sample(map[string]any{"input": states[i], "messages": len(want), "shown": clip(s.Output)})
			}
		}
	})
	c.Require("many_messages", 50)
	c.Require("trees", 300)
	c.Require("emptied", 100)
	c.Require("message hint", 500)
	c.Require("message warning", 200)
	c.Require("message error", 500)
	c.Require("messages_with_markup", 200)
}
