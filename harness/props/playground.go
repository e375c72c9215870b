package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func init() {
	fw.Register(&fw.Prop{
		ID:          "C29",
		Rule:        "the module built for the browser run in a JavaScript host on sequences of queries, also with text outside of the basic plane and lone surrogates; trees, kinds, messages and ranges are compared; non-trivial: a distinct query",
		Run:         runPlayground,
		Assumptions: []string{"the JavaScript host is node instead of a browser; the page itself is not run"},
	})
}

// units is the length of text in UTF-16.
func units(s string) int { return len(utf16.Encode([]rune(s))) }

type pageMsg struct {
	Type, Msg  string
	Start, End *int
}

type pageResult struct {
	Value *struct {
		AST      string
		Messages []pageMsg
	}
	Threw    string
	Notified *int
}

// pageAdvice are the advisories the playground gives, by range.
// They are known for the terms of the table only.
func pageAdvice(q *ref.Node, text string) (out []string, known bool) {
	known = true
	say := func(kind byte, lo, hi int) {
		start := units(text[:lo])
		out = append(out, fmt.Sprintf("%s %d-%d", map[byte]string{'H': "hint", 'W': "warning"}[kind], start, start+units(text[lo:hi])))
	}
	for _, e := range q.Exprs() {
		for _, v := range e.Vals {
			switch v.Type {
			case ref.VRegex:
				if e.Op == "~" {
					say('W', e.Lo, e.Hi)
				}
				found := false
				for _, a := range adviceTable {
					if a.src == v.S {
						found = true
						for i := range a.kinds {
							say(a.kinds[i], v.Lo, v.Hi)
						}
						break
					}
				}
				known = known && found
			case ref.VTime:
				if e.Op == "==" {
					say('W', v.Lo, v.Hi)
				}
			}
		}
	}
	return out, known
}

// pageQuery makes what someone could have typed.
func pageQuery(t *fw.T) []uint16 {
	cfg := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 4, 10), MaxList: 4, Types: []ref.VType{ref.VInt, ref.VFloat, ref.VString, ref.VNet, ref.VBool, ref.VTime}}
	text := gen.Text(t.Rand, cfg.Query(t.Rand), gen.TextStyle{Stars: true, Parens: 10})
	for n := t.Intn(4); n > 0; n-- {
		e := oneOf(t, "f", `"大😀".x`, "a.b", `"é"`) + ":" + oneOf(t, "", "~", " ", "~ ")
		v := func() string {
			if chance(t, 30) {
				return `"` + oneOf(t, "😀", "𝄞 clef", "plain", "é") + itoa(t.Intn(1000)) + `"`
			}
			return "/" + adviceTable[t.Intn(len(adviceTable))].src + "/"
		}
		if chance(t, 40) {
			e += "(" + v() + gap(t) + "," + v() + ")"
		} else {
			e += v()
		}
		if chance(t, 50) {
			text = e + gap(t) + oneOf(t, "AND", "OR") + gap(t) + text
		} else {
			text += gap(t) + oneOf(t, "AND", "OR") + gap(t) + e
		}
	}
	switch t.Intn(7) {
	case 6:
		text = faulty(t)
	case 0:
		text = mutate(t, text)
	case 1: // cut off while typing
		text = text[:t.Intn(len(text)+1)]
	case 2:
		text = oneOf(t, "", " ", "😀", "a", "a:", `"😀`, "a:(", "a:1 AND", "a:1 AND \n", `"😀":`, "a:😀", "a:1 😀", `"😀":1 } 😀`, "\n", "a:\"😀\nx", "a:1 OR b:/é(/", `"😀":99999999999999999999`, `"😀":><("😀",1)`, "大", "a:1 大大")
	}
	u := utf16.Encode([]rune(text))
	if chance(t, 10) { // half of a character
		i := t.Intn(len(u) + 1)
		u = append(u[:i:i], append([]uint16{gen.Pick[uint16](t.Rand, 0xD83D, 0xDE00, 0xD800, 0xDFFF)}, u[i:]...)...)
	}
	return u
}

func runPlayground(c *fw.Ctx) {
	module := fw.Built(c, "aqlparse")
	host := filepath.Join(fw.Root, "harness", "js", "host.js")
	execJS := filepath.Join(os.Getenv("VERIF_GOROOT"), "lib", "wasm", "wasm_exec.js")
	if _, err := os.Stat(execJS); err != nil {
		c.Fatalf("%v", err)
	}
	run := func(t *fw.T, n, long int, queries ...[]uint16) {
		dir, done := fw.CaseDir(t)
		defer done()
		for i := 0; i < n; i++ {
			if long > 0 && chance(t, 20) {
				text := wideQuery(t, around(t, long))
				if chance(t, 30) {
					text += oneOf(t, " AND", " 😀", ` AND "😀":><(2,1)`, ")", ` OR b:/é(/`)
				}
				queries = append(queries, utf16.Encode([]rune(text)))
				t.Count("long_queries")
			} else if i > 0 && chance(t, 10) {
				queries = append(queries, queries[t.Intn(i)]) // again
			} else {
				queries = append(queries, pageQuery(t))
			}
		}
		var in strings.Builder
		for _, q := range queries {
			ints := make([]int, len(q))
			for i, u := range q {
				ints[i] = int(u)
			}
			b, _ := json.Marshal(ints)
			in.Write(b)
			in.WriteByte('\n')
		}
		inFile, outFile := filepath.Join(dir, "in"), filepath.Join(dir, "out")
		fw.Write(c, inFile, in.String())
		o := fw.Process(c, dir, "node", host, execJS, module, inFile, outFile)
		b, err := os.ReadFile(outFile)
		if err != nil {
			if strings.Contains(o.Stderr, "panic:") || strings.Contains(o.Stderr, "fatal error:") || strings.Contains(o.Stderr, "exit code") {
				t.Failf("the module ended: %s", clip(o.Stderr))
			}
			c.Fatalf("the host failed: status %d %s", o.Code, o.Stderr)
		}
		lines := strings.Split(strings.TrimSpace(string(b)), "\n")
		for i, u := range queries {
			text := string(utf16.Decode(u))
			t.ClearNotes()
			t.Note("query %d: %q", i, clip(text))
			if i >= len(lines) {
				t.Failf("no result")
			}
			var r pageResult
			if err := json.Unmarshal([]byte(lines[i]), &r); err != nil || r.Value == nil {
				t.Failf("the module gave %s (%s)", lines[i], clip(o.Stderr))
			}
			t.Eval()
			var got []string
			for _, m := range r.Value.Messages {
				if m.Start == nil || m.End == nil || m.Msg == "" {
					t.Failf("the message %+v", m)
				}
				got = append(got, fmt.Sprintf("%s %d-%d", m.Type, *m.Start, *m.End))
			}
			want, rerr := ref.Parse(text)
			visitor := parser.NewMessageVisitor(func(ast.Node, *parser.MessageTape) error { return nil })
			tree, perr := parse(t, text, parser.Visitors(visitor))
			if (rerr == nil) != (r.Value.AST != "") {
				t.Failf("the module gave the tree %q and %q; the query is valid: %v", clip(r.Value.AST), got, rerr == nil)
			}
			if rerr == nil {
				if perr != nil {
					t.Failf("valid query rejected: %v", perr)
				}
				b, _ := json.Marshal(tree)
				if jsonForm(r.Value.AST) != jsonForm(string(b)) {
					t.Failf("the module gave the tree %s, expected %s", r.Value.AST, b)
				}
				w, known := pageAdvice(want, text)
				if known && fmt.Sprint(got) != fmt.Sprint(w) {
					t.Failf("the advisories are %q, expected %q", got, w)
				}
				t.Count("accepted")
				c.Count("advisories", int64(len(w)))
			} else {
				var pe *parser.ParseError
				if !errors.As(perr, &pe) {
					t.Failf("no parse error: %v", perr)
				}
				p := pe.Pos()
				start := units(text[:p.Offset])
				marked := []rune(text[p.Offset:])
				end := start + units(string(marked[:min(len(marked), max(p.Len, 0))]))
				msg := pe.Message()
				if strings.HasPrefix(msg, "no match found") {
					msg = "incomplete query"
					_, last := utf8.DecodeLastRuneInString(text)
					start, end = units(text[:len(text)-last]), units(text)
					t.Count("incomplete")
				}
				end = max(end, start+1)
				w := fmt.Sprintf("error %d-%d", start, end)
				if len(got) != 1 || got[0] != w || r.Value.Messages[0].Msg != msg {
					t.Failf("the module says %+v %q, expected %s %q", r.Value.Messages, got, w, msg)
				}
				if p.Offset != utf8.RuneCountInString(text[:p.Offset]) {
					t.Count("errors_after_multibyte")
				}
				t.Count("rejected")
			}
			t.Distinct(text)
			if i < 3 {
				t.Sample(map[string]any{"query": clip(text), "messages": got, "tree": clip(r.Value.AST)})
			}
		}
		var r pageResult
		if err := json.Unmarshal([]byte(lines[len(lines)-1]), &r); err != nil || r.Notified == nil || *r.Notified != 1 {
			t.Failf("the module announced itself: %s", lines[len(lines)-1])
		}
		t.Count("sessions")
	}
	c.Run("session", c.N(30, 230), func(t *fw.T) { run(t, 500, 0) })
	c.Run("many", c.N(2, 10), func(t *fw.T) { run(t, 5000, 0) })
	c.Run("long", c.N(4, 24), func(t *fw.T) { run(t, 60, 90000) })
	// every character of the lower planes, and others
	c.Run("characters", c.N(8, 64), func(t *fw.T) {
		var queries [][]uint16
		n := c.N(8, 64)
		for r := rune(mustIndex(t.Key)); r < 0x3100 || len(queries) < 4000; r += rune(n) {
			x := r
			if r >= 0x3100 {
				x = t.Int31n(0x110000)
			}
			s := string(x)
			queries = append(queries, utf16.Encode([]rune(oneOf(t, "a:1"+s+"AND b:1", s+"a:"+s+"1"+s, "a:(1"+s+","+s+"2)", `"`+s+`":`, `a:"`+s+`" `+s, `a:"`+s+`" AND b:/x.*/`, `"`+s+`":(1,1)`, s, "a:1 AND "+s, `a:"`+s+`" AND b:~/x`+s+`/`, `"`+s+`":2020-01-01T00:00:00Z`))))
			if x == r {
				queries = append(queries, utf16.Encode([]rune(s+"a:"+s+"1"+oneOf(t, s, " ")+"AND"+oneOf(t, s, " ")+"b:1")))
			}
			t.Count("characters")
		}
		run(t, 0, 0, queries...)
	})
	c.Require("characters", 10000)
	// the finding
	c.RunSeq("deep", 1, func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		const depth = 2000
		text := strings.Repeat("(", depth) + "a:1" + strings.Repeat(")", depth)
		t.Note("query: a:1 in %d pairs of parentheses", depth)
		inFile, outFile := filepath.Join(dir, "in"), filepath.Join(dir, "out")
		ints := []int{}
		for _, r := range text {
			ints = append(ints, int(r))
		}
		b, _ := json.Marshal(ints)
		fw.Write(c, inFile, string(b)+"\n")
		o := fw.Process(c, dir, "node", host, execJS, module, inFile, outFile)
		out, err := os.ReadFile(outFile)
		if err != nil {
			c.Fatalf("the host failed: status %d %s", o.Code, o.Stderr)
		}
		t.Eval()
		line, _, _ := strings.Cut(string(out), "\n")
		var r pageResult
		if err := json.Unmarshal([]byte(line), &r); err == nil && r.Value != nil && r.Value.AST != "" {
			return
		}
		if strings.Contains(line, "Maximum call stack size exceeded") && c.Known("2000 parentheses") {
			c.Finding(fmt.Sprintf("the module ends with %s for a:1 in %d pairs of parentheses", clip(strings.TrimSpace(line)), depth))
			return
		}
		t.Failf("the module gave %s (%s)", clip(line), clip(o.Stderr))
	})
	c.Require("accepted", 2000)
	c.Require("rejected", 1000)
	c.Require("advisories", 1000)
	c.Require("incomplete", 100)
	c.Require("long_queries", 20)
	c.Require("errors_after_multibyte", 100)
}

// jsonForm is JSON text without its layout.
func jsonForm(s string) string {
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return "no JSON: " + s
	}
	b, _ := json.Marshal(v)
	return string(b)
}
