// Package graphprops holds the check of the query graphs.
package graphprops

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/aqlgraph"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func init() {
	fw.Register(&fw.Prop{
		ID:          "C26",
		Rule:        "graphs of random queries written in both formats, read back and compared with the tree node by node, edge by edge and text by text; non-trivial: a distinct query drawn",
		Run:         run,
		Assumptions: []string{"queries of at most a few hundred conditions; the drawing library is used from one goroutine"},
	})
}

// shown is how a text appears in a drawing.
func shown(s string) string {
	var b strings.Builder
	for _, r := range s {
		if unicode.IsPrint(r) {
			b.WriteRune(r)
		} else {
			b.WriteString(strings.Trim(strconv.QuoteRune(r), "'"))
		}
	}
	return b.String()
}

var typeNames = map[ref.VType]string{ref.VInt: "integer", ref.VFloat: "float", ref.VString: "string", ref.VNet: "network", ref.VBool: "boolean", ref.VRegex: "regexp", ref.VTime: "datetime"}

// wantCells are the texts of a condition.
func wantCells(n *ref.Node, a *ast.ExprNode) []string {
	out := []string{shown(strings.Join(n.Field, ".")), "op", n.Op}
	if len(n.Vals) > 0 {
		out = append(out, "Values")
	}
	for i, v := range n.Vals {
		out = append(out, typeNames[v.Type], shown(a.RVals[i].String()))
	}
	return out
}

func pick(t *fw.T, s ...string) string { return gen.Pick(t.Rand, s...) }

func nasty(t *fw.T) string {
	var b strings.Builder
	for i := 1 + t.Intn(8); i > 0; i-- {
		b.WriteString(pick(t, "a", " ", "  ", "<", ">", "&", "&amp;", "&#34;", "&lt;", `"`, `\`, `\N`, `\G`, `\\`, `\n`, `\l`, "\n", "\t", "\r", "\x01", "\x00", "\x7f", "é", "大", "😀", "\u00a0", "\u200b", "\ufeff", "\uffff", "\ufffe", "'", "<b>", "</TABLE>", "]]>", "{", "}", "|", ";", "%", "//", "#", "->", "--", "=", ",", "[", "]", "(", ")", "*", "?", "\u0301", "\u202e", "\u2028", "<br/>"))
	}
	return b.String()
}

func run(c *fw.Ctx) {
	dir := fw.Scratch("graph")
	draw := func(t *fw.T, text string) {
		t.Note("query: %q", text)
		want, err := ref.Parse(text)
		if err != nil {
			c.Fatalf("generated query %q: %v", text, err)
		}
		tree, err := parser.ParseQuery(text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		dotFile, svgFile := filepath.Join(dir, "q.dot"), filepath.Join(dir, "q.svg")
		output := func() (string, string) {
			var g *aqlgraph.Graph
			var err error
			os.Remove(dotFile)
			os.Remove(svgFile)
			t.Call("drawing", func() { g, err = aqlgraph.QueryGraph(text) })
			if err != nil {
				t.Failf("an accepted query gave no graph: %v", err)
			}
			svgFirst := t.Intn(2) == 0
			svg := func() {
				t.Call("writing SVG", func() { err = g.OutputSVG(svgFile) })
				if err != nil {
					t.Failf("no SVG: %v", err)
				}
			}
			if svgFirst {
				svg()
			}
			t.Call("writing DOT", func() { err = g.OutputDOT(dotFile) })
			if err != nil {
				t.Failf("no DOT: %v", err)
			}
			if !svgFirst {
				svg()
			}
			d, err1 := os.ReadFile(dotFile)
			s, err2 := os.ReadFile(svgFile)
			if err1 != nil || err2 != nil {
				t.Failf("no output: %v %v", err1, err2)
			}
			return string(d), string(s)
		}
		dot, svg := output()
		t.Eval()
		g, err := readDOT(dot)
		if err != nil {
			t.Failf("the DOT output cannot be read: %v\n%s", err, dot)
		}
		s, err := readSVG(svg)
		if err != nil {
			t.Failf("the SVG output cannot be read: %v\n%s", err, svg)
		}
		// structure: from the start along the edges
		kids := map[string][]edge{}
		for _, e := range g.edges {
			kids[e.from] = append(kids[e.from], e)
		}
		svgEdges := map[string]int{}
		for _, e := range s.edges {
			svgEdges[e.from+" "+e.to]++
		}
		for _, e := range g.edges {
			svgEdges[e.from+" "+e.to]--
		}
		for k, n := range svgEdges {
			if n != 0 {
				t.Failf("the drawing and the graph differ in the edge %s", k)
			}
		}
		seen := map[string]bool{"start": true}
		var walk func(name string, n *ref.Node, a ast.Node)
		walk = func(name string, n *ref.Node, a ast.Node) {
			if seen[name] {
				t.Failf("node %s is reached twice\n%s", name, dot)
			}
			seen[name] = true
			gn, sn := g.nodes[name], s.nodes[name]
			if gn == nil || sn == nil {
				t.Failf("node %s is missing\n%s", name, dot)
			}
			var l, r ast.Node
			label := ""
			switch x := a.(type) {
			case *ast.AndNode:
				label, l, r = "AND", x.Left, x.Right
			case *ast.OrNode:
				label, l, r = "OR", x.Left, x.Right
			case *ast.NotNode:
				label, l = "NOT", x.Expr
			case *ast.ExprNode:
				if n.Kind != ref.KExpr {
					t.Failf("the parser gives %s", tree)
				}
				w := wantCells(n, x)
				if !gn.html {
					t.Failf("the label of %s is %q", name, gn.attr["label"])
				}
				got, err := cells(gn.attr["label"])
				if err != nil {
					t.Failf("the label of %s: %v", name, err)
				}
				for i := range got {
					if got[i], err = undouble(got[i]); err != nil {
						t.Failf("the label of %s: %v", name, err)
					}
				}
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", w) {
					t.Failf("node %s has the texts %q, expected %q", name, got, w)
				}
				if got := visible(sn.texts); got != visible(w) {
					t.Failf("node %s is drawn with %q, expected %q", name, sn.texts, w)
				}
				if len(kids[name]) != 0 {
					t.Failf("the condition %s has children", name)
				}
				t.Count("conditions")
				c.Count("texts", int64(len(w)))
				return
			}
			if gn.attr["label"] != label || visible(sn.texts) != label {
				t.Failf("node %s has the label %q and is drawn with %q, expected %q", name, gn.attr["label"], sn.texts, label)
			}
			t.Count("operators")
			k := kids[name]
			if r == nil {
				if len(k) != 1 {
					t.Failf("%s has %d children", label, len(k))
				}
				walk(k[0].to, n.L, l)
				return
			}
			if len(k) != 2 || k[0].bold == k[1].bold {
				t.Failf("%s has the edges %v", label, k)
			}
			if !k[0].bold { // the first operand has the bold edge
				k[0], k[1] = k[1], k[0]
			}
			walk(k[0].to, n.L, l)
			walk(k[1].to, n.R, r)
		}
		if len(kids["start"]) != 1 || g.nodes["start"] == nil || s.nodes["start"] == nil {
			t.Failf("the start has the edges %v", kids["start"])
		}
		walk(kids["start"][0].to, want, tree)
		if len(seen) != len(g.nodes) || len(seen) != len(s.nodes) || len(g.edges) != len(seen)-1 {
			t.Failf("%d nodes and %d edges in the graph, %d nodes in the drawing, expected %d nodes", len(g.nodes), len(g.edges), len(s.nodes), len(seen))
		}
		// the title, line by line
		if got, w := visible(strings.Split(s.title, "\n")), visible(titleLines(text)); got != w {
			t.Failf("the title is drawn as %q, expected %q", s.title, text)
		}
		t.Distinct(text)
		t.Sample(map[string]any{"query": text, "nodes": len(seen), "edges": len(g.edges)})
		// the same again
		if t.Intn(4) == 0 {
			dot2, svg2 := output()
			if dot2 != dot || svg2 != svg {
				t.Failf("drawn again, the graph differs")
			}
			t.Count("drawn_again")
		}
	}
	c.RunSeq("random", c.N(1200, 8000), func(t *fw.T) {
		q := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 4, 12, 25), MaxList: 5}.Query(t.Rand)
		draw(t, gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: 10}))
	})
	// long lists, long paths, many conditions
	c.RunSeq("long", c.N(150, 1500), func(t *fw.T) {
		q := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 3), MaxList: 90}.Expr(t.Rand)
		for len(q.Vals) < 8 {
			q = gen.Config{MaxList: 90}.Expr(t.Rand)
		}
		if t.Intn(3) == 0 {
			q = ref.And(q, ref.Expr(gen.BarePath(t.Rand, 10+t.Intn(60)), "exists"))
		}
		draw(t, gen.Text(t.Rand, q, gen.TextStyle{}))
		t.Count("long")
	})
	// many nodes, deep trees, large texts
	c.RunSeq("scale", c.N(24, 200), func(t *fw.T) {
		var q *ref.Node
		leaf := func() *ref.Node { return gen.Config{MaxList: 3}.Expr(t.Rand) }
		switch t.Intn(5) {
		case 0:
			q = gen.Config{MaxList: 3}.Tree(t.Rand, 50+t.Intn(250))
		case 1: // a chain
			q = leaf()
			for n := 30 + t.Intn(170); n > 0; n-- {
				if t.Intn(2) == 0 {
					q = ref.And(leaf(), q)
				} else {
					q = ref.Or(q, leaf())
				}
			}
		case 2: // negations of negations
			q = leaf()
			for n := 30 + t.Intn(170); n > 0; n-- {
				q = ref.Not(q)
			}
		case 3: // long texts
			word := pick(t, "x", "é", "<b>", "&amp; ", `\N`, "大 ", "😀")
			q = ref.And(ref.Expr([]string{strings.Repeat(word, 1+t.Intn(2000))}, "==", gen.StrVal(t.Rand, strings.Repeat(word, 1+t.Intn(20000)))), leaf())
		default: // long paths
			var path []string
			for n := 50 + t.Intn(250); n > 0; n-- {
				path = append(path, pick(t, "a", "b c", "é", "<", "."))
			}
			q = ref.Or(ref.Expr(path, "exists"), leaf())
		}
		draw(t, gen.Text(t.Rand, q, gen.TextStyle{Parens: 5}))
		t.Count("scale")
	})
	// a drawing that is a page long
	c.RunSeq("huge", c.N(1, 4), func(t *fw.T) {
		q := ref.Expr([]string{"a"}, "exists")
		for n := 1400 + t.Intn(200); n > 0; n-- {
			leaf := ref.Expr([]string{fmt.Sprint("f", n)}, "exists")
			if n%100 == 0 {
				q = ref.Or(q, leaf)
			} else {
				q = ref.And(leaf, q)
			}
		}
		draw(t, gen.Text(t.Rand, q, gen.TextStyle{}))
		t.Count("huge")
	})
	c.RunSeq("nasty", c.N(1200, 8000), func(t *fw.T) {
		n := 1 + t.Intn(3)
		var q *ref.Node
		for i := 0; i < n; i++ {
			var path []string
			for k := 1 + t.Intn(2); k > 0; k-- {
				path = append(path, nasty(t))
			}
			e := ref.Expr(path, "==", gen.StrVal(t.Rand, nasty(t)))
			if t.Intn(3) == 0 {
				src := pick(t, `\d+`, `\\N`, `<b>&amp;`, `a\/b`, `"x"`, " ", `\x{1F600}`, `[^<>"&]`, `é|大`, `\n\t`, "  x  ", "&lt;")
				e.Vals = append(e.Vals, gen.RegexVal(t.Rand, src))
			}
			if q == nil {
				q = e
			} else {
				q = ref.And(q, ref.Not(e))
			}
		}
		draw(t, gen.Text(t.Rand, q, gen.TextStyle{}))
		t.Count("nasty")
	})
	// every character of the lower planes and of the compatibility forms, and
	// others, as field and as value
	const some = 24
	c.RunSeq("characters", c.N((0x3100+0x700)/some+60, 0x10000/some+300), func(t *fw.T) {
		lo := rune(some)
		if n, err := strconv.Atoi(t.Key[strings.LastIndexByte(t.Key, '/')+1:]); err == nil {
			lo *= rune(n)
		}
		if c.N(0, 1) == 1 {
			if lo >= 0x10000 {
				lo = 0x10000 + t.Int31n(0xfff00)
			}
		} else {
			switch {
			case lo >= 0x3100+0x700:
				lo = 0x3100 + t.Int31n(0x10ff00-0x3100)
			case lo >= 0x3100:
				lo += 0xf900 - 0x3100
			}
		}
		var q *ref.Node
		for r := lo; r < lo+some && r <= utf8.MaxRune; r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			e := ref.Expr([]string{pick(t, "", "x") + string(r)}, "==", gen.StrVal(t.Rand, string(r)+pick(t, "", "y")))
			if q == nil {
				q = e
			} else {
				q = ref.Or(e, q)
			}
			t.Count("characters")
		}
		if q != nil {
			draw(t, gen.Text(t.Rand, q, gen.TextStyle{}))
		}
	})
	c.Require("characters", 10000)
	c.RunSeq("rejected", c.N(300, 3000), func(t *fw.T) {
		text := gen.Text(t.Rand, gen.Config{MaxNodes: 3, MaxList: 3}.Query(t.Rand), gen.TextStyle{}) + pick(t, " AND", "(", ":", ` "`, " x", ")")
		if _, err := ref.Parse(text); err == nil {
			return
		}
		t.Note("query: %q", text)
		var g *aqlgraph.Graph
		var err error
		t.Call("drawing", func() { g, err = aqlgraph.QueryGraph(text) })
		_, perr := parser.ParseQuery(text)
		t.Eval()
		if err == nil || g != nil || fmt.Sprint(err) != fmt.Sprint(perr) {
			t.Failf("a rejected query gave a graph or another error: %v, the parser says %v", err, perr)
		}
		t.Count("rejected")
	})
	c.Require("conditions", 2000)
	c.Require("operators", 2000)
	c.Require("nasty", 500)
	c.Require("long", 100)
	c.Require("scale", 20)
	c.Require("drawn_again", 100)
	c.Require("rejected", 100)
}

// visible joins texts without what drawing cannot keep: empty texts and the
// amount of space at their ends.
func visible(texts []string) string {
	var out []string
	for _, s := range texts {
		if s = strings.Trim(s, " \t\r\n"); s != "" {
			out = append(out, s)
		}
	}
	return strings.Join(out, "\n")
}

func titleLines(q string) []string {
	lines := strings.Split(q, "\n")
	for i, l := range lines {
		var b strings.Builder
		for _, r := range l {
			if r == '\t' || r == '\r' {
				b.WriteRune(r)
			} else {
				b.WriteString(shown(string(r)))
			}
		}
		lines[i] = b.String()
	}
	return lines
}
