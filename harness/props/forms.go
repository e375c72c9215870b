package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C34",
		Rule: "random queries parsed, or built by hand, and printed, with the text compared with the one a reference parser and printer give; non-trivial: a distinct printed text",
		Run:  runPrintedTrees,
	})
	fw.Register(&fw.Prop{
		ID:   "C35",
		Rule: "messages with markup in their text and query printed through templates of several contexts in HTML and in plain text, and broken templates; non-trivial: a distinct printed text",
		Run:  runTemplates,
	})
	fw.Register(&fw.Prop{
		ID:   "C39",
		Rule: "errors, messages and statistics written as text and as JSON and read back; non-trivial: a distinct text or JSON form",
		Run:  runForms,
	})
}

// printVal is the printed form of a term.
func printVal(v *ref.Val) string {
	switch v.Type {
	case ref.VFloat:
		return strconv.FormatFloat(v.F, 'f', -1, 64)
	case ref.VString:
		return strconv.Quote(v.S)
	case ref.VBool:
		return strconv.FormatBool(v.B)
	case ref.VNet:
		if !strings.Contains(v.Text, "/") {
			return v.Text + "/32"
		}
	}
	return v.Text
}

func printField(f []string) string {
	var out []string
	for _, p := range f {
		if strings.ContainsAny(p, ` ."`) {
			p = strconv.Quote(p)
		}
		out = append(out, p)
	}
	return strings.Join(out, ".")
}

// printNode is the prefix form: (op left right), (op field values).
func printNode(b *strings.Builder, n *ref.Node) {
	switch n.Kind {
	case ref.KAnd, ref.KOr:
		b.WriteString(map[ref.NKind]string{ref.KAnd: "(&& ", ref.KOr: "(|| "}[n.Kind])
		printNode(b, n.L)
		b.WriteString(" ")
		printNode(b, n.R)
		b.WriteString(")")
	case ref.KNot:
		b.WriteString("(! ")
		printNode(b, n.L)
		b.WriteString(")")
	default:
		b.WriteString("(" + n.Op + " " + printField(n.Field))
		var v []string
		for _, x := range n.Vals {
			v = append(v, printVal(x))
		}
		switch len(v) {
		case 0:
		case 1:
			b.WriteString(" " + v[0])
		default:
			b.WriteString(" [" + strings.Join(v, ", ") + "]")
		}
		b.WriteString(")")
	}
}

// shortForm is how a condition is named.
func shortForm(n *ref.Node) string {
	out := printField(n.Field) + ":"
	if n.Op != "==" {
		out += n.Op
	}
	var v []string
	for _, x := range n.Vals {
		v = append(v, printVal(x))
	}
	switch len(v) {
	case 0:
		return out + " "
	case 1:
		return out + " " + v[0]
	}
	return out + " (" + strings.Join(v, ",") + ")"
}

func printed(n *ref.Node) string {
	var b strings.Builder
	printNode(&b, n)
	return b.String()
}

// showTree compares what a tree prints with what it is.
func showTree(t *fw.T, n ast.Node, want *ref.Node) {
	var got, again string
	before := treeForm2(n)
	t.Call("printing", func() { got = n.String() })
	t.Eval()
	if w := printed(want); got != w {
		t.Failf("the tree is printed as\n    %s\n  expected\n    %s", clip(got), clip(w))
	}
	es := want.Exprs()
	for i, e := range astExprs(n, nil) {
		var s string
		t.Call("printing", func() { s = e.FriendlyString() })
		if w := shortForm(es[i]); s != w {
			t.Failf("the condition is named %s, expected %s", clip(s), clip(w))
		}
		t.Count("conditions")
	}
	t.Call("printing", func() { again = n.String() })
	if again != got || treeForm2(n) != before {
		t.Failf("printing changed the tree: %s, then %s", clip(got), clip(again))
	}
	t.Distinct(got)
}

// treeForm2 is a form of a tree that does not use its own printing.
func treeForm2(n ast.Node) string {
	r, err := fromAST(n)
	if err != nil {
		return err.Error()
	}
	out := r.Dump()
	for _, e := range astExprs(n, nil) {
		out += fmt.Sprintf("|%v", e.Position)
		for _, v := range e.RVals {
			out += fmt.Sprintf(",%v", v.Pos())
		}
	}
	return out
}

// build makes a tree by hand.
func build(t *fw.T, n *ref.Node) ast.Node {
	switch n.Kind {
	case ref.KAnd:
		return &ast.AndNode{Left: build(t, n.L), Right: build(t, n.R)}
	case ref.KOr:
		return &ast.OrNode{Left: build(t, n.L), Right: build(t, n.R)}
	case ref.KNot:
		return &ast.NotNode{Expr: build(t, n.L)}
	}
	e := &ast.ExprNode{Op: ast.Op(n.Op), Field: n.Field, Position: ast.Pos{Line: 1, Col: 1, Len: 1}}
	for _, v := range n.Vals {
		p := ast.Pos{Line: 1 + t.Intn(9), Col: 1 + t.Intn(99), Offset: t.Intn(999), Len: t.Intn(99)}
		buf := []byte(v.Text)
		if v.Type == ref.VString {
			buf = []byte(v.S)
		}
		var val ast.Val
		var err error
		t.Call("making a value", func() {
			switch v.Type {
			case ref.VInt:
				val, err = ast.NewIntVal(buf, p)
			case ref.VFloat:
				val, err = ast.NewFloatVal(buf, p)
			case ref.VString:
				val, err = ast.NewStringVal(buf, p)
			case ref.VBool:
				val, err = ast.NewBoolVal(buf, p)
			case ref.VRegex:
				val, err = ast.NewRegexpVal(buf, p)
			case ref.VNet:
				val, err = ast.NewNetVal(buf, p)
			case ref.VTime:
				val, err = ast.NewTimeVal(buf, p)
			}
		})
		if err != nil {
			t.Failf("the value %s cannot be made: %v", v.Text, err)
		}
		if val.Pos() != p {
			t.Failf("the value %s is at %v, expected %v", v.Text, val.Pos(), p)
		}
		for i := range buf {
			buf[i] = '#' // what was passed in is not needed anymore
		}
		e.RVals = append(e.RVals, val)
	}
	return e
}

func runPrintedTrees(c *fw.Ctx) {
	one := func(t *fw.T, text string) {
		q, err := ref.Parse(text)
		if err != nil {
			return
		}
		t.ClearNotes()
		t.Note("query: %s", clip(text))
		n, err := parse(t, text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		showTree(t, n, q)
		t.Count("printed")
	}
	c.Run("parsed", c.N(12000, 120000), func(t *fw.T) {
		q := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 5, 20, 60), MaxList: 6}.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: 20})
		one(t, text)
		t.Sample(map[string]any{"query": clip(text), "printed": clip(printed(q))})
	})
	c.Run("values", c.N(10000, 100000), func(t *fw.T) {
		v := gen.Val(t.Rand, gen.Pick(t.Rand, gen.Types...))
		if chance(t, 30) {
			s := gen.Pick(t.Rand, gen.StrText(t.Rand), randRunes(t), gen.StrTerm(t.Rand))
			v = gen.StrVal(t.Rand, s)
		}
		one(t, "a:"+v.Text)
	})
	c.Run("fields", c.N(6000, 60000), func(t *fw.T) {
		var f []string
		for n := 1 + gen.Size(t.Rand, 3, 40); n > 0; n-- {
			f = append(f, gen.QuoteAQL(t.Rand, gen.Pick(t.Rand, gen.Name(t.Rand), gen.StrText(t.Rand), randRunes(t)), gen.Pick(t.Rand, 0, 20, 100)))
		}
		one(t, strings.Join(f, ".")+oneOf(t, ":exists", ":null", ":1", ":<1", ":~1", ":(1,2)"))
		t.Count("fields")
	})
	lits := literals()
	c.Run("table", len(lits), func(t *fw.T) {
		l := lits[mustIndex(t.Key)]
		for _, q := range []string{"a:" + l, "a:(7 , " + l + " )", "a:" + l + " AND b:1", "!a:<" + l, "a:><(0," + l + ")"} {
			one(t, q)
		}
	})
	c.Run("lists", c.N(250, 2500), func(t *fw.T) {
		typ := gen.Pick(t.Rand, gen.Types...)
		n := gen.Pick(t.Rand, 12, 30, 70, 120, 300, 1100, 3000)
		if typ == ref.VBool {
			typ = ref.VString
		}
		seen := map[string]bool{}
		var vs []string
		for k := 0; k < 3*n && len(vs) < n; k++ {
			v := gen.Val(t.Rand, typ)
			if chance(t, 5) {
				v = gen.Val(t.Rand, ref.VInt)
			}
			if !seen[v.Text] {
				seen[v.Text] = true
				if _, err := ref.Parse("a:" + v.Text); err == nil {
					vs = append(vs, v.Text)
				}
			}
		}
		for len(vs) > 0 {
			text := strings.Repeat("a.", t.Intn(gen.Pick(t.Rand, 2, 300))) + "a:(" + strings.Join(vs, ",") + ")"
			if _, err := ref.Parse(text); err == nil {
				one(t, text)
				t.Count("lists")
				break
			}
			// values that are the same although written differently
			vs = vs[:len(vs)/2]
		}
	})
	c.Require("lists", 100)
	c.Run("long", c.N(60, 500), func(t *fw.T) {
		one(t, longQuery(t, 1+around(t, 20000)))
		t.Count("long")
	})
	c.Run("built", c.N(6000, 60000), func(t *fw.T) {
		q := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 5, 20), MaxList: 6}.Query(t.Rand)
		t.Note("tree: %s", clip(q.Dump()))
		n := build(t, q)
		if d, err := fromAST(n); err != nil || d.Dump() != q.Dump() {
			t.Failf("the tree made is %v (%v)", d, err)
		}
		showTree(t, n, q)
		// of a nested document
		f := q.Exprs()[0].Field
		if got, want := (&ast.SubdocNode{Field: f, Expr: n}).String(), "("+printField(f)+"{"+printed(q)+"})"; got != want {
			t.Failf("the nested document is printed as %s, expected %s", clip(got), clip(want))
		}
		t.Count("built")
	})
	c.Require("printed", 15000)
	c.Require("built", 3000)
	c.Require("fields", 3000)
}

// tmplPart is a context in which a template puts a piece of text.
type tmplPart struct {
	before, after string
	decode        func(string) (string, error)
}

func runTemplates(c *fw.Ctx) {
	unhtml := func(s string) (string, error) {
		if strings.ContainsAny(s, "<>\"'") {
			return "", errors.New("markup is left in it")
		}
		for r := s; ; {
			i := strings.IndexByte(r, '&')
			if i < 0 {
				break
			}
			r = r[i:]
			j := strings.IndexByte(r, ';')
			if j < 2 || html.UnescapeString(r[:j+1]) == r[:j+1] {
				return "", errors.New("an ampersand is left in it")
			}
			r = r[j+1:]
		}
		return html.UnescapeString(s), nil
	}
	unjs := func(s string) (string, error) {
		if strings.ContainsAny(s, "<>&  ") {
			return "", errors.New("markup is left in it")
		}
		var out string
		err := json.Unmarshal([]byte(s), &out)
		return out, err
	}
	htmlParts := []tmplPart{
		{`<p>`, `</p>`, unhtml},
		{`<pre class="x">`, "</pre>\n", unhtml},
		{`<b title="`, `">.</b>`, unhtml},
		{`<td data-x='`, `'>.</td>`, unhtml},
		{"<script>var m = ", ";</script>", unjs},
		{"", "", unhtml},
		{"", "\n", unhtml},
		{"at: ", ".", unhtml},
		{"(", ")\n\t", unhtml},
	}
	texts := []string{"something", `<script>alert("x")</script>`, `"><img src=x onerror=alert(1)>`, `' onclick='x`, "a & b &amp; c &lt;", "</pre></p></script>", "x%d%s {{.Message}}", "大 é 😀", "", "<!--", "]]>", "\\u003c \\", "javascript:alert(1)", "`${x}`", "a b", "tab\tnewline\nend", "+ADw-script+AD4-"}
	pieces := []string{".Message", ".Query", ".QueryPre", ".QueryHL", ".QueryPost", "toupper .Message", ".Type"}
	c.Run("pieces", c.N(20000, 200000), func(t *fw.T) {
		q := gen.Text(t.Rand, gen.Config{MaxNodes: 5, MaxList: 4}.Query(t.Rand), gen.TextStyle{})
		if chance(t, 60) {
			q = ""
			for n := t.Intn(8); n > 0; n-- {
				q += gen.Pick(t.Rand, append(texts, "a:1", " ", "x", "é")...)
			}
		}
		text := gen.Pick(t.Rand, texts...) + oneOf(t, "", "", " "+gen.Pick(t.Rand, texts...))
		if !utf8.ValidString(q) || strings.ContainsAny(q+text, "\x00⟦⟧") {
			return
		}
		rs := []rune(q)
		pos, off, length := ast.NoPosition(), 0, 0
		if chance(t, 85) {
			off = t.Intn(len(rs) + 1)
			length = min(len(rs)-off, 1+gen.Size(t.Rand, 10, 100))
			lo := len(string(rs[:off]))
			pos = posOf(q, lo, lo+len(string(rs[off:off+length])))
			if off == len(rs) {
				length, pos.Len = 1, 1
			}
		}
		width := 0
		if chance(t, 40) {
			width = 1 + t.Intn(60)
		}
		inHTML := chance(t, 65)
		var tmpl string
		var used []tmplPart
		var what []string
		bare := chance(t, 25) // no tag anywhere
		for n := 1 + t.Intn(5); n > 0; n-- {
			p := htmlParts[t.Intn(len(htmlParts))]
			if bare {
				p = htmlParts[len(htmlParts)-1-t.Intn(4)]
			}
			w := pieces[t.Intn(len(pieces))]
			if !inHTML {
				p = tmplPart{p.before, p.after, func(s string) (string, error) { return s, nil }}
			}
			tmpl += "⟦" + p.before + "{{" + w + "}}" + p.after + "⟧"
			used, what = append(used, p), append(what, w)
		}
		kind := gen.Pick(t.Rand, parser.MsgHint, parser.MsgWarning, parser.MsgError)
		// a message that is not the parser's has no type
		name := map[parser.MessageType]string{parser.MsgHint: "info", parser.MsgWarning: "warning", parser.MsgError: "error"}[kind]
		var msg fmtmsg.Message = &parser.ParserMessage{Position: pos, Msg: text, Type: kind}
		if chance(t, 30) {
			msg, name = customMsg{pos, text}, ""
		} else if chance(t, 30) {
			msg, name = parser.ErrorAt(pos, text), "error"
		}
		t.Note("template: %q (HTML: %v), query: %q, position %+v, width %d, message %q", tmpl, inHTML, clip(q), pos, width, text)
		var f, pf *fmtmsg.Formatter
		var err, perr error
		t.Call("making a formatter", func() {
			f, err = fmtmsg.NewFormatter(tmpl, inHTML, width)
			pf, perr = fmtmsg.NewFormatter("{{.Query}}⟦{{.QueryPre}}⟦{{.QueryHL}}⟦{{.QueryPost}}", false, width)
		})
		if err != nil || perr != nil {
			t.Failf("a valid template was rejected: %v %v", err, perr)
		}
		var out, plain string
		t.Call("printing", func() { out = f.WithQuery(q).Sprint(msg) })
		t.Call("printing", func() { plain = pf.WithQuery(q).Sprint(msg) })
		t.Eval()
		want := map[string]string{".Message": text, "toupper .Message": strings.ToUpper(text), ".Type": name}
		if width == 0 {
			want[".Query"] = q
			if pos == ast.NoPosition() {
				want[".QueryPre"] = q
			} else {
				want[".QueryPre"], want[".QueryHL"] = string(rs[:off]), string(rs[off:min(off+length, len(rs))])
				want[".QueryPost"] = string(rs[min(off+length, len(rs)):])
			}
		} else {
			// what is cut out is decided elsewhere; here it is shown as it is in plain text
			p := strings.Split(plain, "⟦")
			if len(p) != 4 {
				t.Failf("printed %q", plain)
			}
			for i, w := range []string{".Query", ".QueryPre", ".QueryHL", ".QueryPost"} {
				want[w] = p[i]
			}
		}
		got := out
		for i, p := range used {
			rest, ok := strings.CutPrefix(got, "⟦"+p.before)
			j := strings.Index(rest, "⟧")
			if !ok || j < 0 || !strings.HasSuffix(rest[:j], p.after) {
				t.Failf("printed %q: part %d does not have the form of the template", out, i)
			}
			inner := strings.TrimSuffix(rest[:j], p.after)
			dec, err := p.decode(inner)
			if err != nil || dec != want[what[i]] {
				t.Failf("%s is printed as %q in %q (%v), which says %q, expected %q", what[i], inner, out, err, dec, want[what[i]])
			}
			got = rest[j+len("⟧"):]
			if inner != dec {
				t.Count("escaped")
			}
			if inHTML {
				t.Count("pieces_html")
			} else {
				t.Count("pieces_text")
			}
		}
		if got != "" {
			t.Failf("printed %q: %q is left", out, got)
		}
		t.Distinct(out)
		t.Sample(map[string]any{"template": tmpl, "html": inHTML, "printed": clip(out)})
	})
	c.Run("functions", c.N(4000, 40000), func(t *fw.T) {
		q := strings.Repeat(oneOf(t, "a", "é", "<", "😀"), 1+t.Intn(gen.Pick(t.Rand, 60, 60, 60, 600, 6000)))
		rs := []rune(q)
		off := t.Intn(len(rs))
		length := 1 + t.Intn(len(rs)-off)
		lo := len(string(rs[:off]))
		pos := posOf(q, lo, lo+len(string(rs[off:off+length])))
		n, m := t.Intn(gen.Pick(t.Rand, 50, 50, 50, 500, 5000, 70000)), t.Intn(gen.Pick(t.Rand, 20, 20, 20, 200, 2000))
		tmpl := fmt.Sprintf("[{{pad %d}}][{{repeat \"xy\" %d}}][{{toupper .Type}}][{{.HasHL}}][{{.HLStrOffset}}][{{.HLLen}}][{{pad .HLStrOffset}}]", n, m)
		f, err := fmtmsg.NewFormatter(tmpl, chance(t, 50), gen.Pick(t.Rand, 0, -5, len(rs), len(rs)+9))
		if err != nil {
			t.Failf("a valid template was rejected: %v", err)
		}
		t.Note("template: %q, query: %q, position %+v", tmpl, q, pos)
		kind := gen.Pick(t.Rand, parser.MsgHint, parser.MsgWarning, parser.MsgError)
		name := map[parser.MessageType]string{parser.MsgHint: "INFO", parser.MsgWarning: "WARNING", parser.MsgError: "ERROR"}[kind]
		var out string
		t.Call("printing", func() {
			out = f.WithQuery(q).Sprint(&parser.ParserMessage{Position: pos, Msg: "m", Type: kind})
		})
		t.Eval()
		want := fmt.Sprintf("[%s][%s][%s][true][%d][%d][%s]", strings.Repeat(" ", n), strings.Repeat("xy", m), name, off, length, strings.Repeat(" ", off))
		if out != want {
			t.Failf("printed %q, expected %q", clip(out), clip(want))
		}
		t.Count("functions")
		t.Distinct(out)
	})
	bad := []string{"{{", "{{.Message", "{{nofunction .Message}}", "{{if}}", "{{end}}", "{{range .Query}}", "{{template}}", "{{pad 1", "{{\"}}", "{{.Message}} {{else}}", "{{if .HasHL}}x"}
	failing := []string{"a{{pad -1}}", "a{{index .Message 99999}}", "a{{.Nothing}}", "a{{template \"x\"}}", "a{{repeat .Message -1}}", "a{{repeat 1 2}}", "a{{pad .Message}}", "a{{.Message.Foo}}"}
	c.Run("broken", (len(bad)+len(failing))*2, func(t *fw.T) {
		i := mustIndex(t.Key)
		inHTML := i%2 == 1
		i /= 2
		var f *fmtmsg.Formatter
		var err error
		if i < len(bad) {
			t.Note("template: %q", bad[i])
			t.Call("making a formatter", func() { f, err = fmtmsg.NewFormatter(bad[i], inHTML, 80) })
			t.Eval()
			if err == nil || f != nil {
				t.Failf("a broken template was accepted")
			}
			t.Count("broken_templates")
			t.Distinct(bad[i])
			return
		}
		tmpl := failing[i-len(bad)]
		t.Note("template: %q", tmpl)
		t.Call("making a formatter", func() { f, err = fmtmsg.NewFormatter(tmpl, inHTML, 80) })
		if err != nil {
			return // found early
		}
		var out string
		t.Call("printing", func() {
			out = f.WithQuery("a:1").Sprint(&parser.ParserMessage{Position: posOf("a:1", 2, 3), Msg: "m", Type: parser.MsgHint})
		})
		t.Eval()
		if !strings.Contains(out, "PRINT ERROR") {
			t.Failf("a template that fails printed %q", out)
		}
		t.Count("failing_templates")
		t.Distinct(tmpl)
	})
	c.Run("writers", c.N(400, 4000), func(t *fw.T) {
		// what is written up to a failure is the beginning of the whole text
		q := gen.Text(t.Rand, gen.Config{MaxNodes: 4}.Query(t.Rand), gen.TextStyle{})
		msg := &parser.ParserMessage{Position: posOf(q, 0, len(q)), Msg: gen.Pick(t.Rand, texts...), Type: parser.MsgWarning}
		p := fmtmsg.NewTerminalFormatter(0).WithQuery(q)
		whole := p.Sprint(msg)
		w := &shortWriter{left: t.Intn(len(whole) + 1)}
		t.Call("printing", func() { p.Fprint(w, msg) })
		t.Eval()
		if !strings.HasPrefix(whole, w.got) {
			t.Failf("printed %q before the failure, the whole text is %q", w.got, whole)
		}
		t.Count("failing_writers")
		t.Distinct(t.Key)
	})
	c.Require("pieces_html", 10000)
	c.Require("pieces_text", 5000)
	c.Require("escaped", 5000)
	c.Require("functions", 1000)
	c.Require("broken_templates", 10)
	c.Require("failing_templates", 4)
}

// shortWriter fails after some bytes.
type shortWriter struct {
	left int
	got  string
}

func (w *shortWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.got += string(p[:n])
		w.left = 0
		return n, io.ErrShortWrite
	}
	w.left -= len(p)
	w.got += string(p)
	return len(p), nil
}

// anyPos is a position near the start of a query or very far from it.
func anyPos(t *fw.T) ast.Pos {
	n := func() int {
		if chance(t, 10) {
			return 1<<(4+t.Intn(40)) + t.Intn(3) - 1
		}
		return t.Intn(9)
	}
	return ast.Pos{Line: 1 + n(), Col: 1 + n(), Offset: n(), Len: n()}
}

func runForms(c *fw.Ctx) {
	posForm := func(p ast.Pos) map[string]any {
		return map[string]any{"line": p.Line, "column": p.Col, "offset": p.Offset, "length": p.Len}
	}
	// written tells whether the JSON form of v, or of the one element of v, has
	// the members that are wanted, under exactly their names.
	written := func(v any, want map[string]any) ([]byte, bool) {
		b, err := json.Marshal(v)
		var back any
		if err == nil {
			err = json.Unmarshal(b, &back)
		}
		if list, ok := back.([]any); ok && len(list) == 1 {
			back = list[0]
		}
		wb, _ := json.Marshal(want)
		var w any
		json.Unmarshal(wb, &w)
		return b, err == nil && holds(back, w)
	}
	checkError := func(t *fw.T, e *parser.ParseError) {
		p := e.Pos()
		t.Eval()
		if want := fmt.Sprintf("%d:%d(%d): %s", p.Line, p.Col, p.Offset, e.Msg); e.Error() != want || e.Message() != e.Msg || e.Pos() != e.Position {
			t.Failf("the error says %q and %q, expected %q", e.Error(), e.Message(), want)
		}
		for _, v := range []any{e, *e, []*parser.ParseError{e}} {
			if b, ok := written(v, map[string]any{"position": posForm(p), "message": valid(e.Msg)}); !ok {
				t.Failf("the error %+v is written as %s", e, b)
			}
		}
		t.Count("errors")
		t.Distinct(e.Error())
	}
	checkMsg := func(t *fw.T, m *parser.ParserMessage, name string) {
		p := m.Pos()
		t.Eval()
		want := fmt.Sprintf("%s [%d:%d(%d)]: %s", name, p.Line, p.Col, p.Offset, m.Msg)
		if p == ast.NoPosition() {
			want = name + ": " + m.Msg
			t.Count("messages_without_position")
		}
		if m.String() != want || m.Message() != m.Msg || m.Pos() != m.Position {
			t.Failf("the message says %q and %q, expected %q", m.String(), m.Message(), want)
		}
		for _, v := range []any{m, *m, []*parser.ParserMessage{m}, []parser.ParserMessage{*m}} {
			if b, ok := written(v, map[string]any{"position": posForm(p), "message": valid(m.Msg), "type": name}); !ok {
				t.Failf("the message %+v is written as %s", m, b)
			}
		}
		t.Count("messages")
		t.Distinct(m.String())
	}
	kinds := map[parser.MessageType]string{parser.MsgHint: "HINT", parser.MsgWarning: "WARNING", parser.MsgError: "ERROR"}
	c.Run("errors", c.N(12000, 120000), func(t *fw.T) {
		q := mutate(t, gen.Text(t.Rand, gen.Config{MaxNodes: 6, MaxList: 4}.Query(t.Rand), gen.TextStyle{}))
		if chance(t, 20) {
			q = soup(t)
		}
		if chance(t, 3) { // far into a query
			q = strings.Repeat(oneOf(t, " ", "\n", "a:1 AND ", "é:1 OR\n", "b:2 OR "), 1+t.Intn(9000)) + q
			t.Count("far_errors")
		}
		t.Note("query: %q", clip(q))
		_, err := parse(t, q)
		if err == nil {
			return
		}
		var pe *parser.ParseError
		if !errors.As(err, &pe) || pe.Error() != err.Error() {
			t.Failf("no parse error: %T %v", err, err)
		}
		checkError(t, pe)
		t.Sample(map[string]any{"query": clip(q), "error": pe.Error()})
	})
	c.Require("far_errors", 100)
	c.Run("messages", c.N(8000, 80000), func(t *fw.T) {
		q := gen.Text(t.Rand, gen.Config{MaxNodes: 6, MaxList: 4}.Query(t.Rand), gen.TextStyle{})
		t.Note("query: %q", clip(q))
		type rec struct {
			kind parser.MessageType
			pos  ast.Pos
			msg  string
		}
		var plan []rec
		mv := parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error {
			e, ok := n.(*ast.ExprNode)
			if !ok {
				return nil
			}
			var at parser.Positioned = e
			if len(e.RVals) > 0 && chance(t, 50) {
				at = e.RVals[t.Intn(len(e.RVals))]
			}
			s := gen.StrText(t.Rand)
			k := t.Intn(100)
			r := rec{msg: fmt.Sprintf("%d %s %q", k, s, q), pos: at.Pos()}
			switch t.Intn(6) {
			case 0:
				r.kind, r.pos = parser.MsgHint, ast.NoPosition()
				tape.Hint("%d %s %q", k, s, q)
			case 1:
				r.kind = parser.MsgHint
				tape.HintWith(at, "%d %s %q", k, s, q)
			case 2:
				r.kind = parser.MsgHint
				r.pos = anyPos(t)
				tape.HintAt(r.pos, "%d %s %q", k, s, q)
			case 3:
				r.kind, r.pos = parser.MsgWarning, ast.NoPosition()
				tape.Warning("%d %s %q", k, s, q)
			case 4:
				r.kind = parser.MsgWarning
				tape.WarningWith(at, "%d %s %q", k, s, q)
			case 5:
				r.kind = parser.MsgWarning
				r.pos = at.Pos().Start()
				if w := at.Pos(); r.pos != (ast.Pos{Line: w.Line, Col: w.Col, Offset: w.Offset, Len: 1}) {
					t.Failf("the start of %+v is %+v", w, r.pos)
				}
				tape.WarningAt(r.pos, "%d %s %q", k, s, q)
			}
			plan = append(plan, r)
			return nil
		})
		if _, err := parse(t, q, parser.Visitors(mv)); err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		msgs := mv.Messages()
		if len(msgs) != len(plan) {
			t.Failf("%d messages, expected %d", len(msgs), len(plan))
		}
		for i, r := range plan {
			m := msgs[i]
			if m.Type != r.kind || m.Pos() != r.pos || m.Message() != r.msg {
				t.Failf("message %d is %+v, expected %+v", i, m, r)
			}
			checkMsg(t, m, kinds[r.kind])
		}
		t.Count("tapes")
	})
	c.Run("made", c.N(4000, 40000), func(t *fw.T) {
		// errors made by visitors, with and without a position
		q := gen.Text(t.Rand, gen.Config{MaxNodes: 4, MaxList: 3}.Query(t.Rand), gen.TextStyle{})
		t.Note("query: %q", clip(q))
		text := gen.StrText(t.Rand)
		var want ast.Pos
		var tapeMsg *parser.MessageVisitor
		how := t.Intn(7)
		say := func(n ast.Node, tape *parser.MessageTape) error {
			e, ok := n.(*ast.ExprNode)
			if !ok {
				return nil
			}
			want = e.Pos()
			switch how {
			case 0:
				return parser.ErrorWith(e, text)
			case 1:
				want = anyPos(t)
				return parser.ErrorAt(want, text)
			case 2:
				want = ast.NoPosition()
				return errors.New(text)
			case 3:
				want = ast.NoPosition()
				tape.Error("%s", text)
			case 4:
				tape.ErrorWith(e, "%s", text)
			case 5:
				want = e.Pos().Start()
				tape.ErrorAt(want, "%s", text)
			case 6:
				want = ast.NoPosition()
				return fmt.Errorf("%s", text)
			}
			return parser.SkipAll
		}
		tapeMsg = parser.NewMessageVisitor(say)
		_, err := parse(t, q, parser.Visitors(tapeMsg))
		var pe *parser.ParseError
		if !errors.As(err, &pe) {
			t.Failf("no parse error: %T %v", err, err)
		}
		if pe.Pos() != want || !strings.HasSuffix(pe.Message(), text) || how < 2 && pe.Message() != text {
			t.Failf("the error is %+v, expected %q at %+v", pe, text, want)
		}
		if pe.Pos().IsZero() != (want == ast.NoPosition()) {
			t.Failf("the position %+v says that it is none: %v", pe.Pos(), pe.Pos().IsZero())
		}
		checkError(t, pe)
		for _, m := range tapeMsg.Messages() {
			checkMsg(t, m, "ERROR")
		}
		t.Count("made_errors")
	})
	c.Run("statistics", c.N(3000, 30000), func(t *fw.T) {
		q := gen.Config{MaxNodes: 12, MaxList: 4}.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		t.Note("query: %q", clip(text))
		m := matcher(t, text)
		for n := t.Intn(6); n > 0; n-- {
			match(t, m, []byte(gen.Doc(t.Rand, q).Text()))
		}
		var st *jsonmatcher.MatchStats
		t.Call("statistics", func() { st = m.Stats() })
		b, err := json.Marshal(st)
		if err != nil {
			t.Failf("the statistics cannot be written: %v", err)
		}
		t.Eval()
		var back, want any
		if err := json.Unmarshal(b, &back); err != nil {
			t.Failf("the statistics are written as %s: %v", b, err)
		}
		wb, _ := json.Marshal(statForm(st))
		json.Unmarshal(wb, &want)
		if !reflect.DeepEqual(back, want) {
			t.Failf("the statistics are written as %s, expected %s", clip(string(b)), clip(string(wb)))
		}
		t.Count("statistics")
		t.Distinct(string(b))
	})
	c.Require("errors", 5000)
	c.Require("messages", 5000)
	c.Require("messages_without_position", 500)
	c.Require("made_errors", 2000)
	c.Require("statistics", 1000)
}

func statForm(s *jsonmatcher.MatchStats) map[string]any {
	out := map[string]any{"node_name": valid(s.NodeName), "times_checked": s.TimesChecked, "times_matched": s.TimesMatched}
	var kids []any
	for _, k := range s.Children {
		kids = append(kids, statForm(k))
	}
	if len(kids) > 0 {
		out["children"] = kids
	}
	return out
}

// valid is text as JSON can hold it.
func valid(s string) string { return string([]rune(s)) }

// holds tells whether a JSON value has all that another has.
func holds(v, w any) bool {
	vm, ok := v.(map[string]any)
	wm, wok := w.(map[string]any)
	if !ok || !wok {
		return reflect.DeepEqual(v, w)
	}
	for k, x := range wm {
		y, ok := vm[k]
		if !ok || !holds(y, x) {
			return false
		}
	}
	return true
}
