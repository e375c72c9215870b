package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"strings"
	"unicode/utf8"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C18",
		Rule: "the position of every value and condition of random queries over lines and multibyte text, of bad literals and of syntax errors; non-trivial: a distinct query text with at least one position compared",
		Run:  runPositions,
	})
	fw.Register(&fw.Prop{
		ID:   "C19",
		Rule: "random trees parsed with up to five visitors that skip, record messages or fail at chosen nodes; the traces of calls and the outcome are compared with a reference walk; non-trivial: a distinct (query, plan of actions) pair",
		Run:  runVisitors,
	})
	fw.Register(&fw.Prop{
		ID:   "C20",
		Rule: "queries whose terms come from a table with the advisories each causes, in random trees; kinds, positions and order are compared; non-trivial: a distinct query with at least one advisory expected",
		Run:  runAdvisories,
	})
	fw.Register(&fw.Prop{
		ID:   "C21",
		Rule: "messages with every kind of position on queries of many lengths and scripts, printed with every kind of width; the printed text is taken apart again; non-trivial: a distinct printed text with a mark",
		Run:  runPrinting,
	})
}

// parallelExprs pairs the conditions of both trees.
func astExprs(n ast.Node, out []*ast.ExprNode) []*ast.ExprNode {
	switch a := n.(type) {
	case *ast.AndNode:
		return astExprs(a.Right, astExprs(a.Left, out))
	case *ast.OrNode:
		return astExprs(a.Right, astExprs(a.Left, out))
	case *ast.NotNode:
		return astExprs(a.Expr, out)
	case *ast.ExprNode:
		return append(out, a)
	}
	return out
}

func consistent(q string, p ast.Pos) string {
	if p == ast.NoPosition() {
		return ""
	}
	if p.Offset < 0 || p.Offset > len(q) {
		return fmt.Sprintf("offset %d is outside of the query of %d bytes", p.Offset, len(q))
	}
	if p.Offset < len(q) && !utf8.RuneStart(q[p.Offset]) {
		return fmt.Sprintf("offset %d is inside of a character", p.Offset)
	}
	w := posOf(q, p.Offset, p.Offset)
	if p.Offset < len(q) && q[p.Offset] == '\n' && p.Col == 0 {
		// a line break counts as column 0 of the line it begins
		w.Line, w.Col = w.Line+1, 0
	}
	if w.Line != p.Line || w.Col != p.Col {
		return fmt.Sprintf("line %d column %d is not at offset %d, which is line %d column %d", p.Line, p.Col, p.Offset, w.Line, w.Col)
	}
	if p.Len < 0 || p.Len > 1 && p.Len > utf8.RuneCountInString(q[p.Offset:]) {
		return fmt.Sprintf("length %d from offset %d reaches beyond the query", p.Len, p.Offset)
	}
	return ""
}

// placed compares a tree and the positions in it with the text it came from.
func placed(text string, want *ref.Node, n ast.Node) string {
	got, err := fromAST(n)
	if err != nil {
		return err.Error()
	}
	if got.Dump() != want.Dump() {
		return fmt.Sprintf("parsed as %s, expected %s", clip(got.Dump()), clip(want.Dump()))
	}
	as, ws := astExprs(n, nil), want.Exprs()
	for i, a := range as {
		w := ws[i]
		if p := posOf(text, w.Lo, w.Hi); a.Pos() != p {
			return fmt.Sprintf("condition %q is at %+v, expected %+v", text[w.Lo:w.Hi], a.Pos(), p)
		}
		for k, v := range a.RVals {
			if p := posOf(text, w.Vals[k].Lo, w.Vals[k].Hi); v.Pos() != p {
				return fmt.Sprintf("value %q is at %+v, expected %+v", text[w.Vals[k].Lo:w.Vals[k].Hi], v.Pos(), p)
			}
		}
	}
	return ""
}

// gap is spacing with line breaks.
func gap(t *fw.T) string {
	return oneOf(t, " ", "  ", "\n", "\t", "\r\n", " \n ", "\n\n")
}

func runPositions(c *fw.Ctx) {
	cfg := gen.Config{MaxNodes: 25, MaxList: 6}
	c.Run("tree", c.N(12000, 120000), func(t *fw.T) {
		q := cfg.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: gen.Pick(t.Rand, 0, 20)})
		if chance(t, 30) {
			text = gap(t) + text + gap(t)
		}
		if chance(t, 30) {
			text = `"é大😀":"ñ…"` + gap(t) + oneOf(t, "AND", "OR") + gap(t) + "(" + text + ")"
		}
		t.Note("query: %q", clip(text))
		want, err := ref.Parse(text)
		if err != nil {
			c.Fatalf("generated query %q: %v", text, err)
		}
		n, err := parse(t, text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		if bad := placed(text, want, n); bad != "" {
			t.Failf("%s", bad)
		}
		as := want.Exprs()
		for _, e := range as {
			t.Eval()
			t.Count("conditions")
			c.Count("values", int64(len(e.Vals)))
		}
		if strings.Contains(text, "\n") {
			t.Count("multi_line")
		}
		if len(text) != utf8.RuneCountInString(text) {
			t.Count("multibyte")
		}
		t.Distinct(text)
		t.Sample(map[string]any{"query": clip(text), "conditions": len(as)})
	})
	// literals that denote nothing
	c.Run("literal", c.N(5000, 50000), func(t *fw.T) {
		bad := oneOf(t, "99999999999999999999", "-9223372036854775809", strings.Repeat("9", 400)+".0", "300.1.1.1", "1.2.3.4/33", "2020-13-01", "2021-02-29", "2020-01-01T25:00:00Z", "/(/", "/é(/", "/a**/", "/[b-a]/", "/大{2,1}/")
		pre := oneOf(t, "", `"é":"大" AND `, "x:1\nOR ", "!(b:2) AND\r\n\t", "(((", `y:"`+strings.Repeat("長", 30)+`" AND `)
		field := oneOf(t, "a:", `"ü".b: `, "a:\n", "a:( 1,\n", `a:("é" , `)
		post := ""
		if strings.Contains(field, "(") {
			post = oneOf(t, ")", " , 2)")
		}
		post += strings.Repeat(")", strings.Count(pre, "(")-strings.Count(pre, ")")) + oneOf(t, "", " AND z:1", "\nOR b:2 ", "  ")
		text := pre + field + bad + post
		t.Note("query: %q", clip(text))
		_, err := parse(t, text)
		var pe *parser.ParseError
		if !errors.As(err, &pe) {
			t.Failf("no parse error: %v", err)
		}
		t.Eval()
		lo := len(pre) + len(field)
		if p := posOf(text, lo, lo+len(bad)); pe.Pos() != p {
			t.Failf("the complaint %q is at %+v, expected %+v", pe.Message(), pe.Pos(), p)
		}
		t.Count("bad_literals")
		t.Distinct(text)
	})
	// misuse of an operator
	c.Run("semantic", c.N(3000, 30000), func(t *fw.T) {
		q := gen.Config{MaxNodes: 12, MaxList: 3}.Query(t.Rand)
		bad := ref.Expr([]string{oneOf(t, "v", "é", "大 x")}, oneOf(t, "<", ">", "><", "~", "<=", ">="), smallVal(t, gen.Pick(t.Rand, gen.Types...)), smallVal(t, gen.Pick(t.Rand, gen.Types...)))
		q = place(t, q, bad)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		agreeAt(t, text)
		t.Distinct(text)
	})
	c.Run("syntax", c.N(20000, 200000), func(t *fw.T) {
		q := gen.Config{MaxNodes: 6, MaxList: 4}.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		if chance(t, 50) {
			text = `"é😀":"大"` + gap(t) + "AND" + gap(t) + text
		}
		text = mutate(t, text)
		t.Note("query: %q", clip(text))
		_, err := parse(t, text)
		if err == nil {
			return
		}
		var pe *parser.ParseError
		if !errors.As(err, &pe) {
			t.Failf("no parse error: %v", err)
		}
		t.Eval()
		if !utf8.ValidString(text) {
			return
		}
		if b := consistent(text, pe.Pos()); b != "" {
			t.Failf("the error %q is at %+v: %s", pe.Message(), pe.Pos(), b)
		}
		t.Count("syntax_errors")
		t.Distinct(text)
	})
	// a query cut off, or followed by something that does not belong
	c.Run("place", c.N(4000, 40000), func(t *fw.T) {
		q := gen.Config{MaxNodes: 5, MaxList: 3}.Query(t.Rand)
		text := strings.TrimRight(gen.Text(t.Rand, q, gen.TextStyle{}), " \t\r\n")
		junk := oneOf(t, "}", ")", "]", "|", "&", ";", "大")
		sp := gap(t)
		bad := text + sp + junk + oneOf(t, "", " x", "\n")
		t.Note("query: %q", clip(bad))
		_, err := parse(t, bad)
		var pe *parser.ParseError
		if !errors.As(err, &pe) {
			t.Failf("no parse error: %v", err)
		}
		t.Eval()
		lo := len(text) + len(sp)
		if p := posOf(bad, lo, lo+len(junk)); pe.Pos() != p {
			t.Failf("the error %q is at %+v, expected at the first character that does not belong, %+v", pe.Message(), pe.Pos(), p)
		}
		t.Count("junk_located")
	})
	c.Require("values", 10000)
	c.Require("multi_line", 1000)
	c.Require("multibyte", 1000)
	c.Require("syntax_errors", 5000)
}

// action of a visitor at a node
type action int

const (
	actNone action = iota
	actSkip
	actSkipAll
	actParseErr
	actOtherErr
	actTapeErr
	actHint
	actWarn
)

func preorder(n ast.Node, out []ast.Node) []ast.Node {
	out = append(out, n)
	switch a := n.(type) {
	case *ast.AndNode:
		return preorder(a.Right, preorder(a.Left, out))
	case *ast.OrNode:
		return preorder(a.Right, preorder(a.Left, out))
	case *ast.NotNode:
		return preorder(a.Expr, out)
	}
	return out
}

func refPre(n *ref.Node, out []*ref.Node) []*ref.Node {
	if n == nil {
		return out
	}
	return refPre(n.R, refPre(n.L, append(out, n)))
}

type wantMsg struct {
	typ parser.MessageType
	pos ast.Pos
	msg string
}

// visitorModel predicts what one visitor does.
type visitorModel struct {
	tape  bool
	plan  map[int]action // by preorder index
	order []int
	msgs  []wantMsg
	err   string // message of the failure
	errAt ast.Pos
	fail  bool
}

func (m *visitorModel) predict(q *ref.Node, text string) {
	all := refPre(q, nil)
	index := map[*ref.Node]int{}
	for i, n := range all {
		index[n] = i
	}
	stop := false
	var walk func(n *ref.Node)
	walk = func(n *ref.Node) {
		if n == nil || stop {
			return
		}
		i := index[n]
		m.order = append(m.order, i)
		where := ast.NoPosition()
		if n.Kind == ref.KExpr {
			where = posOf(text, n.Lo, n.Hi)
		}
		switch m.plan[i] {
		case actSkip:
			return
		case actSkipAll:
			stop = true
			return
		case actParseErr:
			stop, m.fail, m.err, m.errAt = true, true, fmt.Sprintf("failed at %d", i), where
			return
		case actOtherErr:
			stop, m.fail, m.err, m.errAt = true, true, fmt.Sprintf("other failure %d", i), ast.NoPosition()
			return
		case actTapeErr:
			if m.tape {
				m.msgs = append(m.msgs, wantMsg{parser.MsgError, where, fmt.Sprintf("taped %d", i)})
			}
		case actHint:
			if m.tape {
				m.msgs = append(m.msgs, wantMsg{parser.MsgHint, where, fmt.Sprintf("hint %d of 100%%", i)})
			}
		case actWarn:
			if m.tape {
				m.msgs = append(m.msgs, wantMsg{parser.MsgWarning, where, fmt.Sprintf("warn %d", i)})
			}
		}
		walk(n.L)
		walk(n.R)
	}
	walk(q)
	if !m.fail {
		for _, w := range m.msgs {
			if w.typ == parser.MsgError {
				m.fail, m.err, m.errAt = true, w.msg, w.pos
				break
			}
		}
	}
}

func runVisitors(c *fw.Ctx) {
	// one message visitor over many queries; what was handed out stays
	c.Run("reused", c.N(1500, 15000), func(t *fw.T) {
		round, k := 0, 0
		mv := parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error {
			for i := t.Intn(3); i > 0; i-- {
				k++
				where := ast.NoPosition()
				if e, ok := n.(*ast.ExprNode); ok {
					where = e.Pos()
				}
				switch k % 4 {
				case 0:
					tape.HintAt(where, "round %d message %d", round, k)
				case 1:
					tape.WarningAt(where, "round %d message %d", round, k)
				case 2:
					tape.Hint("round %d message %d", round, k)
				default:
					tape.Warning("round %d message %d", round, k)
				}
			}
			return nil
		})
		type handed struct {
			msgs []*parser.ParserMessage
			seen []string
		}
		view := func(ms []*parser.ParserMessage) (out []string) {
			for _, m := range ms {
				out = append(out, fmt.Sprintf("%s %+v", m.String(), m.Pos()))
			}
			return
		}
		var all []handed
		for rounds := 2 + t.Intn(6); round < rounds; round++ {
			text := gen.Text(t.Rand, gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 4, 12), MaxList: 3}.Query(t.Rand), gen.TextStyle{})
			if chance(t, 15) {
				text += " AND" // fails before anything is visited
			}
			t.Note("query %d: %q", round, clip(text))
			k = 0
			if n, err := parse(t, text, parser.Visitors(mv)); err != nil && !strings.HasSuffix(text, " AND") {
				t.Failf("valid query rejected: %v", err)
			} else if err == nil && n == nil {
				t.Failf("no tree")
			}
			ms := mv.Messages()
			t.Eval()
			if len(ms) < k {
				t.Failf("%d messages were recorded, %d are there", k, len(ms))
			}
			for i, m := range ms[len(ms)-k:] {
				if w := fmt.Sprintf("round %d message %d", round, i+1); m.Message() != w {
					t.Failf("the message %q is there, expected %q", m.Message(), w)
				}
			}
			all = append(all, handed{ms, view(ms)})
			for i, h := range all {
				if now := view(h.msgs); fmt.Sprint(now) != fmt.Sprint(h.seen) {
					t.Failf("the messages handed out after query %d were %q, after query %d they are %q", i, h.seen, round, now)
				}
				t.Count("kept")
			}
			t.Distinct("reused" + text)
		}
	})
	c.Require("kept", 3000)
	c.Run("plans", c.N(15000, 150000), func(t *fw.T) {
		q := unshare(gen.Config{MaxNodes: gen.Pick(t.Rand, 3, 10, 40), MaxList: 3}.Query(t.Rand))
		text := gen.Text(t.Rand, q, gen.TextStyle{Parens: 10})
		q, err := ref.Parse(text)
		if err != nil {
			c.Fatalf("generated query %q: %v", text, err)
		}
		size := len(refPre(q, nil))
		nv := 1 + t.Intn(5)
		models := make([]*visitorModel, nv)
		var opts []parser.Option
		var traces = make([][]ast.Node, nv)
		var tapes = make([]*parser.MessageVisitor, nv)
		var batch []parser.Visitor
		log := []int{} // which visitor was called, in order
		desc := ""
		for i := range models {
			m := &visitorModel{tape: chance(t, 50), plan: map[int]action{}}
			for k := t.Intn(4); k > 0; k-- {
				a := gen.Pick(t.Rand, actSkip, actSkip, actSkip, actHint, actHint, actWarn, actSkipAll)
				if chance(t, 12) {
					a = gen.Pick(t.Rand, actParseErr, actOtherErr, actTapeErr, actTapeErr)
				}
				m.plan[t.Intn(size)] = a
			}
			models[i] = m
			m.predict(q, text)
			desc += fmt.Sprintf("visitor %d tape=%v plan=%v; ", i, m.tape, m.plan)
			i := i
			next := 0
			at := func(n ast.Node) (int, action) {
				// the index is that of the predicted order
				idx := -1
				if next < len(m.order) {
					idx = m.order[next]
				}
				next++
				traces[i] = append(traces[i], n)
				log = append(log, i)
				return idx, m.plan[idx]
			}
			act := func(n ast.Node, tape *parser.MessageTape) error {
				idx, a := at(n)
				where := ast.NoPosition()
				e, isExpr := n.(*ast.ExprNode)
				if isExpr {
					where = e.Pos()
				}
				switch a {
				case actSkip:
					return parser.Skip
				case actSkipAll:
					return parser.SkipAll
				case actParseErr:
					if isExpr && idx%2 == 0 {
						return parser.ErrorWith(e, fmt.Sprintf("failed at %d", idx))
					}
					return parser.ErrorAt(where, fmt.Sprintf("failed at %d", idx))
				case actOtherErr:
					return fmt.Errorf("other failure %d", idx)
				}
				if tape == nil {
					return nil
				}
				switch a {
				case actTapeErr:
					switch {
					case !isExpr:
						tape.Error("taped %d", idx)
					case idx%2 == 0:
						tape.ErrorWith(e, "taped %d", idx)
					default:
						tape.ErrorAt(where, "taped %d", idx)
					}
				case actHint:
					switch {
					case !isExpr:
						tape.Hint("hint %d of %d%%", idx, 100)
					case idx%2 == 0:
						tape.HintWith(e, "hint %d of %d%%", idx, 100)
					default:
						tape.HintAt(where, "hint %d of %d%%", idx, 100)
					}
				case actWarn:
					switch {
					case !isExpr:
						tape.Warning("%s %d", "warn", idx)
					case idx%2 == 0:
						tape.WarningWith(e, "%s %d", "warn", idx)
					default:
						tape.WarningAt(where, "%s %d", "warn", idx)
					}
				}
				return nil
			}
			var v parser.Visitor
			if m.tape {
				tapes[i] = parser.NewMessageVisitor(act)
				v = tapes[i]
			} else {
				v = parser.VisitorFunc(func(n ast.Node) error { return act(n, nil) })
			}
			batch = append(batch, v)
			if chance(t, 50) {
				opts = append(opts, parser.Visitors(batch...))
				batch = nil
			}
		}
		opts = append(opts, parser.Visitors(batch...))
		t.Note("query: %s", clip(text))
		t.Note("%s", clip(desc))
		n, perr := parse(t, text, opts...)
		t.Eval()
		// who had to run
		failed := -1
		for i, m := range models {
			if m.fail {
				failed = i
				break
			}
		}
		var wantLog []int
		var root ast.Node
		for i, m := range models {
			if failed >= 0 && i > failed {
				if len(traces[i]) > 0 {
					t.Failf("visitor %d was called although visitor %d had failed", i, failed)
				}
				continue
			}
			if root == nil && len(traces[i]) > 0 {
				root = traces[i][0]
				got, err := fromAST(root)
				if err != nil || got.Dump() != q.Dump() {
					t.Failf("the first node visited is not the root: %v", root)
				}
			}
			if root == nil {
				t.Failf("visitor %d was never called", i)
			}
			all := preorder(root, nil)
			if len(traces[i]) != len(m.order) {
				t.Failf("visitor %d was called %d times, expected %d", i, len(traces[i]), len(m.order))
			}
			for k, idx := range m.order {
				if traces[i][k] != all[idx] {
					t.Failf("call %d of visitor %d was with %s, expected %s", k, i, clip(traces[i][k].String()), clip(all[idx].String()))
				}
				wantLog = append(wantLog, i)
			}
			if m.tape {
				msgs := tapes[i].Messages()
				if len(msgs) != len(m.msgs) {
					t.Failf("visitor %d recorded %d messages, expected %d", i, len(msgs), len(m.msgs))
				}
				for k, w := range m.msgs {
					g := msgs[k]
					if g.Type != w.typ || g.Pos() != w.pos || g.Message() != w.msg {
						t.Failf("message %d of visitor %d is %+v, expected %+v", k, i, *g, w)
					}
				}
				c.Count("messages", int64(len(msgs)))
			}
			c.Count("calls", int64(len(m.order)))
		}
		if fmt.Sprint(log) != fmt.Sprint(wantLog) {
			t.Failf("the visitors were called in the order %v, expected %v", log, wantLog)
		}
		if failed < 0 {
			if perr != nil {
				t.Failf("parsing failed: %v", perr)
			}
			if n != root {
				t.Failf("the tree returned is not the tree visited")
			}
			t.Count("accepted")
		} else {
			m := models[failed]
			var pe *parser.ParseError
			if !errors.As(perr, &pe) {
				t.Failf("visitor %d failed but the parse gave %v", failed, perr)
			}
			if !strings.Contains(pe.Message(), m.err) || pe.Pos() != m.errAt {
				t.Failf("the parse failed with %q at %+v, expected %q at %+v", pe.Message(), pe.Pos(), m.err, m.errAt)
			}
			t.Count("failed")
		}
		t.Distinct(text + desc)
		t.Sample(map[string]any{"query": clip(text), "visitors": clip(desc), "failed": failed})
	})
	c.Require("calls", 50000)
	c.Require("failed", 500)
	c.Require("messages", 2000)
}

// advice of the table: regular expression and the kinds of its advisories
var adviceTable = []struct {
	src   string
	kinds string // H or W each
}{
	{"foo", ""}, {"", ""}, {"^foo$", ""}, {"fo+", ""}, {`\d+`, ""}, {"a.b", ""}, {"foo.*bar", ""}, {"(?i)foo", ""}, {"é", ""}, {"大+", ""}, {"[a-z]", ""}, {"x*", ""},
	{".*foo", "HH"}, {"foo.*", "H"}, {".*", "H"}, {".*foo.*", "HHH"}, {"foo.*bar.*", "HH"},
	{"(foo)", "H"}, {"(?:foo)", ""}, {"(a|b)c", ""}, {"(foo.*bar)", "H"},
	{"foo|bar", "H"}, {"(foo|bar)", "HH"}, {"foo|ba+", ""}, {"a|b", ""},
	{"(?i)é", "W"}, {"(?i).*foo", "HH"}, {"(?i)foo.*", "H"}, {"(?i)大.*", "WH"},
	{"(.*foo)", "HH"},
}

func runAdvisories(c *fw.Ctx) {
	c.Run("table", c.N(12000, 120000), func(t *fw.T) {
		var wantKinds []string
		n := 1 + t.Intn(5)
		var parts []string
		type exp struct {
			kind   string
			lo, hi int
		}
		var want []exp
		text := oneOf(t, "", " ", "\n", `"é":1 AND `)
		for i := 0; i < n; i++ {
			if i > 0 {
				text += gap(t) + oneOf(t, "AND", "OR") + gap(t)
			}
			text += oneOf(t, "", "", "NOT ", "!")
			closing := ""
			if chance(t, 25) {
				text += "("
				closing = ")"
			}
			text += oneOf(t, "f", `"大".x`, "a.b.c", `"q r"`) + ":"
			op := oneOf(t, "", "", "", "~", "<", "><", "exists", "null")
			text += op
			term := func() {
				lo := len(text)
				kinds := ""
				switch k := t.Intn(7); {
				case k < 4 && op != "<":
					e := adviceTable[t.Intn(len(adviceTable))]
					text += "/" + e.src + "/"
					kinds = e.kinds
					if op == "~" {
						kinds = "W" + kinds
					}
				case k == 4 && op != "<":
					text += gen.QuoteAQL(t.Rand, gen.StrTerm(t.Rand), 5)
					if op == "~" {
						kinds = "W"
					}
				case k == 5 && op != "~":
					v := gen.TimeVal(t.Rand, gen.Instant(t.Rand), chance(t, 50))
					text += v.Text
					if op == "" && !v.Day {
						kinds = "W"
					}
				default:
					if op == "~" {
						text += `"z"`
						kinds = "W"
						break
					}
					text += oneOf(t, "1", "2.5", "-3")
				}
				for _, k := range kinds {
					want = append(want, exp{string(k), lo, len(text)})
					wantKinds = append(wantKinds, string(k))
				}
			}
			switch op {
			case "exists", "null":
			case "><":
				text += "(2020-01-01T00:00:00Z," + gap(t) + "2021-01-01T00:00:00Z)"
			case "<":
				term()
			default:
				text += oneOf(t, "", " ", "\n")
				if chance(t, 40) {
					text += "("
					for k := 1 + t.Intn(4); k > 0; k-- {
						term()
						if k > 1 {
							text += oneOf(t, ",", " , ", ",\n")
						}
					}
					text += ")"
				} else {
					term()
				}
			}
			text += closing
			parts = append(parts, op)
		}
		q, err := ref.Parse(text)
		if err != nil {
			t.Count("not_a_query") // repeated values in a list
			return
		}
		t.Note("query: %q", clip(text))
		m := matcher(t, text)
		msgs := m.Messages()
		t.Eval()
		var got []string
		for _, g := range msgs {
			got = append(got, fmt.Sprintf("%s@%d+%d", g.String(), g.Pos().Offset, g.Pos().Len))
		}
		if len(msgs) != len(want) {
			t.Failf("%d advisories, expected %d (%v): %q", len(msgs), len(want), wantKinds, got)
		}
		for i, w := range want {
			g := msgs[i]
			kind := map[parser.MessageType]string{parser.MsgHint: "H", parser.MsgWarning: "W", parser.MsgError: "E"}[g.Type]
			if kind != w.kind || g.Pos() != posOf(text, w.lo, w.hi) {
				t.Failf("advisory %d is %q at %+v, expected %s at %q %+v", i, g.String(), g.Pos(), w.kind, text[w.lo:w.hi], posOf(text, w.lo, w.hi))
			}
			if g.Message() == "" || strings.Contains(g.Message(), "%!") {
				t.Failf("advisory %d has the text %q", i, g.Message())
			}
			p := g.Pos()
			if s := fmt.Sprintf("%s [%d:%d(%d)]: %s", map[string]string{"H": "HINT", "W": "WARNING"}[kind], p.Line, p.Col, p.Offset, g.Message()); g.String() != s {
				t.Failf("advisory %d says %q, expected %q", i, g.String(), s)
			}
			b, err := json.Marshal(g)
			var back struct {
				Position ast.Pos
				Message  string
				Type     string
			}
			if err == nil {
				err = json.Unmarshal(b, &back)
			}
			if err != nil || back.Position != p || back.Message != g.Message() || !strings.HasPrefix(back.Type, w.kind) {
				t.Failf("advisory %d is written as %s (%v)", i, b, err)
			}
			t.Count("advisory " + kind)
		}
		// acceptance and matching are as without advisories
		for i := 0; i < 2; i++ {
			d := gen.Doc(t.Rand, q)
			same(t, m, q, d, d.Text())
		}
		if len(want) > 0 {
			t.Distinct(text)
			t.Sample(map[string]any{"query": clip(text), "advisories": got})
		} else {
			t.Count("without_advisories")
		}
		_ = parts
	})
	c.Run("accepted", c.N(6000, 60000), func(t *fw.T) {
		// the matcher accepts exactly what the parser accepts
		text := gen.Text(t.Rand, gen.Config{MaxNodes: 5, MaxList: 4}.Query(t.Rand), gen.TextStyle{})
		if chance(t, 50) {
			text = mutate(t, text)
		}
		t.Note("query: %q", clip(text))
		_, perr := parse(t, text)
		var m *jsonmatcher.Matcher
		var merr error
		t.Call("building a matcher", func() { m, merr = jsonmatcher.NewMatcher(text) })
		t.Eval()
		if fmt.Sprint(perr) != fmt.Sprint(merr) || (m == nil) != (merr != nil) {
			t.Failf("the parser says %v, the matcher says %v", perr, merr)
		}
		t.Count("acceptance_compared")
	})
	c.Require("advisory H", 2000)
	c.Require("advisory W", 2000)
	c.Require("without_advisories", 100)
}

type customMsg struct {
	pos ast.Pos
	msg string
}

func (m customMsg) Pos() ast.Pos    { return m.pos }
func (m customMsg) Message() string { return m.msg }

const splitTmpl = "⟦{{.Type}}⟧{{.Message}}⟦{{.HasHL}}⟧{{.QueryPre}}⟦{{.QueryHL}}⟧{{.QueryPost}}⟦{{.Query}}⟧"

func runPrinting(c *fw.Ctx) {
	printed := func(t *fw.T, q string) {
		if !utf8.ValidString(q) || strings.ContainsAny(q, "\x00⟦⟧") {
			return
		}
		rs := []rune(q)
		pos, off, length := ast.NoPosition(), 0, 0
		if chance(t, 85) {
			off = t.Intn(len(rs) + 1)
			length = min(len(rs)-off, 1+gen.Size(t.Rand, 10, max(150, len(rs)/3)))
			if chance(t, 10) {
				off, length = 0, len(rs)
			}
			lo := len(string(rs[:off]))
			pos = posOf(q, lo, lo+len(string(rs[off:off+length])))
			if off == len(rs) {
				length, pos.Len = 1, 1 // just past the end
			}
		}
		text := oneOf(t, "something", "expected <b> & \"c\"", "大 message", "x%d%s", "a 'quoted' thing", "")
		if chance(t, 30) {
			text = oneOf(t, "one\ntwo", "\n", "a\n\nb\n", "tab\there", "  spaces  ", "^^^", "    x\n    ^^", "...", "ERROR: x", "{{.Message}}", "x\r\ny", "é\n大")
			if chance(t, 40) {
				text = strings.Repeat(oneOf(t, "long ", "長", "a\n"), 1+t.Intn(500)) + text
			}
			t.Count("odd_messages")
		}
		kind, typ := "", ""
		var msg fmtmsg.Message
		switch t.Intn(5) {
		case 0:
			kind, typ, msg = "ERROR", "error", parser.ErrorAt(pos, text)
		case 1:
			kind, typ, msg = "ERROR", "error", &parser.ParserMessage{Position: pos, Msg: text, Type: parser.MsgError}
		case 2:
			kind, typ, msg = "WARNING", "warning", &parser.ParserMessage{Position: pos, Msg: text, Type: parser.MsgWarning}
		case 3:
			kind, typ, msg = "INFO", "info", &parser.ParserMessage{Position: pos, Msg: text, Type: parser.MsgHint}
		case 4:
			msg = customMsg{pos, text}
		}
		width := gen.Pick(t.Rand, 0, -1, -100, 1, 2, 3, 10, 40, 80, len(rs), len(rs)+1, max(len(rs)-1, 1), 1+t.Intn(150))
		t.Note("query: %q, position %+v, width %d", clip(q), pos, width)
		var out, hout string
		f := fmtmsg.NewTerminalFormatter(width)
		asHTML := chance(t, 70)
		read := func(s string) string { return s }
		if asHTML {
			read = html.UnescapeString
		}
		hf, err := fmtmsg.NewFormatter(splitTmpl, asHTML, width)
		if err != nil {
			c.Fatalf("%v", err)
		}
		t.Call("printing", func() { out = f.WithQuery(q).Sprint(msg) })
		t.Call("printing", func() { hout = hf.WithQuery(q).Sprint(msg) })
		var fp strings.Builder
		t.Call("printing", func() { f.WithQuery(q).Fprint(&fp, msg) })
		t.Eval()
		if fp.String() != out {
			t.Failf("printing to a writer gave %q, to a string %q", fp.String(), out)
		}
		head := kind + ": " + text
		if !strings.HasPrefix(out, head) {
			t.Failf("printed %q, expected it to begin with %q", out, head)
		}
		rest := out[len(head):]
		part := strings.Split(hout, "⟦")
		if len(part) != 5 {
			t.Failf("the formatter printed %q", hout)
		}
		get := func(i int) (string, string) {
			a, b, ok := strings.Cut(part[i], "⟧")
			if !ok {
				t.Failf("the formatter printed %q", hout)
			}
			return read(a), read(b)
		}
		gotTyp, gotMsg := get(1)
		hasHL, pre := get(2)
		hl, post := get(3)
		query, _ := get(4)
		if gotTyp != typ || gotMsg != text || hasHL != fmt.Sprint(pos != ast.NoPosition()) {
			t.Failf("the formatter printed type %q, message %q, mark %s", gotTyp, gotMsg, hasHL)
		}
		if pos == ast.NoPosition() {
			if strings.TrimSpace(rest) != "" || pre != q || hl != "" || post != "" || query != q {
				t.Failf("a message without a position was printed as %q and %q", out, hout)
			}
			t.Count("without_position")
			return
		}
		lines := strings.TrimSuffix(strings.TrimPrefix(rest, "\n"), "\n")
		i := strings.LastIndexByte(lines, '\n')
		if i < 0 || !strings.HasPrefix(lines, "    ") || !strings.HasPrefix(lines[i+1:], "    ") {
			t.Failf("printed %q", out)
		}
		shown, mark := lines[4:i], lines[i+5:]
		carets := strings.TrimLeft(mark, " ")
		pad := len(mark) - len(carets)
		if strings.Trim(carets, "^") != "" || carets == "" {
			t.Failf("the marker line is %q", mark)
		}
		srs := []rune(shown)
		// a window of the query that explains what is shown
		ok := false
		why := "no part of the query explains what is shown"
		for _, lo := range []int{0, off + 3 - pad} {
			lead := 0
			if lo > 0 {
				lead = 3
			} else if lo < 0 || pad != off {
				continue
			}
			for _, trail := range []int{0, 3} {
				ro := lo + len(srs) - lead - trail
				if ro < lo || ro > len(rs) || (trail == 3) != (ro < len(rs)) {
					continue
				}
				if strings.Repeat(".", lead)+string(rs[lo:ro])+strings.Repeat(".", trail) != shown {
					continue
				}
				switch {
				case width > 0 && ro-lo > width:
					why = fmt.Sprintf("%d characters of the query are shown", ro-lo)
				case (width <= 0 || len(rs) <= width) && (lo > 0 || ro < len(rs)):
					why = "the query was cut although it fits"
				case off < lo || off > ro || off == ro && ro < len(rs):
					why = "the start of the mark is not shown"
				case len(carets) != max(min(off+length, ro)-off, 1):
					why = fmt.Sprintf("%d characters are marked, expected %d", len(carets), max(min(off+length, ro)-off, 1))
				case pre != strings.Repeat(".", lead)+string(rs[lo:off]) || hl != string(rs[off:min(off+length, ro)]) || post != string(rs[min(off+length, ro):ro])+strings.Repeat(".", trail) || query != shown:
					why = fmt.Sprintf("the highlight is %q %q %q", pre, hl, post)
				default:
					ok = true
					if lo > 0 || ro < len(rs) {
						t.Count("cut")
					}
					if ro < off+length && off < len(rs) {
						t.Count("mark_cut")
					}
				}
			}
		}
		if !ok {
			t.Failf("printed %q and %q: %s", clip(out), clip(hout), why)
		}
		t.Count("marked")
		t.Distinct(out)
		t.Sample(map[string]any{"printed": clip(out), "width": width})
	}
	c.Run("printed", c.N(25000, 250000), func(t *fw.T) {
		// the query
		var q string
		switch t.Intn(4) {
		case 0:
			q = gen.Text(t.Rand, gen.Config{MaxNodes: 10, MaxList: 6}.Query(t.Rand), gen.TextStyle{})
		case 1:
			for n := t.Intn(120); n > 0; n-- {
				q += oneOf(t, "a", "b", "é", "大", "😀", " ", ".", "<", "&", `"`, "0", "\t")
			}
		case 2:
			q = strings.Repeat(oneOf(t, "a", "大", ".", "ab "), t.Intn(200))
		default:
			q = mutate(t, gen.Text(t.Rand, gen.Config{MaxNodes: 4}.Query(t.Rand), gen.TextStyle{}))
		}
		printed(t, q)
	})
	// queries of many lines, and far into them
	c.Run("scale", c.N(250, 2500), func(t *fw.T) {
		q := ""
		switch n := around(t, 200000); t.Intn(3) {
		case 0:
			q = longQuery(t, n)
		case 1:
			q = strings.Repeat(oneOf(t, "a", "大", "x\n", "é "), n/4+1)
		case 2:
			q = strings.Repeat(" ", n/4) + oneOf(t, "é", "大", "😀", "\n") + strings.Repeat("x", n/4)
		}
		printed(t, q)
		t.Count("long_queries")
	})
	c.Run("real", c.N(6000, 60000), func(t *fw.T) {
		// errors and advisories of the parser itself can always be printed
		q := mutate(t, gen.Text(t.Rand, gen.Config{MaxNodes: 6, MaxList: 4}.Query(t.Rand), gen.TextStyle{}))
		if !utf8.ValidString(q) {
			return
		}
		var msgs []fmtmsg.Message
		var m *jsonmatcher.Matcher
		var err error
		t.Note("query: %q", clip(q))
		t.Call("building a matcher", func() { m, err = jsonmatcher.NewMatcher(q) })
		var pe *parser.ParseError
		if errors.As(err, &pe) {
			msgs = append(msgs, pe)
		} else if m != nil {
			for _, x := range m.Messages() {
				msgs = append(msgs, x)
			}
		}
		for _, x := range msgs {
			out := ""
			t.Call("printing", func() { out = fmtmsg.NewTerminalFormatter(-1).WithQuery(q).Sprint(x) })
			t.Eval()
			p := x.Pos()
			if p == ast.NoPosition() {
				continue
			}
			n := max(min(p.Len, utf8.RuneCountInString(q[p.Offset:])), 1)
			want := "\n    " + q + "\n    " + strings.Repeat(" ", utf8.RuneCountInString(q[:p.Offset])) + strings.Repeat("^", n) + "\n"
			if !strings.HasSuffix(out, want) {
				t.Failf("printed %q, expected it to end with %q", out, want)
			}
			t.Count("real_messages")
		}
	})
	c.Require("marked", 8000)
	c.Require("cut", 2000)
	c.Require("mark_cut", 200)
	c.Require("long_queries", 100)
	c.Require("without_position", 500)
	c.Require("real_messages", 1000)
}
