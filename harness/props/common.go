// Package props holds the checks, one function per property.
package props

import (
	"fmt"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

// fromAST reads a tree of the parser into the reference form.
func fromAST(n ast.Node) (*ref.Node, error) {
	switch a := n.(type) {
	case *ast.AndNode:
		l, err := fromAST(a.Left)
		if err != nil {
			return nil, err
		}
		r, err := fromAST(a.Right)
		if err != nil {
			return nil, err
		}
		return ref.And(l, r), nil
	case *ast.OrNode:
		l, err := fromAST(a.Left)
		if err != nil {
			return nil, err
		}
		r, err := fromAST(a.Right)
		if err != nil {
			return nil, err
		}
		return ref.Or(l, r), nil
	case *ast.NotNode:
		e, err := fromAST(a.Expr)
		if err != nil {
			return nil, err
		}
		return ref.Not(e), nil
	case *ast.ExprNode:
		e := ref.Expr(a.Field, string(a.Op))
		for _, v := range a.RVals {
			w, err := fromVal(v)
			if err != nil {
				return nil, err
			}
			e.Vals = append(e.Vals, w)
		}
		return e, nil
	}
	return nil, fmt.Errorf("unexpected node %T", n)
}

func fromVal(v ast.Val) (*ref.Val, error) {
	var w *ref.Val
	switch a := v.(type) {
	case *ast.IntVal:
		w = &ref.Val{Type: ref.VInt, I: a.Value()}
	case *ast.FloatVal:
		w = &ref.Val{Type: ref.VFloat, F: a.Value()}
	case *ast.StringVal:
		w = &ref.Val{Type: ref.VString, S: a.Value()}
	case *ast.BoolVal:
		w = &ref.Val{Type: ref.VBool, B: a.Value()}
	case *ast.RegexpVal:
		w = &ref.Val{Type: ref.VRegex, S: a.Value().String(), Re: a.Value()}
	case *ast.NetVal:
		w = &ref.Val{Type: ref.VNet, Addr: a.Value().Addr().As4(), Bits: a.Value().Bits()}
	case *ast.TimeVal:
		w = &ref.Val{Type: ref.VTime, T: a.Value(), Day: a.DayOnly()}
	default:
		return nil, fmt.Errorf("unexpected value %T", v)
	}
	if string(v.Type()) != string(w.Type) {
		return nil, fmt.Errorf("value %T says it is of type %s", v, v.Type())
	}
	w.Text = v.String()
	return w, nil
}

// parse parses with the code under test.
func parse(t *fw.T, q string, opts ...parser.Option) (n ast.Node, err error) {
	t.Call("parsing", func() { n, err = parser.ParseQuery(q, opts...) })
	if (n == nil) == (err == nil) {
		t.Failf("parsing returned neither a tree nor an error, or both: %v, %v", n, err)
	}
	return
}

// matcher builds a matcher for a query that has to be accepted.
func matcher(t *fw.T, q string) (m *jsonmatcher.Matcher) {
	var err error
	t.Call("building a matcher", func() { m, err = jsonmatcher.NewMatcher(q) })
	if err != nil {
		t.Failf("valid query rejected: %v", err)
	}
	return m
}

// match runs a matcher on a document that has to be accepted.
func match(t *fw.T, m *jsonmatcher.Matcher, doc []byte) (res bool) {
	var err error
	t.Call("matching", func() { res, err = m.Match(doc) })
	if err != nil {
		t.Failf("valid document rejected: %v\n  document: %s", err, clip(string(doc)))
	}
	return res
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + fmt.Sprintf(" ... (%d bytes)", len(s))
	}
	return s
}

// same compares a matcher with the reference on a document.
func same(t *fw.T, m *jsonmatcher.Matcher, q *ref.Node, doc *ref.J, text string) bool {
	want := ref.Eval(q, doc, nil)
	got := match(t, m, []byte(text))
	t.Eval()
	if got != want {
		t.Failf("the query matches: %v, expected %v\n  document: %s", got, want, clip(text))
	}
	if got {
		t.Count("matched")
	} else {
		t.Count("not_matched")
	}
	return got
}

// semantics runs queries of a configuration against documents near them.
func semantics(c *fw.Ctx, section string, n, docs int, mk func(t *fw.T) *ref.Node) {
	c.Run(section, n, func(t *fw.T) {
		q := mk(t)
		text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: 10})
		t.Note("query: %s", clip(text))
		m := matcher(t, text)
		ops(t, q)
		var yes, no bool
		for i := 0; i < docs; i++ {
			doc := gen.Doc(t.Rand, q)
			s := doc.Write(gen.DocStyle(t.Rand))
			if same(t, m, q, doc, s) {
				yes = true
			} else {
				no = true
			}
			if i == 0 {
				t.Sample(map[string]any{"query": clip(text), "document": clip(s), "matches": yes})
			}
		}
		if yes && no {
			t.Count("queries_decided_both_ways")
			t.Distinct(text)
		}
	})
}

// ops counts the operators and types of terms of a query.
func ops(t *fw.T, q *ref.Node) {
	for _, e := range q.Exprs() {
		t.Count("op " + e.Op)
		for _, v := range e.Vals {
			t.Count("term " + string(v.Type))
		}
	}
}

func oneOf(t *fw.T, ss ...string) string { return gen.Pick(t.Rand, ss...) }

func chance(t *fw.T, pct int) bool { return gen.Chance(t.Rand, pct) }

func indent(s string) string { return strings.ReplaceAll(s, "\n", "\n    ") }
