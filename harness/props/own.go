package props

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/sampler"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C41",
		Rule: "trees, errors, messages, statistics and keys are taken, written over by their owner and taken again, and others are kept while the same calls are made on the same and on other inputs; what is kept and what is taken again must read as at first; non-trivial: a distinct input whose results had something to write over",
		Run:  runOwned,
	})
}

// scribble writes over everything that can be reached through exported fields,
// elements and members, and says how much that was.
func scribble(t *fw.T, v reflect.Value, depth int) int {
	if depth > 2000 || !v.IsValid() {
		return 0
	}
	n := 0
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			n += scribble(t, v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n += scribble(t, v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += scribble(t, v.Index(i), depth+1)
		}
		// the places beyond the end are reached by appending
		if v.Cap() > v.Len() && v.Cap()-v.Len() < 100 {
			w := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				if x := w.Index(i); x.CanSet() {
					if x.Kind() == reflect.String {
						x.SetString("appended")
					} else if v.Len() > 0 {
						x.Set(v.Index(0))
					}
				}
			}
		}
		if v.Len() > 1 && chance(t, 50) {
			reflect.Swapper(v.Interface())(0, v.Len()-1)
			n++
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
			n++
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
			n++
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if v.CanSet() {
			v.SetInt(v.Int() + 1 + int64(t.Intn(1000)))
			n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			n++
		}
	}
	return n
}

func errForm(err error) string {
	s := fmt.Sprintf("%T %q", err, err.Error())
	var pe *parser.ParseError
	if errors.As(err, &pe) {
		s += fmt.Sprintf(" %+v %q %q", pe.Pos(), pe.Message(), pe.Expected)
	}
	return s
}

func messagesForm(ms []*parser.ParserMessage) string {
	s := ""
	for _, m := range ms {
		s += fmt.Sprintf("%v %q %q %+v;", m.Type, m.String(), m.Message(), m.Pos())
	}
	return s
}

func statsForm(s *jsonmatcher.MatchStats) string {
	out := fmt.Sprintf("(%q %d %d", s.NodeName, s.TimesChecked, s.TimesMatched)
	for _, c := range s.Children {
		out += statsForm(c)
	}
	return out + ")"
}

func keysForm(keys []string) string {
	keys = append([]string(nil), keys...)
	sort.Strings(keys)
	return fmt.Sprintf("%q", keys)
}

// result is something a call gave, with the form it had then.
type result struct {
	what, form string
	now        func() string
	value      any
}

// results makes every kind of call once.
func results(t *fw.T, in probeIn) []result {
	var out []result
	hold := func(what string, value any, now func() string) {
		out = append(out, result{what, now(), now, value})
	}
	q := string(in.Query)
	t.Call("making calls", func() {
		var seen []ast.Node
		v := parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error {
			seen = append(seen, n)
			tape.Hint("node %d", len(seen))
			if e, ok := n.(*ast.ExprNode); ok {
				tape.WarningWith(e, "condition on %s", ast.FieldString(e.Field))
			}
			return nil
		})
		n, err := parser.ParseQuery(q, parser.Visitors(v))
		if err != nil {
			hold("the error of parsing", err, func() string { return errForm(err) })
		} else {
			hold("the tree", n, func() string { return treeForm2(n) + n.String() })
			ms := v.Messages()
			hold("the messages of a visitor", ms, func() string { return messagesForm(ms) })
		}
		if n, err := parser.ParseQuery(q); err != nil {
			hold("the plain error of parsing", err, func() string { return errForm(err) })
		} else {
			hold("the plain tree", n, func() string { return treeForm2(n) + n.String() })
		}
		if n, err := parser.ParseQueryReader(strings.NewReader(q)); err == nil {
			hold("the tree from a reader", n, func() string { return treeForm2(n) + n.String() })
		}
		for _, e := range []error{errors.New("stopped at " + q), parser.ErrorAt(ast.Pos{Line: 1, Col: 2, Len: len(q)}, "stopped")} {
			_, err := parser.ParseQuery("a:1 OR b:2", parser.Visitors(parser.VisitorFunc(func(ast.Node) error { return e })))
			if err == nil {
				t.Failf("a visitor that fails did not stop the parse")
			}
			hold("the error of a visitor", err, func() string { return errForm(err) })
		}
		p := ast.Pos{Line: 1, Col: 2, Len: len(q)}
		pe := parser.ErrorAt(p, q)
		hold("an error made by hand", pe, func() string { return errForm(pe) })
		m, err := jsonmatcher.NewMatcher(q)
		if err != nil {
			hold("the error of building a matcher", err, func() string { return errForm(err) })
		} else {
			ms := m.Messages()
			hold("the messages of a matcher", ms, func() string { return messagesForm(ms) })
			st0 := m.Stats()
			hold("the first statistics", st0, func() string { return statsForm(st0) })
			for _, d := range in.Docs {
				ok, err := m.Match(d)
				form := fmt.Sprint(ok, err)
				hold("the answer", nil, func() string { return form })
				if err != nil {
					hold("the error of matching", err, func() string { return errForm(err) })
				}
			}
			st := m.Stats()
			hold("the statistics", st, func() string { return statsForm(st) })
		}
		s := sampler.New(1 + len(in.Query)%5)
		for _, d := range in.Docs {
			if err := s.Sample(d); err != nil {
				hold("the error of sampling", err, func() string { return errForm(err) })
			}
		}
		keys, some := s.Keys(), s.KeysAtThreshold(50)
		hold("the keys", keys, func() string { return keysForm(keys) })
		hold("the keys at a threshold", some, func() string { return keysForm(some) })
	})
	return out
}

func runOwned(c *fw.Ctx) {
	input := func(t *fw.T) probeIn {
		q := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 3, 8), MaxList: 4}.Query(t.Rand)
		in := probeIn{Query: []byte(gen.Text(t.Rand, q, gen.TextStyle{}))}
		switch t.Intn(6) {
		case 0:
			in.Query = []byte(hostile(t, string(in.Query)))
		case 1:
			in.Query = []byte(faulty(t))
		case 2:
			in.Query = []byte(oneOf(t, `a:~/.*x/ OR b:"x*y"`, `a:/abc/ AND NOT b:/^.*$/`, `a:(1,2,3)`, `a:1 AND a:1`, `"a.b".c:exists`, `a:`, `a:><(2,1)`, `(a:1`, `a:(1,1)`, `a:/(/`, ``))
		}
		for k := t.Intn(4); k > 0; k-- {
			d := gen.Doc(t.Rand, q).Write(gen.DocStyle(t.Rand))
			if chance(t, 15) {
				d = mutate(t, d)
			}
			in.Docs = append(in.Docs, []byte(d))
		}
		return in
	}
	check := func(t *fw.T, when string, rs []result) {
		for _, r := range rs {
			if got := r.now(); got != r.form {
				t.Failf("%s changed %s\n  was: %s\n  is:  %s", r.what, when, clip(r.form), clip(got))
			}
		}
	}
	agree := func(t *fw.T, a, b []result) {
		if len(a) != len(b) {
			t.Failf("the same calls gave %d results, then %d", len(a), len(b))
		}
		for i := range a {
			if a[i].what != b[i].what || a[i].form != b[i].form {
				t.Failf("%s taken again is another, after its owner wrote over the first\n  was: %s\n  is:  %s", a[i].what, clip(a[i].form), clip(b[i].form))
			}
		}
	}
	c.Run("calls", c.N(6000, 60000), func(t *fw.T) {
		in, in2 := input(t), input(t)
		t.Note("query: %s", clip(string(in.Query)))
		for _, d := range in.Docs {
			t.Note("document: %s", clip(string(d)))
		}
		first := results(t, in)
		kept := results(t, in)
		agree(t, first, kept)
		other := results(t, in2)
		check(t, "while the calls were made for another input", append(append([]result(nil), first...), kept...))
		n := 0
		for _, r := range first {
			if r.value == nil {
				continue
			}
			k := 0
			t.Call("writing over results", func() { k = scribble(t, reflect.ValueOf(r.value), 0) })
			n += k
			if k > 0 {
				t.Count("written_over: " + r.what)
			}
		}
		check(t, "when the results of other calls were written over", kept)
		check(t, "when the results for another input were written over", other)
		again := results(t, in)
		agree(t, kept, again)
		agree(t, other, results(t, in2))
		check(t, "when the calls were made again", kept)
		t.Eval()
		if n > 0 {
			t.Distinct(fmt.Sprintf("%q", in))
		}
		if t.Intn(20) == 0 {
			t.Sample(map[string]any{"query": clip(string(in.Query)), "documents": len(in.Docs), "written_over": n})
		}
	})
	// One matcher and one sampler: what they gave before belongs to the caller,
	// and what the caller does with it is not seen by them.
	c.Run("kept", c.N(4000, 40000), func(t *fw.T) {
		q := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 3, 8), MaxList: 4}.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		t.Note("query: %s", clip(text))
		m, plain := matcher(t, text), matcher(t, text)
		depth := 1 + t.Intn(6)
		s, splain := sampler.New(depth), sampler.New(depth)
		var kept []result
		for i := 2 + t.Intn(10); i > 0; i-- {
			d := []byte(gen.Doc(t.Rand, q).Write(gen.DocStyle(t.Rand)))
			if chance(t, 10) {
				d = []byte(mutate(t, string(d)))
			}
			t.Call("matching and sampling", func() {
				a, err := m.Match(d)
				b, err2 := plain.Match(d)
				if a != b || fmt.Sprint(err) != fmt.Sprint(err2) {
					t.Failf("a matcher whose statistics were written over answers %v %v, another %v %v\n  document: %s", a, err, b, err2, clip(string(d)))
				}
				e1, e2 := s.Sample(d), splain.Sample(d)
				if fmt.Sprint(e1) != fmt.Sprint(e2) {
					t.Failf("a sampler whose keys were written over answers %v, another %v\n  document: %s", e1, e2, clip(string(d)))
				}
				th := t.Intn(101)
				st, k1, k2 := m.Stats(), s.Keys(), s.KeysAtThreshold(th)
				got := statsForm(st) + keysForm(k1) + keysForm(k2)
				want := statsForm(plain.Stats()) + keysForm(splain.Keys()) + keysForm(splain.KeysAtThreshold(th))
				if got != want {
					t.Failf("after the owner wrote over what was given before, statistics and keys are others\n  untouched: %s\n  got:       %s", clip(want), clip(got))
				}
				if chance(t, 50) {
					f := statsForm(st)
					kept = append(kept, result{"the statistics", f, func() string { return statsForm(st) }, nil})
					f = keysForm(k1)
					kept = append(kept, result{"the keys", f, func() string { return keysForm(k1) }, nil})
					t.Count("snapshots_kept")
				} else {
					t.Count("snapshots_written_over")
					scribble(t, reflect.ValueOf(st), 0)
					scribble(t, reflect.ValueOf(k1), 0)
					scribble(t, reflect.ValueOf(k2), 0)
				}
				if chance(t, 5) {
					s.Reset()
					splain.Reset()
				}
			})
			check(t, "while its matcher or sampler went on", kept)
			t.Eval()
		}
		t.Distinct("kept " + text)
	})
	// Visitors that change the tree they are shown change no other tree.
	c.Run("visitors", c.N(3000, 30000), func(t *fw.T) {
		q := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 3, 8), MaxList: 4}.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		t.Note("query: %s", clip(text))
		a, err := parse(t, text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		form, old := treeForm2(a), matcher(t, text)
		if _, err := parse(t, text, parser.Visitors(parser.VisitorFunc(func(n ast.Node) error {
			if e, ok := n.(*ast.ExprNode); ok {
				t.Count("nodes_changed")
				scribble(t, reflect.ValueOf(e), 0)
			}
			return nil
		}))); err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		b, err := parse(t, text)
		if err != nil {
			t.Failf("query rejected after a visitor changed a tree of it: %v", err)
		}
		t.Eval()
		t.Distinct("visited " + text)
		if treeForm2(a) != form || treeForm2(b) != form {
			t.Failf("a visitor changed other trees than the one it was shown\n  was: %s\n  kept: %s\n  parsed again: %s", clip(form), clip(treeForm2(a)), clip(treeForm2(b)))
		}
		m := matcher(t, text)
		for i := 0; i < 3; i++ {
			d := []byte(gen.Doc(t.Rand, q).Text())
			if got, want := match(t, m, d), match(t, old, d); got != want {
				t.Failf("after a visitor changed a tree the query answers %v instead of %v\n  document: %s", got, want, clip(string(d)))
			}
		}
	})
	for _, w := range []string{"the tree", "the error of parsing", "the messages of a visitor", "the messages of a matcher", "the statistics", "the keys", "the keys at a threshold"} {
		c.Require("written_over: "+w, 300)
	}
	c.Require("snapshots_kept", 5000)
	c.Require("snapshots_written_over", 5000)
	c.Require("nodes_changed", 3000)
}
