package props

import (
	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C42",
		Rule: "a document near the query and documents made of it by putting values into arrays, alone or in company, by adding elements and members, and by making an array of several documents; answers are compared with those for the parts; non-trivial: a distinct (query, changed document) pair",
		Run:  runMore,
	})
}

// affirmed replaces the tests for null, and the negations unless they may stay.
func affirmed(n *ref.Node, negated bool) *ref.Node {
	m := *n
	switch n.Kind {
	case ref.KExpr:
		if n.Op == "null" {
			m.Op = "exists"
		}
	case ref.KNot:
		if !negated {
			return affirmed(n.L, negated)
		}
		m.L = affirmed(n.L, negated)
	default:
		m.L, m.R = affirmed(n.L, negated), affirmed(n.R, negated)
	}
	return &m
}

// wrapped puts values of a document that are members, or the document itself,
// into arrays of their own, and says how many.
func wrapped(t *fw.T, v *ref.J, percent int) (*ref.J, int) {
	n := 0
	objs, _ := containers(v, nil, nil)
	for _, o := range objs {
		for i, x := range o.Vals {
			if x.Kind != ref.JArr && chance(t, percent) {
				o.Vals[i] = ref.Arr(x)
				n++
			}
		}
	}
	if v.Kind != ref.JArr && chance(t, 20) {
		v = ref.Arr(v)
		n++
	}
	return v, n
}

// other is a value for the company of others.
func other(t *fw.T, q *ref.Node) *ref.J {
	es := q.Exprs()
	e := es[t.Intn(len(es))]
	switch t.Intn(6) {
	case 0:
		return gen.Doc(t.Rand, q)
	case 1:
		return gen.Leaf(t.Rand, e)
	case 2:
		o := ref.Obj()
		gen.Put(t.Rand, o, e.Field[t.Intn(len(e.Field)):], gen.Leaf(t.Rand, e))
		return o
	case 3:
		return gen.Pick(t.Rand, ref.Null(), ref.Bool(true), ref.Bool(false), ref.Num("0"), ref.Str(""), ref.Arr(), ref.Obj(), ref.Num("1e400"), ref.Str("2020-13-45"))
	case 4:
		return gen.Any(t.Rand, 2)
	}
	return gen.Scalar(t.Rand)
}

// gained adds elements and members to a document.
func gained(t *fw.T, q *ref.Node, v *ref.J) (*ref.J, int) {
	v, n := wrapped(t, v, gen.Pick(t.Rand, 0, 20, 60))
	objs, arrs := containers(v, nil, nil)
	es := q.Exprs()
	for _, a := range arrs {
		if chance(t, 40) {
			continue
		}
		for k := gen.Pick(t.Rand, 1, 1, 2, 4, 40); k > 0; k-- {
			i := t.Intn(len(a.Arr) + 1)
			a.Arr = append(a.Arr[:i:i], append([]*ref.J{other(t, q)}, a.Arr[i:]...)...)
			n++
		}
	}
	for _, o := range objs {
		if chance(t, 60) {
			continue
		}
		f := es[t.Intn(len(es))].Field
		k := f[t.Intn(len(f))]
		if chance(t, 40) {
			k = gen.Name(t.Rand)
		}
		if add(t, o, k, other(t, q)) {
			n++
		}
	}
	return v, n
}

func runMore(c *fw.Ctx) {
	query := func(t *fw.T, nodes int, negated bool) (*ref.Node, string) {
		q := affirmed(gen.Config{MaxNodes: nodes, MaxList: 4}.Query(t.Rand), negated)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		t.Note("query: %s", clip(text))
		return q, text
	}
	c.Run("wrapped", c.N(5000, 50000), func(t *fw.T) {
		q, text := query(t, gen.Pick(t.Rand, 1, 1, 3, 8), true)
		for i := 0; i < 4; i++ {
			doc := gen.Doc(t.Rand, q)
			m := matcher(t, text)
			want := match(t, m, []byte(doc.Write(gen.DocStyle(t.Rand))))
			counts := countsOf(m)
			for k := 0; k < 2; k++ {
				v, n := wrapped(t, clone(doc), gen.Pick(t.Rand, 10, 50, 100))
				if n == 0 {
					continue
				}
				s := v.Write(gen.DocStyle(t.Rand))
				m2 := matcher(t, text)
				got := match(t, m2, []byte(s))
				t.Eval()
				if got != want {
					t.Failf("putting values into arrays of their own changed the match from %v to %v\n  document: %s\n  changed: %s", want, got, clip(doc.Text()), clip(s))
				}
				for n, x := range countsOf(m2) {
					if x != counts[n] {
						t.Failf("putting values into arrays of their own changed the outcome of a condition\n  document: %s\n  changed: %s", clip(doc.Text()), clip(s))
					}
				}
				if got {
					t.Count("wrapped_matched")
				} else {
					t.Count("wrapped_unmatched")
				}
				t.Distinct(text + s)
				t.Sample(map[string]any{"query": clip(text), "document": clip(doc.Text()), "changed": clip(s), "matches": got})
			}
		}
	})
	c.Run("gained", c.N(6000, 60000), func(t *fw.T) {
		q, text := query(t, gen.Pick(t.Rand, 1, 1, 3, 8), false)
		m := matcher(t, text)
		for i := 0; i < 6; i++ {
			doc := gen.Doc(t.Rand, q)
			if !match(t, m, []byte(doc.Write(gen.DocStyle(t.Rand)))) {
				continue
			}
			for k := 0; k < 4; k++ {
				v, n := gained(t, q, clone(doc))
				if n == 0 {
					continue
				}
				s := v.Write(gen.DocStyle(t.Rand))
				t.Eval()
				if !match(t, m, []byte(s)) {
					t.Failf("further values undid a match\n  document: %s\n  changed: %s", clip(doc.Text()), clip(s))
				}
				t.Count("gained")
				t.Distinct(text + s)
				if k == 0 {
					t.Sample(map[string]any{"query": clip(text), "document": clip(doc.Text()), "changed": clip(s)})
				}
			}
		}
	})
	// One condition holds for an array of documents when it holds for one of them.
	c.Run("documents", c.N(5000, 50000), func(t *fw.T) {
		q, _ := query(t, 1, false)
		q = q.Exprs()[0]
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		t.ClearNotes()
		t.Note("query: %s", clip(text))
		m := matcher(t, text)
		for i := 0; i < 4; i++ {
			all, want := ref.Arr(), false
			for k := gen.Pick(t.Rand, 0, 1, 2, 3, 5, 30); k > 0; k-- {
				d := gen.Doc(t.Rand, q)
				if d.Kind == ref.JArr {
					continue
				}
				want = match(t, m, []byte(d.Write(gen.DocStyle(t.Rand)))) || want
				all.Arr = append(all.Arr, d)
			}
			s := all.Write(gen.DocStyle(t.Rand))
			got := match(t, m, []byte(s))
			t.Eval()
			if got != want {
				t.Failf("one of the documents matches: %v, their array matches: %v\n  array: %s", want, got, clip(s))
			}
			if got {
				t.Count("arrays_matched")
			} else {
				t.Count("arrays_unmatched")
			}
			t.Distinct(text + s)
			if i == 0 {
				t.Sample(map[string]any{"query": clip(text), "documents": clip(s), "matches": got})
			}
		}
	})
	c.Require("wrapped_matched", 4000)
	c.Require("wrapped_unmatched", 4000)
	c.Require("gained", 20000)
	c.Require("arrays_matched", 3000)
	c.Require("arrays_unmatched", 3000)
}
