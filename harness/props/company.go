package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C40",
		Rule: "a document near the query and variants of it with further keys, fewer keys, other orders and repeated elements; answers and statistics are compared with those for the document itself; non-trivial: a distinct (query, variant) pair whose text differs from the document's",
		Run:  runCompany,
	})
}

// clone is a deep copy of a document.
func clone(v *ref.J) *ref.J {
	w := *v
	w.Keys = append([]string(nil), v.Keys...)
	w.Vals, w.Arr = nil, nil
	for _, x := range v.Vals {
		w.Vals = append(w.Vals, clone(x))
	}
	for _, x := range v.Arr {
		w.Arr = append(w.Arr, clone(x))
	}
	return &w
}

// containers are the objects and arrays of a document.
func containers(v *ref.J, objs, arrs []*ref.J) ([]*ref.J, []*ref.J) {
	switch v.Kind {
	case ref.JObj:
		objs = append(objs, v)
		for _, x := range v.Vals {
			objs, arrs = containers(x, objs, arrs)
		}
	case ref.JArr:
		arrs = append(arrs, v)
		for _, x := range v.Arr {
			objs, arrs = containers(x, objs, arrs)
		}
	}
	return objs, arrs
}

// stranger is a key that no path mentions, often one that looks like a piece of
// a path.
func stranger(t *fw.T, q *ref.Node, pieces map[string]bool) string {
	es := q.Exprs()
	for {
		f := es[t.Intn(len(es))].Field
		p := f[t.Intn(len(f))]
		k := ""
		switch t.Intn(14) {
		case 0:
			k = strings.Join(f, ".")
		case 1:
			k = strings.Join(f, "")
		case 2:
			k = p + oneOf(t, " ", "\x00", ".", "s", "́", "é", "[]", "[0]", ":", "\\", "\"", "*")
		case 3:
			k = oneOf(t, " ", "\x00", ".", "_", "\"", "\\", "*") + p
		case 4:
			k = strings.ToUpper(p)
		case 5:
			k = strings.ToLower(p)
		case 6:
			if len(p) > 0 {
				k = p[:len(p)-1]
			}
		case 7:
			if len(p) > 0 {
				k = p[1:]
			}
		case 8:
			k = p + p
		case 9:
			k = oneOf(t, "", " ", ".", "*", "0", "-1", "[0]", "null", "length", "__proto__", "$", "#", "@", "/", "exists")
		case 10:
			b, _ := json.Marshal(p)
			k = string(b)
		case 11:
			k = strings.Repeat("k", t.Intn(300))
		case 12:
			w := gen.TwinPath(t.Rand, f)
			k = w[t.Intn(len(w))]
		default:
			k = gen.Name(t.Rand)
		}
		k = strings.ToValidUTF8(k, "_")
		if !pieces[k] {
			return k
		}
	}
}

// add puts a key into an object, in some place.
func add(t *fw.T, o *ref.J, k string, v *ref.J) bool {
	for _, x := range o.Keys {
		if x == k {
			return false
		}
	}
	i := t.Intn(len(o.Keys) + 1)
	o.Keys = append(o.Keys[:i:i], append([]string{k}, o.Keys[i:]...)...)
	o.Vals = append(o.Vals[:i:i], append([]*ref.J{v}, o.Vals[i:]...)...)
	return true
}

// variant changes a document in what does not matter to the query.
func variant(t *fw.T, q *ref.Node, doc *ref.J, pieces map[string]bool, big bool) (*ref.J, string) {
	v := clone(doc)
	how := ""
	for k := 1 + t.Intn(3); k > 0; k-- {
		if big {
			k = 1
		}
		objs, arrs := containers(v, nil, nil)
		switch t.Intn(6) {
		case 0, 1: // further keys, with values that would matter elsewhere
			if len(objs) == 0 {
				continue
			}
			n := 1 + t.Intn(3)
			if big {
				n = around(t, 3000)
			}
			o := objs[t.Intn(len(objs))]
			es := q.Exprs()
			for i := 0; i < n; i++ {
				e := es[t.Intn(len(es))]
				x := gen.Leaf(t.Rand, e)
				if chance(t, 30) {
					p := ref.Obj()
					gen.Put(t.Rand, p, e.Field, x)
					x = p
				}
				if chance(t, 20) {
					x = ref.Arr(x, gen.Scalar(t.Rand))
				}
				key := stranger(t, q, pieces)
				if i > 50 {
					key = fmt.Sprint("stranger ", i)
				}
				if add(t, o, key, x) {
					t.Count("keys_added")
				}
			}
			how += "keys added; "
		case 2: // fewer keys
			for _, o := range objs {
				for i := len(o.Keys) - 1; i >= 0; i-- {
					if !pieces[o.Keys[i]] && chance(t, 60) {
						o.Keys = append(o.Keys[:i:i], o.Keys[i+1:]...)
						o.Vals = append(o.Vals[:i:i], o.Vals[i+1:]...)
						t.Count("keys_removed")
					}
				}
			}
			how += "keys removed; "
		case 3: // another order of members
			for _, o := range objs {
				t.Shuffle(len(o.Keys), func(i, j int) {
					o.Keys[i], o.Keys[j] = o.Keys[j], o.Keys[i]
					o.Vals[i], o.Vals[j] = o.Vals[j], o.Vals[i]
				})
			}
			how += "members reordered; "
		case 4: // another order of elements
			for _, a := range arrs {
				t.Shuffle(len(a.Arr), func(i, j int) { a.Arr[i], a.Arr[j] = a.Arr[j], a.Arr[i] })
				if len(a.Arr) > 1 {
					t.Count("arrays_reordered")
				}
			}
			how += "elements reordered; "
		default: // elements again
			if big && len(arrs) > 0 {
				i := t.Intn(len(arrs))
				arrs = arrs[i : i+1]
			}
			for _, a := range arrs {
				if len(a.Arr) == 0 || chance(t, 30) {
					continue
				}
				n := 1 + t.Intn(3)
				if big {
					n = around(t, 3000)
				}
				for k := len(a.Arr); n > 0 && len(a.Arr) < 6000; n-- {
					x := a.Arr[t.Intn(k)]
					if !big {
						x = clone(x)
					}
					a.Arr = append(a.Arr, x)
				}
				if chance(t, 50) {
					t.Shuffle(len(a.Arr), func(i, j int) { a.Arr[i], a.Arr[j] = a.Arr[j], a.Arr[i] })
				}
				t.Count("arrays_repeated")
			}
			how += "elements repeated; "
		}
	}
	return v, how
}

func runCompany(c *fw.Ctx) {
	try := func(t *fw.T, q *ref.Node, big bool, docs, variants int) {
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		t.Note("query: %s", clip(text))
		pieces := map[string]bool{}
		for _, e := range q.Exprs() {
			for _, p := range e.Field {
				pieces[p] = true
			}
		}
		for i := 0; i < docs; i++ {
			doc := gen.Doc(t.Rand, q)
			base := doc.Text()
			m := matcher(t, text)
			want := match(t, m, []byte(base))
			first := countsOf(m)
			for k := 0; k < variants; k++ {
				v, how := variant(t, q, doc, pieces, big)
				s := v.Write(gen.DocStyle(t.Rand))
				m2 := m
				if chance(t, 50) {
					m2 = matcher(t, text)
				}
				before := countsOf(m2)
				got := match(t, m2, []byte(s))
				t.Eval()
				if got != want {
					t.Failf("the match changed from %v to %v\n  change: %s\n  document: %s\n  changed: %s", want, got, how, clip(base), clip(s))
				}
				after := countsOf(m2)
				for n := range after {
					if after[n]-before[n] != first[n] {
						t.Failf("the match is the same but the conditions came out differently\n  change: %s\n  document: %s\n  changed: %s", how, clip(base), clip(s))
					}
				}
				if got {
					t.Count("matched")
				} else {
					t.Count("not_matched")
				}
				if s != base {
					t.Distinct(text + s)
				}
				if k == 0 {
					t.Sample(map[string]any{"query": clip(text), "document": clip(base), "changed": clip(s), "how": how, "matches": got})
				}
			}
		}
	}
	c.Run("variants", c.N(5000, 50000), func(t *fw.T) {
		try(t, gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 1, 3, 8), MaxList: 4}.Query(t.Rand), false, 3, 5)
	})
	c.Run("scale", c.N(200, 2000), func(t *fw.T) {
		try(t, gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 3), MaxList: 4}.Query(t.Rand), true, 1, 3)
		t.Count("large")
	})
	c.Require("matched", 10000)
	c.Require("not_matched", 10000)
	c.Require("keys_added", 20000)
	c.Require("keys_removed", 2000)
	c.Require("arrays_reordered", 5000)
	c.Require("arrays_repeated", 5000)
	c.Require("large", 150)
}

// countsOf are the counts of a matcher's statistics, node by node.
func countsOf(m *jsonmatcher.Matcher) []int64 {
	var out []int64
	var walk func(s *jsonmatcher.MatchStats)
	walk = func(s *jsonmatcher.MatchStats) {
		if s == nil {
			return
		}
		out = append(out, s.TimesChecked, s.TimesMatched)
		for _, k := range s.Children {
			walk(k)
		}
	}
	walk(m.Stats())
	return out
}
