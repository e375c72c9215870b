package props

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C12",
		Rule: "a query and a rewriting of it that has to mean the same, on documents near them; non-trivial: a distinct pair of queries that matched one document and not another",
		Run: func(c *fw.Ctx) {
			type rw struct {
				name string
				f    func(t *fw.T) (*ref.Node, *ref.Node, bool)
			}
			cfg := gen.Config{MaxNodes: 12, MaxList: 8}
			eq := func(t *fw.T) *ref.Node {
				for {
					e := cfg.Expr(t.Rand)
					if e.Op == "==" {
						return e
					}
				}
			}
			rules := []rw{
				{"list as OR", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					e := gen.Config{MaxList: gen.Pick(t.Rand, 4, 12, 150)}.Expr(t.Rand)
					for e.Op != "==" || len(e.Vals) < 2 {
						e = gen.Config{MaxList: 12}.Expr(t.Rand)
					}
					or := ref.Expr(e.Field, "==", e.Vals[0])
					for _, v := range e.Vals[1:] {
						if chance(t, 50) {
							or = ref.Or(or, ref.Expr(e.Field, "==", v))
						} else {
							or = ref.Or(ref.Expr(e.Field, "==", v), or)
						}
					}
					return e, or, false
				}},
				{"list reordered", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					e := eq(t)
					w := ref.Expr(e.Field, e.Op, append([]*ref.Val(nil), e.Vals...)...)
					t.Shuffle(len(w.Vals), func(i, j int) { w.Vals[i], w.Vals[j] = w.Vals[j], w.Vals[i] })
					return e, w, false
				}},
				{"list split", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					e := eq(t)
					for len(e.Vals) < 2 {
						e = eq(t)
					}
					k := 1 + t.Intn(len(e.Vals)-1)
					return e, ref.Or(ref.Expr(e.Field, "==", e.Vals[:k]...), ref.Expr(e.Field, "==", e.Vals[k:]...)), false
				}},
				{"similarity as equality", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					for {
						e := eq(t)
						w := ref.Expr(e.Field, "~", e.Vals...)
						if ref.Validate(w) == nil && ref.Validate(e) == nil {
							return e, w, false
						}
					}
				}},
				{"range as comparisons", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					e := gen.Config{Types: []ref.VType{ref.VInt, ref.VFloat, ref.VTime}}.Expr(t.Rand)
					for e.Op != "><" {
						e = gen.Config{Types: []ref.VType{ref.VInt, ref.VFloat, ref.VTime}}.Expr(t.Rand)
					}
					return e, ref.And(ref.Expr(e.Field, ">=", e.Vals[0]), ref.Expr(e.Field, "<=", e.Vals[1])), true
				}},
				{"double negation", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					q := cfg.Query(t.Rand)
					w := ref.Not(ref.Not(q))
					for chance(t, 40) {
						w = ref.Not(ref.Not(w))
					}
					return q, w, false
				}},
				{"De Morgan", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					a, b := cfg.Query(t.Rand), cfg.Query(t.Rand)
					if chance(t, 50) {
						return ref.Not(ref.And(a, b)), ref.Or(ref.Not(a), ref.Not(b)), false
					}
					return ref.Not(ref.Or(a, b)), ref.And(ref.Not(a), ref.Not(b)), false
				}},
				{"swapped sides", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					q := cfg.Query(t.Rand)
					return q, swap(t, q), false
				}},
				{"regrouped", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					a, b, d := cfg.Query(t.Rand), cfg.Query(t.Rand), cfg.Query(t.Rand)
					if chance(t, 50) {
						return ref.And(a, ref.And(b, d)), ref.And(ref.And(a, b), d), false
					}
					return ref.Or(a, ref.Or(b, d)), ref.Or(ref.Or(a, b), d), false
				}},
				{"distributed", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					a, b, d := cfg.Query(t.Rand), cfg.Query(t.Rand), cfg.Query(t.Rand)
					return ref.And(a, ref.Or(b, d)), ref.Or(ref.And(a, b), ref.And(a, d)), false
				}},
				{"layout", func(t *fw.T) (*ref.Node, *ref.Node, bool) {
					q := cfg.Query(t.Rand)
					return q, q, false
				}},
			}
			n := c.N(900, 9000)
			c.Run("rewrite", n*len(rules), func(t *fw.T) {
				r := rules[mustIndex(t.Key)%len(rules)]
				a, b, single := r.f(t)
				ta, tb := gen.Text(t.Rand, a, gen.TextStyle{Stars: true, Parens: 10}), gen.Text(t.Rand, b, gen.TextStyle{Stars: true, Parens: 20})
				t.Note("%s", r.name)
				t.Note("query: %s", clip(ta))
				t.Note("rewritten: %s", clip(tb))
				ma, mb := matcher(t, ta), matcher(t, tb)
				var yes, no bool
				for i := 0; i < 8; i++ {
					doc := gen.Doc(t.Rand, a)
					if single {
						doc = ref.Obj("other", gen.Scalar(t.Rand))
						put(doc, a.Field, gen.Near(t.Rand, gen.Pick(t.Rand, a.Vals...)))
					}
					s := []byte(doc.Write(gen.DocStyle(t.Rand)))
					ra, rb := match(t, ma, s), match(t, mb, s)
					t.Eval()
					if ra != rb {
						t.Failf("the query matches: %v, rewritten: %v\n  document: %s", ra, rb, clip(string(s)))
					}
					if ra {
						yes = true
					} else {
						no = true
					}
				}
				if yes && no {
					t.Count("decided_both_ways")
					t.Distinct(ta + "\x00" + tb)
				}
				t.Count(r.name)
				t.Sample(map[string]any{"rule": r.name, "query": clip(ta), "rewritten": clip(tb)})
			})
			c.Require("decided_both_ways", 1000)
		},
	})

	fw.Register(&fw.Prop{
		ID:   "C14",
		Rule: "a document near the query in six spellings each, held in read-only memory and in a buffer with guard bytes; non-trivial: a distinct (query, document) pair",
		Run: func(c *fw.Ctx) {
			c.Run("spelling", c.N(7000, 70000), func(t *fw.T) {
				q := gen.Config{MaxNodes: 6, MaxList: 5}.Query(t.Rand)
				text := gen.Text(t.Rand, q, gen.TextStyle{})
				t.Note("query: %s", clip(text))
				m := matcher(t, text)
				for i := 0; i < 3; i++ {
					doc := gen.Doc(t.Rand, q)
					base := doc.Text()
					want := match(t, m, []byte(base))
					t.Distinct(text + base)
					for k := 0; k < 6; k++ {
						st := ref.Style{R: t.Rand, Space: gen.Pick(t.Rand, 0, 5, 40, 80), Esc: gen.Pick(t.Rand, 0, 5, 50, 100), Shuffle: chance(t, 60), Respell: chance(t, 60)}
						s := doc.Write(st)
						got := guarded(t, m, s)
						t.Eval()
						if got != want {
							t.Failf("rewriting the document changed the match from %v to %v\n  document: %s\n  rewritten: %s", want, got, clip(base), clip(s))
						}
						if got {
							t.Count("matched")
						} else {
							t.Count("not_matched")
						}
						if k == 0 {
							t.Sample(map[string]any{"query": clip(text), "document": clip(base), "rewritten": clip(s), "matches": got})
						}
					}
				}
			})
			c.Run("large", c.N(60, 600), func(t *fw.T) {
				// whitespace and escapes beyond any buffer size
				q := gen.Config{MaxNodes: 4}.Query(t.Rand)
				text := gen.Text(t.Rand, q, gen.TextStyle{})
				t.Note("query: %s", clip(text))
				m := matcher(t, text)
				doc := gen.Doc(t.Rand, q)
				if doc.Kind != ref.JObj {
					return
				}
				pad := ref.Arr()
				for i := 0; i < 50+t.Intn(3000); i++ {
					pad.Arr = append(pad.Arr, gen.Scalar(t.Rand))
				}
				doc.Set("zz_padding", pad)
				want := match(t, m, []byte(doc.Text()))
				s := doc.Write(ref.Style{R: t.Rand, Space: 90, Esc: 100, Shuffle: true, Respell: true})
				if got := guarded(t, m, s); got != want {
					t.Failf("rewriting the document changed the match from %v to %v", want, got)
				}
				t.Eval()
				t.Count("large_documents")
				t.Distinct("large" + t.Key)
			})
			c.Require("matched", 5000)
			c.Require("not_matched", 5000)
			c.Require("read_only", 5000)
			c.Require("guarded", 5000)
		},
	})

	fw.Register(&fw.Prop{
		ID:   "C15",
		Rule: "histories of parsing, building, matching and failing calls over several live matchers and reused buffers, each answer compared with the model and with fresh matchers; non-trivial: a distinct history",
		Run:  runHistories,
	})
}

// put sets a value at a path without arrays.
func put(o *ref.J, path []string, v *ref.J) {
	for _, p := range path[:len(path)-1] {
		n := ref.Obj()
		o.Set(p, n)
		o = n
	}
	o.Set(path[len(path)-1], v)
}

func swap(t *fw.T, n *ref.Node) *ref.Node {
	switch n.Kind {
	case ref.KNot:
		return ref.Not(swap(t, n.L))
	case ref.KExpr:
		return n
	}
	l, r := swap(t, n.L), swap(t, n.R)
	if chance(t, 70) {
		l, r = r, l
	}
	return &ref.Node{Kind: n.Kind, L: l, R: r}
}

// roMem is memory that can be made read-only.
type roMem struct{ b []byte }

var roPool = sync.Pool{New: func() any {
	b, err := syscall.Mmap(-1, 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil
	}
	return &roMem{b}
}}

// guarded matches a document that cannot be written to, or in the middle of a
// larger buffer that is compared afterwards.
func guarded(t *fw.T, m *jsonmatcher.Matcher, s string) (got bool) {
	if len(s) < 1<<16-100 && chance(t, 50) {
		ro, _ := roPool.Get().(*roMem)
		if ro != nil {
			defer roPool.Put(ro)
			// at the very end of the mapping
			d := ro.b[len(ro.b)-len(s):]
			copy(d, s)
			if err := syscall.Mprotect(ro.b, syscall.PROT_READ); err != nil {
				t.C.Fatalf("mprotect: %v", err)
			}
			defer func() {
				if err := syscall.Mprotect(ro.b, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
					t.C.Fatalf("mprotect: %v", err)
				}
			}()
			old := debug.SetPanicOnFault(true)
			defer debug.SetPanicOnFault(old)
			t.Count("read_only")
			return match(t, m, d)
		}
	}
	buf := make([]byte, 16+len(s)+48)
	t.Read(buf)
	copy(buf[16:], s)
	keep := bytes.Clone(buf)
	got = match(t, m, buf[16:16+len(s)])
	if !bytes.Equal(buf, keep) {
		t.Failf("matching changed the document or the memory behind it\n  before: %q\n  after: %q", keep[16:], buf[16:])
	}
	t.Count("guarded")
	return got
}

type live struct {
	text string
	q    *ref.Node
	m    *jsonmatcher.Matcher
	docs []*ref.J
}

func newLive(t *fw.T, cfg gen.Config) *live {
	q := cfg.Query(t.Rand)
	text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: 5})
	l := &live{text: text, q: q}
	t.ClearNotes()
	t.Note("query: %s", clip(text))
	l.m = matcher(t, text)
	for i := 0; i < 6; i++ {
		l.docs = append(l.docs, gen.Doc(t.Rand, q))
	}
	return l
}

// brokenDocs are documents that fail.
var brokenDocs = []string{"", " ", "{", "}", `{"a":}`, `{"a":1`, `{"a":1}}`, `[1,2`, `{"a":"x}`, `{"v":tru}`, `{"a":1,}`, `nul`, `{"a":"\x"}`, `{'a':1}`, "\xff", `{"a":01}`, `{"a" 1}`, `{"a":[1,]}`, `"`, `{"a":-}`}

func runHistories(c *fw.Ctx) {
	cfg := gen.Config{MaxNodes: 8, MaxList: 6}
	type tree struct {
		n    ast.Node
		dump string
		text string
	}
	history := func(t *fw.T, steps, matchers int) {
		var ls []*live
		var trees []tree
		buf := make([]byte, 0, 4096)
		for i := 0; i < matchers; i++ {
			ls = append(ls, newLive(t, cfg))
		}
		for i := 0; i < steps; i++ {
			l := ls[t.Intn(len(ls))]
			t.ClearNotes()
			t.Note("step %d, query: %s", i, clip(l.text))
			switch k := t.Intn(100); {
			case k < 70: // match, in the same buffer as the document before
				var d *ref.J
				switch {
				case chance(t, 60):
					d = l.docs[t.Intn(len(l.docs))]
				case chance(t, 50):
					d = ls[t.Intn(len(ls))].docs[0]
				default:
					d = gen.Doc(t.Rand, l.q)
					l.docs[t.Intn(len(l.docs))] = d
				}
				s := d.Write(gen.DocStyle(t.Rand))
				buf = append(buf[:0], s...)
				want := ref.Eval(l.q, d, nil)
				got := match(t, l.m, buf)
				t.Eval()
				if got != want {
					fresh := match(t, matcher(t, l.text), []byte(s))
					t.Failf("the matcher says %v, expected %v; a fresh matcher says %v\n  document: %s", got, want, fresh, clip(s))
				}
				// the caller does something else with the buffer
				for j := range buf {
					buf[j] = 'x'
				}
				t.Count("matches")
			case k < 80: // a document that fails
				d := oneOf(t, brokenDocs...)
				if chance(t, 40) {
					s := l.docs[0].Text()
					d = s[:t.Intn(len(s)+1)]
					if t.Intn(2) == 0 {
						d += "\x00"
					}
				}
				if ref.ValidJSON(d) {
					break
				}
				var res bool
				var err error
				t.Call("matching", func() { res, err = l.m.Match([]byte(d)) })
				if err == nil || res {
					t.Failf("a broken document gave %v, %v\n  document: %q", res, err, d)
				}
				t.Count("failures")
			case k < 85: // replace a matcher
				ls[t.Intn(len(ls))] = newLive(t, cfg)
				t.Count("matchers_built")
			case k < 90: // a query that fails
				q := mutate(t, l.text) + oneOf(t, "", " AND", "(", ":", `"`, "/")
				if _, err := ref.Parse(q); err == nil {
					break
				}
				var m *jsonmatcher.Matcher
				var err error
				t.Call("building a matcher", func() { m, err = jsonmatcher.NewMatcher(q) })
				if err == nil || m != nil {
					t.Failf("query %q should have been rejected", q)
				}
				t.Count("rejected_queries")
			case k < 95: // parse from a buffer that is then reused
				b := []byte(l.text)
				var n ast.Node
				var err error
				t.Call("parsing", func() { n, err = parser.ParseQueryReader(bytes.NewReader(b)) })
				if err != nil {
					t.Failf("valid query rejected: %v", err)
				}
				for j := range b {
					b[j] = 'z'
				}
				trees = append(trees, tree{n, l.q.Dump(), n.String()})
				if len(trees) > 12 {
					trees = trees[1:]
				}
			default:
				if l.m.Query() != l.text {
					t.Failf("the matcher says its query is %q", l.m.Query())
				}
				for _, tr := range trees {
					got, err := fromAST(tr.n)
					if err != nil || got.Dump() != tr.dump || tr.n.String() != tr.text {
						t.Failf("a tree changed after it was parsed: %s", clip(tr.n.String()))
					}
					t.Count("trees_revisited")
				}
			}
		}
		t.Distinct(t.Key + ls[0].text)
		t.Sample(map[string]any{"steps": steps, "matchers": len(ls), "first_query": clip(ls[0].text)})
	}
	c.Run("short", c.N(250, 2500), func(t *fw.T) { history(t, 150, 1+t.Intn(5)) })
	c.Run("long", c.N(16, 64), func(t *fw.T) { history(t, c.N(6000, 30000), 1+t.Intn(20)) })
	c.Run("sequence", c.N(24, 100), func(t *fw.T) {
		// one matcher over documents that differ in very little
		l := newLive(t, gen.Config{MaxNodes: 4, MaxList: 4, Paths: [][]string{{"v"}, {"a", "b"}}})
		base := gen.Doc(t.Rand, l.q)
		for i := 0; i < c.N(8000, 40000); i++ {
			d := base
			if d.Kind == ref.JObj && chance(t, 80) {
				d = &ref.J{Kind: ref.JObj, Keys: append([]string(nil), d.Keys...), Vals: append([]*ref.J(nil), d.Vals...)}
				d.Set("n", ref.Num(itoa(i%100)))
				if chance(t, 50) {
					d.Set("v", gen.Leaf(t.Rand, l.q.Exprs()[0]))
				}
			}
			s := d.Text()
			got := match(t, l.m, []byte(s))
			want := ref.Eval(l.q, d, nil)
			t.Eval()
			if got != want {
				t.Failf("call %d: the matcher says %v, expected %v\n  document: %s", i, got, want, clip(s))
			}
		}
		t.Count("sequences")
		t.Distinct(t.Key + l.text)
	})
	c.Run("many", c.N(6, 30), func(t *fw.T) {
		// many queries alive at once, asked in turn
		var ls []*live
		for i := 0; i < 3000; i++ {
			q := fmt.Sprintf(`f%d:%d OR g:"w%d"`, i%50, i, i)
			n, err := ref.Parse(q)
			if err != nil {
				c.Fatalf("%v", err)
			}
			ls = append(ls, &live{text: q, q: n, m: matcher(t, q)})
		}
		for i := 0; i < 20000; i++ {
			k := t.Intn(len(ls))
			j := k
			if chance(t, 50) {
				j = (k + t.Intn(5)*50) % len(ls)
			}
			d := ref.Obj(fmt.Sprintf("f%d", j%50), ref.Num(itoa(j)))
			if chance(t, 50) {
				d = ref.Obj("g", ref.Str("x "+strings.ToUpper("w"+itoa(j))))
			}
			t.ClearNotes()
			t.Note("query: %s", ls[k].text)
			same(t, ls[k].m, ls[k].q, d, d.Text())
		}
		t.Distinct(t.Key)
	})
	c.Require("matches", 20000)
	c.Require("failures", 2000)
	c.Require("trees_revisited", 1000)
}
