package props

import (
	"fmt"
	"sort"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/sampler"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C23",
		Rule: "keys reported for random documents at random depth limits, read back as paths and compared with a reference walk; non-trivial: a distinct (document, limit) pair with at least one path expected",
		Run:  runSampled,
	})
	fw.Register(&fw.Prop{
		ID:   "C24",
		Rule: "histories of samples, failing samples and resets on several samplers, with the whole observable state compared after each step; non-trivial: a distinct history",
		Run:  runSampleHistories,
	})
	fw.Register(&fw.Prop{
		ID:   "C25",
		Rule: "keys reported for random documents used as fields of queries on the same and on other documents; non-trivial: a distinct (key, document) pair matched",
		Run:  runSampledKeys,
	})
}

const sep = "\xff" // in no key

// paths lists the paths of a document that lead to scalars, each once.
func paths(v *ref.J, limit int) map[string]bool {
	out := map[string]bool{}
	var walk func(v *ref.J, path []string)
	walk = func(v *ref.J, path []string) {
		if limit >= 0 && len(path) > limit {
			return
		}
		switch v.Kind {
		case ref.JObj:
			for i, k := range v.Keys {
				walk(v.Vals[i], append(path[:len(path):len(path)], k))
			}
		case ref.JArr:
			for _, e := range v.Arr {
				if e.Kind != ref.JArr {
					walk(e, path)
				}
			}
		default:
			if len(path) > 0 {
				out[strings.Join(path, sep)] = true
			}
		}
	}
	walk(v, nil)
	return out
}

func plain(s string) bool {
	for _, r := range s {
		if !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return false
		}
	}
	return s != ""
}

// keyPath reads a reported key back as a path.
func keyPath(t *fw.T, key string) string {
	n, err := ref.Parse(key + ":exists")
	if err != nil || n.Kind != ref.KExpr {
		t.Failf("the key %q is not a field: %v", key, err)
	}
	all := true
	for _, p := range n.Field {
		all = all && plain(p)
	}
	if all && strings.Join(n.Field, ".") != key {
		t.Failf("the key of the plain path %v is %q", n.Field, key)
	}
	return strings.Join(n.Field, sep)
}

// keySet reads reported keys back, each once.
func keySet(t *fw.T, keys []string) map[string]bool {
	out := map[string]bool{}
	for _, k := range keys {
		p := keyPath(t, k)
		if out[p] {
			t.Failf("the path %q is reported twice", k)
		}
		out[p] = true
	}
	return out
}

func sameSet(got, want map[string]bool) string {
	var a, b []string
	for k := range want {
		if !got[k] {
			a = append(a, strings.ReplaceAll(k, sep, " . "))
		}
	}
	for k := range got {
		if !want[k] {
			b = append(b, strings.ReplaceAll(k, sep, " . "))
		}
	}
	if len(a)+len(b) == 0 {
		return ""
	}
	sort.Strings(a)
	sort.Strings(b)
	return clip(fmt.Sprintf("missing %q, not expected %q", a, b))
}

// sampleStyle is a way of writing a document down without space around it.
func sampleStyle(t *fw.T, d *ref.J) string {
	return strings.Trim(d.Write(gen.DocStyle(t.Rand)), " \t\r\n")
}

// sampleDoc makes a document for the sampler, an object or an array.
func sampleDoc(t *fw.T) *ref.J {
	for {
		var d *ref.J
		switch t.Intn(6) {
		case 0:
			d = gen.Doc(t.Rand, gen.Config{MaxNodes: 8, MaxList: 3}.Query(t.Rand))
		case 1:
			d = gen.Any(t.Rand, 2+t.Intn(8))
		case 2: // few names, so that paths meet
			d = fewNames(t, 1+t.Intn(6))
		default:
			d = pathDoc(t)
		}
		if d.Kind == ref.JObj || d.Kind == ref.JArr {
			if objs, _ := containers(d, nil, nil); len(objs) > 0 && chance(t, 1) {
				longKeys(t, objs)
			}
			return d
		}
	}
}

// longKeys makes some keys of the objects long.
func longKeys(t *fw.T, objs []*ref.J) {
	for n := 1 + t.Intn(3); n > 0; n-- {
		k := strings.Repeat(oneOf(t, "k", "é", `"`, "a.b", "\x01", " ", "k1_"), around(t, 3000))
		var v *ref.J
		switch t.Intn(3) {
		case 0:
			v = gen.Any(t.Rand, 2)
		case 1:
			v = ref.Obj(oneOf(t, "a", "b", k), gen.Scalar(t.Rand))
		default:
			v = gen.Scalar(t.Rand)
		}
		if add(t, objs[t.Intn(len(objs))], k, v) {
			t.Count("long_keys")
		}
	}
}

func fewNames(t *fw.T, depth int) *ref.J {
	switch k := t.Intn(10); {
	case depth > 0 && k < 5:
		o := ref.Obj()
		for i := t.Intn(5); i > 0; i-- {
			o.Set(oneOf(t, "a", "b", "c", "a.b", "", "a\"b", "a-b", "_", "0", "é", `a\`, "\n", "*", "AND", "NOT", "OR", "true", "null", "exists", "a b", "a:b", "(", "1", "-"), fewNames(t, depth-1))
		}
		return o
	case depth > 0 && k < 8:
		a := ref.Arr()
		for i := t.Intn(4); i > 0; i-- {
			a.Arr = append(a.Arr, fewNames(t, depth-1))
		}
		return a
	}
	return gen.Scalar(t.Rand)
}

func sampleOK(t *fw.T, s *sampler.Sampler, text string) {
	var err error
	b := []byte(text)
	t.Call("sampling", func() { err = s.Sample(b) })
	if err != nil {
		t.Failf("a valid document could not be sampled: %v\n  document: %s", err, clip(text))
	}
	if string(b) != text {
		t.Failf("sampling changed the document %s", clip(text))
	}
	for i := range b { // the sampler may not depend on it any more
		b[i] = 'x'
	}
}

func runSampled(c *fw.Ctx) {
	one := func(t *fw.T, d *ref.J, limit int) {
		text := sampleStyle(t, d)
		t.Note("limit %d, document: %s", limit, clip(text))
		s := sampler.New(limit)
		sampleOK(t, s, text)
		var keys []string
		t.Call("reading keys", func() { keys = s.Keys() })
		want := paths(d, limit)
		t.Eval()
		if diff := sameSet(keySet(t, keys), want); diff != "" {
			t.Failf("reported keys: %s", diff)
		}
		if s.Scanned() != 1 {
			t.Failf("%d documents scanned", s.Scanned())
		}
		if len(want) > 0 {
			t.Distinct(fmt.Sprint(limit, text))
			c.Count("keys", int64(len(want)))
			t.Sample(map[string]any{"document": clip(text), "limit": limit, "keys": keys[:min(len(keys), 10)]})
		}
		if len(want) < len(paths(d, -1)) {
			t.Count("cut_by_depth")
		}
	}
	c.Run("random", c.N(120000, 1200000), func(t *fw.T) {
		d := sampleDoc(t)
		limit := gen.Pick(t.Rand, -1, -1, -5, 0, 1, 2, 3, t.Intn(8), 1000)
		one(t, d, limit)
	})
	// several documents: the union
	c.Run("union", c.N(10000, 100000), func(t *fw.T) {
		limit := gen.Pick(t.Rand, -1, -1, 1, 2, 3)
		s := sampler.New(limit)
		want := map[string]bool{}
		n := 1 + t.Intn(8)
		for i := 0; i < n; i++ {
			d := sampleDoc(t)
			text := sampleStyle(t, d)
			t.Note("limit %d, document: %s", limit, clip(text))
			sampleOK(t, s, text)
			for k := range paths(d, limit) {
				want[k] = true
			}
		}
		t.Eval()
		if diff := sameSet(keySet(t, s.Keys()), want); diff != "" {
			t.Failf("reported keys: %s", diff)
		}
		t.Count("unions")
	})
	// size tails
	c.Run("large", c.N(200, 2000), func(t *fw.T) {
		switch t.Intn(3) {
		case 0:
			d := gen.Scalar(t.Rand)
			for i := 10 + t.Intn(400); i > 0; i-- {
				k := oneOf(t, "a", "b", `"`, "é")
				switch t.Intn(4) {
				case 0:
					d = ref.Obj(k, d, "z", gen.Scalar(t.Rand))
				case 1:
					d = ref.Obj("y", ref.Num("1"), k, ref.Arr(ref.Num("1"), d, ref.Obj("w", ref.Null())))
				default:
					d = ref.Obj(k, d)
				}
			}
			one(t, d, gen.Pick(t.Rand, -1, 5, 50, 300, t.Intn(500)))
		case 1:
			d := ref.Obj()
			for i := 500 + t.Intn(2000); i > 0; i-- {
				d.Set(fmt.Sprintf("%s%d", oneOf(t, "k", "k.", `"`, "大"), t.Intn(5000)), gen.Any(t.Rand, 2))
			}
			one(t, d, -1)
		default:
			a := ref.Arr()
			for i := 500 + t.Intn(2000); i > 0; i-- {
				a.Arr = append(a.Arr, ref.Obj(fmt.Sprint("k", t.Intn(100)), gen.Any(t.Rand, 2)))
			}
			one(t, gen.Pick(t.Rand, a, ref.Obj("r", a)), -1)
		}
		t.Count("large")
	})
	c.Require("keys", 50000)
	c.Require("cut_by_depth", 1000)
	c.Require("long_keys", 500)
	c.Require("large", 50)
}

type sampleModel struct {
	s      *sampler.Sampler
	limit  int
	counts map[string]int
	docs   int
}

func (m *sampleModel) check(t *fw.T, thr int) {
	if got := m.s.Scanned(); got != m.docs {
		t.Failf("%d documents scanned, expected %d", got, m.docs)
	}
	all, at := map[string]bool{}, map[string]bool{}
	for k, n := range m.counts {
		all[k] = true
		if 100*n >= thr*m.docs {
			at[k] = true
		}
	}
	t.Eval()
	if diff := sameSet(keySet(t, m.s.Keys()), all); diff != "" {
		t.Failf("reported keys: %s", diff)
	}
	if diff := sameSet(keySet(t, m.s.KeysAtThreshold(thr)), at); diff != "" {
		t.Failf("keys at %d percent of %d documents: %s", thr, m.docs, diff)
	}
	if len(at) > 0 && len(at) < len(all) {
		t.Count("threshold_splits")
	}
}

func runSampleHistories(c *fw.Ctx) {
	c.Run("history", c.N(6000, 60000), func(t *fw.T) {
		var ms []*sampleModel
		for i := 1 + t.Intn(3); i > 0; i-- {
			l := gen.Pick(t.Rand, -1, -1, 1, 2, 3)
			ms = append(ms, &sampleModel{s: sampler.New(l), limit: l, counts: map[string]int{}})
		}
		// a small stock of documents, so that keys have counts in between
		var stock []*ref.J
		for i := 2 + t.Intn(6); i > 0; i-- {
			if chance(t, 70) {
				o := ref.Obj()
				for _, k := range []string{"a", "b", "c", "d", "e"} {
					if chance(t, 60) {
						o.Set(k, fewNames(t, 1))
					}
				}
				stock = append(stock, o)
			} else {
				stock = append(stock, sampleDoc(t))
			}
		}
		log := ""
		steps := gen.Size(t.Rand, 25, 250)
		if chance(t, 3) {
			steps += 800
		}
		for i := 0; i < steps; i++ {
			w := t.Intn(len(ms))
			m := ms[w]
			t.ClearNotes()
			switch k := t.Intn(100); {
			case k < 72:
				di := t.Intn(len(stock))
				d := stock[di]
				text := sampleStyle(t, d)
				t.Note("step %d (%s), sampler %d, document: %s", i, clip(log), w, clip(text))
				sampleOK(t, m.s, text)
				for p := range paths(d, m.limit) {
					m.counts[p]++
				}
				m.docs++
				log += fmt.Sprintf("s%d:%d ", w, di)
				t.Count("samples")
			case k < 90:
				// a document that fails, or one whose meaning is open: then a
				// new sampler says what it holds
				text := oneOf(t, "", "x", "1", `"a"`, "{", "[", "[1", `{"a":1`, `{"b":{"c":1,"d":{]}}}`, `{"a":1,"b"}`, `{"a":1,"zz":tru}`, `{"a":1,"zz":{"q":2,}`, `[{"a":1},{"b":]`, `{"a":[1,2,{"c":1},x]}`, `{"zz":1 "b":2}`)
				if chance(t, 50) {
					b := []byte(sampleStyle(t, stock[t.Intn(len(stock))]))
					for k := 1 + t.Intn(2); k > 0 && len(b) > 2; k-- {
						b[1+t.Intn(len(b)-2)] = "{}[],:\"\\x1tn "[t.Intn(13)]
					}
					text = string(b)
				}
				t.Note("step %d (%s), sampler %d, document: %s", i, clip(log), w, clip(text))
				fresh := sampler.New(m.limit)
				var e1, e2 error
				t.Call("sampling", func() { e1 = fresh.Sample([]byte(text)) })
				t.Call("sampling", func() { e2 = m.s.Sample([]byte(text)) })
				if fmt.Sprint(e1) != fmt.Sprint(e2) {
					t.Failf("a new sampler says %v, this one says %v", e1, e2)
				}
				if e2 == nil {
					ok := true
					for _, k := range fresh.Keys() {
						if n, err := ref.Parse(k + ":exists"); err != nil || n.Kind != ref.KExpr {
							ok = false // not a document at all, no claim on its keys
						}
					}
					if !ok {
						return
					}
					for p := range keySet(t, fresh.Keys()) {
						m.counts[p]++
					}
					m.docs++
					t.Count("open_samples")
				} else {
					if fresh.Scanned() != 0 || len(fresh.Keys()) != 0 {
						t.Failf("a failed sample left %d documents and %d keys", fresh.Scanned(), len(fresh.Keys()))
					}
					t.Count("failed_samples")
				}
				log += fmt.Sprintf("f%d ", w)
			case k < 93:
				t.Call("resetting", func() { m.s.Reset() })
				m.counts, m.docs = map[string]int{}, 0
				log += fmt.Sprintf("r%d ", w)
				t.Note("step %d (%s)", i, clip(log))
				t.Count("resets")
			case k < 96: // what was handed out belongs to the caller
				for _, ks := range [][]string{m.s.Keys(), m.s.KeysAtThreshold(0)} {
					for i := range ks {
						ks[i] = "changed"
					}
				}
			}
			thr := gen.Pick(t.Rand, 0, 1, 25, 33, 34, 50, 51, 66, 67, 75, 99, 100, t.Intn(101))
			if m.docs > 0 && chance(t, 40) {
				// exactly at, just below and just above what some key has
				var ks []string
				for k := range m.counts {
					ks = append(ks, k)
				}
				if sort.Strings(ks); len(ks) > 0 {
					thr = 100*m.counts[ks[t.Intn(len(ks))]]/m.docs + t.Intn(2)
				}
			}
			if len(log) > 4000 {
				log = log[2000:]
			}
			m.check(t, thr)
			if t.Intn(8) == 0 {
				for _, o := range ms {
					o.check(t, 50)
				}
			}
			t.Count("steps")
		}
		t.Distinct(fmt.Sprint(t.Key, log))
		t.Sample(map[string]any{"history": clip(log), "samplers": len(ms)})
	})
	// every threshold on every split
	c.Run("thresholds", c.N(40, 100), func(t *fw.T) {
		docs := 1 + t.Intn(120)
		m := &sampleModel{s: sampler.New(-1), limit: -1, counts: map[string]int{}}
		want := map[string]int{}
		names := []string{"all", "one"}
		for k := 0; k <= 12; k++ {
			names = append(names, fmt.Sprint("k", k))
			want[fmt.Sprint("k", k)] = t.Intn(docs + 1)
		}
		want["all"], want["one"] = docs, 1
		for i := 0; i < docs; i++ {
			d := ref.Obj()
			for _, k := range names {
				if i < want[k] {
					d.Set(k, gen.Pick(t.Rand, ref.Num("1"), ref.Arr(ref.Num("1"), ref.Num("2")), ref.Str("x")))
					m.counts[k]++
				}
			}
			sampleOK(t, m.s, d.Text())
			m.docs++
		}
		t.Note("documents with each key, of %d: %v", docs, want)
		for thr := 0; thr <= 101; thr++ {
			m.check(t, thr)
		}
	})
	// many keys, over several lives of one sampler
	c.Run("wide", c.N(60, 500), func(t *fw.T) {
		m := &sampleModel{s: sampler.New(-1), limit: -1, counts: map[string]int{}}
		log := ""
		for i := 4 + t.Intn(8); i > 0; i-- {
			switch k := t.Intn(10); {
			case k < 6:
				d := ref.Obj()
				n, from := around(t, 9000), t.Intn(3)*700
				for k := 0; k < n; k++ {
					name := fmt.Sprint("k", from+k)
					d.Set(name, ref.Num("1"))
					m.counts[name]++
				}
				sampleOK(t, m.s, d.Text())
				m.docs++
				log += fmt.Sprintf("%d keys from %d, ", n, from)
			case k < 7:
				var err error
				bad := "{" + strings.Repeat(`"bad":1,"worse":{"x":[1]},`, around(t, 2000)) + "!"
				t.Call("sampling", func() { err = m.s.Sample([]byte(bad)) })
				if err == nil {
					t.Failf("a broken document was sampled")
				}
				log += "failed, "
			default:
				if len(m.counts) > 1000 {
					t.Count("wide_resets")
				}
				t.Call("resetting", func() { m.s.Reset() })
				m.counts, m.docs = map[string]int{}, 0
				log += "reset, "
			}
			t.ClearNotes()
			t.Note("%s", log)
			m.check(t, t.Intn(101))
		}
		t.Distinct(log)
	})
	c.Require("wide_resets", 20)
	c.Require("samples", 10000)
	c.Require("failed_samples", 1000)
	c.Require("resets", 300)
	c.Require("threshold_splits", 3000)
}

func runSampledKeys(c *fw.Ctx) {
	run := func(t *fw.T, mk func() *ref.J) {
		s := sampler.New(gen.Pick(t.Rand, -1, -1, -1, 2, 4))
		var docs []*ref.J
		for i := 1 + t.Intn(4); i > 0; i-- {
			d := mk()
			docs = append(docs, d)
			sampleOK(t, s, sampleStyle(t, d))
		}
		keys := s.Keys()
		sort.Strings(keys)
		t.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for i, key := range keys {
			if i > 20 {
				break
			}
			var m *jsonmatcher.Matcher
			var err error
			q := key + ":exists"
			t.ClearNotes()
			t.Note("query: %q", q)
			t.Call("building a matcher", func() { m, err = jsonmatcher.NewMatcher(q) })
			if err != nil {
				t.Failf("the sampled key cannot be used as a field: %v", err)
			}
			path := strings.Split(keyPath(t, key), sep)
			hit := false
			for _, d := range docs {
				found := ref.Resolve(path, d)
				text := d.Write(gen.DocStyle(t.Rand))
				got := match(t, m, []byte(text))
				t.Eval()
				if got != (len(found) > 0) {
					t.Failf("exists says %v, the path leads to %d values\n  document: %s", got, len(found), clip(text))
				}
				hit = hit || got
				if got {
					t.Count("exists")
					t.Distinct(key + text)
				} else {
					t.Count("lacking")
				}
				// and the value found there
				for i, v := range ref.Scalars(found) {
					if i > 10 {
						break
					}
					term := ""
					switch v.Kind {
					case ref.JBool:
						term = fmt.Sprint(v.Bool)
					case ref.JStr:
						if plain(v.Str) && len(v.Str) < 2000 {
							term = `"` + v.Str + `"`
						}
					case ref.JNum:
						if n, err := ref.Parse("a:" + v.Num); err == nil && n.Kind == ref.KExpr && n.Op == "==" && len(n.Vals) == 1 && (n.Vals[0].Type == ref.VInt || n.Vals[0].Type == ref.VFloat) {
							term = v.Num
						}
					}
					if term == "" {
						continue
					}
					q := key + ":" + term
					t.Note("query: %q", q)
					if !match(t, matcher(t, q), []byte(text)) {
						t.Failf("the value found there does not match\n  document: %s", clip(text))
					}
					t.Count("values")
				}
			}
			if !hit {
				t.Failf("the sampled key is found in no sampled document")
			}
			t.Sample(map[string]any{"query": clip(q)})
		}
	}
	c.Run("keys", c.N(5000, 50000), func(t *fw.T) {
		run(t, func() *ref.J { return sampleDoc(t) })
	})
	// documents of many levels
	c.Run("tall", c.N(60, 500), func(t *fw.T) {
		n := gen.Pick(t.Rand, 40, 90, 140, 300, 600)
		names := []string{"a", gen.Name(t.Rand), gen.Name(t.Rand)}
		run(t, func() *ref.J {
			d := gen.Pick(t.Rand, ref.Num("7"), ref.Str("word"), ref.Bool(true), ref.Null())
			for i := n + t.Intn(9); i > 0; i-- {
				if d.Kind != ref.JArr && chance(t, 10) {
					d = ref.Arr(d)
				}
				d = ref.Obj(gen.Pick(t.Rand, names...), d)
				if chance(t, 3) {
					d.Set("side qkz", ref.Num("5"))
				}
			}
			return d
		})
		t.Count("tall")
	})
	c.Require("tall", 50)
	// large documents, long keys
	c.Run("scale", c.N(150, 1500), func(t *fw.T) {
		run(t, func() *ref.J {
			d := enlarge(t, sampleDoc(t), true)
			if d.Kind == ref.JObj && chance(t, 50) {
				k := oneOf(t, "k", "é", `"`, "a.b", "\x01", " ")
				d.Keys = append(d.Keys, strings.Repeat(k, around(t, 20000)))
				d.Vals = append(d.Vals, ref.Bool(true))
				t.Count("long_keys")
			}
			return d
		})
		t.Count("enlarged")
	})
	c.Require("enlarged", 100)
	c.Require("exists", 10000)
	c.Require("lacking", 1000)
	c.Require("values", 3000)
}
