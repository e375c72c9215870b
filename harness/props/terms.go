package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"
)

// single asks a condition about one value of a field "v", written plainly.
func single(t *fw.T, e *ref.Node, leaf *ref.J) bool {
	text := gen.Text(t.Rand, e, gen.TextStyle{})
	t.ClearNotes()
	t.Note("query: %s", clip(text))
	doc := ref.Obj("v", leaf)
	return same(t, matcher(t, text), e, doc, doc.Text())
}

var vpath = []string{"v"}

var cmpOps = []string{"==", "<", "<=", ">", ">="}

func init() {
	fw.Register(&fw.Prop{
		ID:   "C06",
		Rule: "every numeric operator against numbers and numeric strings at, just below, just above and far from the term, in many spellings; non-trivial: a distinct (operator, term, value) triple whose value reads as a number",
		Run: func(c *fw.Ctx) {
			c.Run("boundary", c.N(20000, 200000), func(t *fw.T) {
				var v *ref.Val
				if chance(t, 50) {
					v = gen.IntVal(t.Rand, gen.Int(t.Rand))
				} else {
					v = gen.FloatVal(t.Rand, gen.FloatLit(t.Rand))
				}
				leaf := gen.Near(t.Rand, v)
				if chance(t, 10) {
					leaf = ref.Str(oneOf(t, "Inf", "-Inf", "inf", "NaN", "nan", "0x10", "1_0", ".5", "5.", "1e2", "+1", "-0", "1e400", "", " 1", "1 ", "１", "1,000", "0b1", "1e", "--1"))
				}
				for _, op := range cmpOps {
					single(t, ref.Expr(vpath, op, v), leaf)
				}
				if f, ok := ref.NumberOf(leaf); ok {
					t.Distinct(v.Canon() + leaf.Text())
					t.Count("numeric_value")
					if f == v.Number() {
						t.Count("equal")
					}
				} else {
					t.Count("not_numeric_value")
				}
				t.Sample(map[string]any{"term": v.Text, "value": leaf.Text()})
			})
			// neighbouring floats around a bound, and ranges with every order of value and bounds
			c.Run("range", c.N(12000, 120000), func(t *fw.T) {
				a := float64(t.Intn(2000)-1000) / gen.Pick(t.Rand, 1.0, 4, 10, 1000)
				b := a + gen.Pick(t.Rand, 0.001, 0.5, 1, 2.25, 1000)
				lit := func(f float64) *ref.Val {
					s := strconv.FormatFloat(f, 'f', -1, 64)
					if !strings.Contains(s, ".") {
						if chance(t, 60) {
							n, _ := strconv.ParseInt(s, 10, 64)
							return gen.IntVal(t.Rand, n)
						}
						s += ".0"
					}
					return gen.FloatVal(t.Rand, s)
				}
				e := ref.Expr(vpath, "><", lit(a), lit(b))
				for _, x := range []float64{a, b, math.Nextafter(a, -1e9), math.Nextafter(a, 1e9), math.Nextafter(b, -1e9), math.Nextafter(b, 1e9), (a + b) / 2, a - 1, b + 1} {
					s := strconv.FormatFloat(x, gen.Pick(t.Rand, byte('g'), byte('f'), byte('e')), -1, 64)
					leaf := ref.Num(s)
					if chance(t, 25) {
						leaf = ref.Str(s)
					}
					single(t, e, leaf)
				}
				t.Count("ranges")
				t.Distinct("range " + e.Dump())
			})
			semantics(c, "mixed", c.N(4000, 40000), 8, func(t *fw.T) *ref.Node {
				return gen.Config{Types: []ref.VType{ref.VInt, ref.VFloat}, Paths: [][]string{{"v"}, {"a", "b"}}, MaxList: 80}.Expr(t.Rand)
			})
			c.Require("numeric_value", 5000)
			c.Require("not_numeric_value", 300)
			c.Require("equal", 1000)
		},
	})

	fw.Register(&fw.Prop{
		ID:   "C07",
		Rule: "string terms (words, phrases, punctuation, wildcards, escaped wildcards, non-ASCII) against texts that contain them whole, glued to other characters, in other cases, altered, or not at all; non-trivial: a distinct (term, text) pair decided by both a matching and a non-matching text for the term",
		Run: func(c *fw.Ctx) {
			c.Run("near", c.N(16000, 160000), func(t *fw.T) {
				term := gen.StrTerm(t.Rand)
				e := ref.Expr(vpath, gen.Pick(t.Rand, "==", "==", "==", "~"), gen.StrVal(t.Rand, term))
				var yes, no bool
				for i := 0; i < 8; i++ {
					var leaf *ref.J
					if chance(t, 85) {
						leaf = ref.Str(gen.NearString(t.Rand, term))
					} else {
						leaf = gen.Scalar(t.Rand)
					}
					if single(t, e, leaf) {
						yes = true
					} else {
						no = true
					}
				}
				if yes && no {
					t.Distinct(term)
				}
				t.Sample(map[string]any{"term": term})
			})
			// every placement of a word in a small alphabet, exhaustively
			alphabet := []rune("aB_1 -.é")
			c.Run("exhaustive", len(alphabet)*len(alphabet)*10, func(t *fw.T) {
				i := mustIndex(t.Key)
				l, r := alphabet[i%len(alphabet)], alphabet[i/len(alphabet)%len(alphabet)]
				term := []string{"ab", "a", "1", "_", "a-b", "-a", "a-", "a?", "a*b", `a\?`}[i/len(alphabet)/len(alphabet)]
				e := ref.Expr(vpath, "==", gen.StrVal(t.Rand, term))
				core := strings.NewReplacer(`\?`, "?", "?", "x", "*", "y z").Replace(term)
				for _, s := range []string{core, string(l) + core, core + string(r), string(l) + core + string(r), string(l) + core + string(r) + core, strings.ToUpper(core) + string(r), core + "\n" + string(r), strings.Repeat("x ", 40) + string(l) + core + string(r)} {
					single(t, e, ref.Str(s))
				}
				t.Count("placements")
				t.Distinct(fmt.Sprint("placement", term, l, r))
			})
			// numbers are searched as text in plain notation
			c.Run("numbers", c.N(4000, 40000), func(t *fw.T) {
				lit := gen.NumLit(t.Rand)
				txt, ok := ref.TextOf(ref.Num(lit))
				if !ok {
					txt = lit
				}
				term := txt
				switch t.Intn(4) {
				case 0:
					term = txt[:1+t.Intn(len(txt))]
				case 1:
					term = txt + "0"
				case 2:
					term = lit
				}
				if len(term) > 1 && chance(t, 30) {
					term = term[:len(term)-1] + oneOf(t, "?", "*")
				}
				single(t, ref.Expr(vpath, "==", gen.StrVal(t.Rand, term)), ref.Num(lit))
				t.Count("numbers_as_text")
				t.Distinct("number " + term + lit)
			})
			c.Run("long", c.N(300, 3000), func(t *fw.T) {
				n := 50 + t.Intn(3000)
				term := gen.Sentence(t.Rand, 1+n/6)
				text := gen.NearString(t.Rand, term)
				if chance(t, 30) {
					text = gen.Sentence(t.Rand, n) + " needle " + gen.Sentence(t.Rand, n)
					term = oneOf(t, "needle", "need*", "NEEDLE", "needl?", "noodle")
				}
				single(t, ref.Expr(vpath, "==", gen.StrVal(t.Rand, term)), ref.Str(text))
				t.Count("long_texts")
				t.Distinct("long " + t.Key)
			})
			semantics(c, "lists", c.N(3000, 30000), 6, func(t *fw.T) *ref.Node {
				return gen.Config{Types: []ref.VType{ref.VString}, Paths: [][]string{{"v"}, {"a", "b"}}, MaxList: 80}.Expr(t.Rand)
			})
			c.Require("matched", 5000)
			c.Require("not_matched", 5000)
		},
		Assumptions: []string{"the text search library decides the loose comparison of terms outside of ASCII"},
	})

	fw.Register(&fw.Prop{
		ID:   "C08",
		Rule: "regular expressions of a pool with known matching and non-matching texts, and random ones, written with escaped slashes; non-trivial: a distinct (expression, text) pair",
		Run: func(c *fw.Ctx) {
			c.Run("pool", c.N(6000, 60000), func(t *fw.T) {
				re := gen.Regexes[gen.RegexIdx(t.Rand)]
				v := gen.RegexVal(t.Rand, re.Src)
				op := gen.Pick(t.Rand, "==", "==", "~")
				for _, s := range re.Yes {
					if !single(t, ref.Expr(vpath, op, v), ref.Str(s)) {
						t.Failf("a text known to match did not")
					}
					t.Distinct(re.Src + " " + s)
				}
				for _, s := range re.No {
					if single(t, ref.Expr(vpath, op, v), ref.Str(s)) {
						t.Failf("a text known not to match did")
					}
					t.Distinct(re.Src + " " + s)
				}
				t.Sample(map[string]any{"regex": re.Src, "yes": re.Yes, "no": re.No})
			})
			c.Run("random", c.N(12000, 120000), func(t *fw.T) {
				src := randomRegex(t)
				v := gen.RegexVal(t.Rand, src)
				for i := 0; i < 4; i++ {
					leaf := gen.Scalar(t.Rand)
					if chance(t, 60) {
						leaf = ref.Str(regexText(t))
					}
					single(t, ref.Expr(vpath, "==", v), leaf)
				}
				t.Count("random_expressions")
				t.Distinct("random " + src)
			})
			// expressions grown from the whole syntax of the engine
			c.Run("grown", c.N(8000, 80000), func(t *fw.T) {
				src := gen.RegexTree(t.Rand)
				v := gen.RegexVal(t.Rand, src)
				for i := 0; i < 5; i++ {
					s := regexText(t)
					switch t.Intn(4) {
					case 0, 1:
						s = gen.RegexSample(t.Rand, src)
					case 2:
						s = gen.NearRegex(t.Rand, v.Re)
					}
					single(t, ref.Expr(vpath, gen.Pick(t.Rand, "==", "==", "~"), v), ref.Str(s))
				}
				t.Count("grown_expressions")
				t.Distinct("grown " + src)
			})
			c.Require("grown_expressions", 1000)
			semantics(c, "lists", c.N(2000, 20000), 6, func(t *fw.T) *ref.Node {
				return gen.Config{Types: []ref.VType{ref.VRegex}, Paths: [][]string{{"v"}, {"a", "b"}}}.Expr(t.Rand)
			})
			// several expressions in one query, so that none borrows from another
			semantics(c, "several", c.N(2000, 20000), 6, func(t *fw.T) *ref.Node {
				cfg := gen.Config{Types: []ref.VType{ref.VRegex, ref.VString}, Paths: [][]string{{"v"}, {"w"}, {"x"}}}
				return ref.And(ref.Or(cfg.Expr(t.Rand), cfg.Expr(t.Rand)), ref.Not(cfg.Expr(t.Rand)))
			})
			c.Require("matched", 3000)
			c.Require("not_matched", 3000)
		},
		Assumptions: []string{"the regular expression engine of the Go library decides whether an expression matches a text"},
	})

	fw.Register(&fw.Prop{
		ID:          "C09",
		Rule:        "instants known by construction, written in many date formats, zones and epochs, compared with every operator to terms at and around them, with the local time zone of the process set away from UTC; non-trivial: a distinct (operator, term, written value) triple",
		Run:         runTimes,
		Assumptions: []string{"formats are limited to those the date library reads unambiguously; zone abbreviations are not used"},
	})

	fw.Register(&fw.Prop{
		ID:   "C10",
		Rule: "addresses and blocks against texts with addresses and blocks inside, at the edges of, next to and around them; non-trivial: a distinct (term, text) pair containing a valid address",
		Run: func(c *fw.Ctx) {
			c.Run("near", c.N(20000, 200000), func(t *fw.T) {
				v := gen.NetVal(t.Rand)
				e := ref.Expr(vpath, "==", v)
				for i := 0; i < 6; i++ {
					s := gen.NearNet(t.Rand, v)
					single(t, e, ref.Str(s))
					t.Distinct(v.Text + " " + s)
				}
				t.Sample(map[string]any{"term": v.Text})
			})
			// every prefix length against every prefix length, with the deciding bit flipped
			c.Run("prefixes", 33*33, func(t *fw.T) {
				i := mustIndex(t.Key)
				p, q := i%33, i/33
				a := uint32(t.Int63())
				for flip := -1; flip < 32; flip++ {
					b := a
					if flip >= 0 {
						b ^= 1 << uint(31-flip)
					}
					txt := dotted(a) + "/" + itoa(p)
					v, err := ref.ParseNet(txt)
					if err != nil {
						t.C.Fatalf("%v", err)
					}
					v.Text = txt
					single(t, ref.Expr(vpath, "==", v), ref.Str(dotted(b)+"/"+itoa(q)))
					if q == 32 {
						single(t, ref.Expr(vpath, "==", v), ref.Str("from "+dotted(b)+" port"))
					}
				}
				t.Count("prefix_pairs")
				t.Distinct(fmt.Sprint("prefix ", p, q))
			})
			semantics(c, "lists", c.N(3000, 30000), 6, func(t *fw.T) *ref.Node {
				return gen.Config{Types: []ref.VType{ref.VNet}, Paths: [][]string{{"v"}, {"a", "b"}}, MaxList: 60}.Expr(t.Rand)
			})
			c.Run("many", c.N(200, 2000), func(t *fw.T) {
				v := gen.NetVal(t.Rand)
				var b strings.Builder
				for i, n := 0, 20+t.Intn(300); i < n; i++ {
					b.WriteString(dotted(uint32(t.Int63())) + oneOf(t, " ", ",", "\n", ":80 ", "/24 ", " text "))
				}
				if chance(t, 50) {
					b.WriteString(gen.NearNet(t.Rand, v))
				}
				single(t, ref.Expr(vpath, "==", v), ref.Str(b.String()))
				t.Count("texts_with_many_addresses")
				t.Distinct("many " + t.Key)
			})
			c.Require("matched", 5000)
			c.Require("not_matched", 5000)
		},
	})

	fw.Register(&fw.Prop{
		ID:   "C11",
		Rule: "exists, null and booleans over documents where the field is missing, null, false, empty, an object, an array or several of these through arrays; non-trivial: a distinct (condition, document) pair",
		Run: func(c *fw.Ctx) {
			leaves := []*ref.J{nil, ref.Null(), ref.Bool(true), ref.Bool(false), ref.Num("0"), ref.Num("1"), ref.Str(""), ref.Str("null"), ref.Str("true"), ref.Str("false"), ref.Arr(), ref.Obj(),
				ref.Arr(ref.Null()), ref.Arr(ref.Null(), ref.Null()), ref.Arr(ref.Bool(true)), ref.Arr(ref.Bool(false), ref.Bool(true)), ref.Arr(ref.Arr(ref.Bool(true))), ref.Obj("x", ref.Null()), ref.Arr(ref.Obj("x", ref.Bool(true)))}
			conds := []*ref.Node{
				ref.Expr([]string{"a", "v"}, "exists"), ref.Expr([]string{"a", "v"}, "null"),
				ref.Expr([]string{"a", "v"}, "==", gen.BoolVal(true)), ref.Expr([]string{"a", "v"}, "==", gen.BoolVal(false)),
				ref.Expr([]string{"a", "v"}, "~", gen.BoolVal(true)), ref.Expr([]string{"a", "v"}, "~", gen.BoolVal(false), gen.BoolVal(true)),
			}
			n := len(leaves)
			// all triples of leaves in the elements of an array, exhaustively
			c.Run("triples", n*n*n, func(t *fw.T) {
				i := mustIndex(t.Key)
				arr := ref.Arr()
				for _, l := range []*ref.J{leaves[i%n], leaves[i/n%n], leaves[i/n/n]} {
					o := ref.Obj("k", ref.Num("1"))
					if l != nil {
						o.Set("v", l)
					}
					arr.Arr = append(arr.Arr, o)
				}
				doc := ref.Obj("a", arr)
				s := doc.Text()
				for _, e := range conds {
					text := gen.Text(t.Rand, e, gen.TextStyle{})
					t.ClearNotes()
					t.Note("query: %s", text)
					m := matcher(t, text)
					same(t, m, e, doc, s)
					// the same leaf without an array around it
					if i < n*n {
						d2 := ref.Obj("a", arr.Arr[0])
						same(t, m, e, d2, d2.Text())
					}
				}
				t.Distinct(s)
				t.Sample(map[string]any{"document": s})
			})
			semantics(c, "random", c.N(4000, 40000), 8, func(t *fw.T) *ref.Node {
				p := gen.Path(t.Rand)
				switch t.Intn(4) {
				case 0:
					return ref.Expr(p, "exists")
				case 1:
					return ref.Expr(p, "null")
				}
				return ref.Expr(p, "==", gen.BoolVal(chance(t, 50)))
			})
			c.Require("matched", 2000)
			c.Require("not_matched", 2000)
		},
	})
}

func mustIndex(key string) int {
	n, err := strconv.Atoi(key[strings.LastIndexByte(key, '/')+1:])
	if err != nil {
		panic(err)
	}
	return n
}

func dotted(a uint32) string {
	return fmt.Sprintf("%d.%d.%d.%d", a>>24, a>>16&255, a>>8&255, a&255)
}

func randomRegex(t *fw.T) string {
	for {
		var b strings.Builder
		if chance(t, 20) {
			b.WriteString(oneOf(t, "^", "(?i)", ".*", "(?s)"))
		}
		for i := 1 + t.Intn(5); i > 0; i-- {
			b.WriteString(oneOf(t, "a", "b", "c", "ab", "foo", ".", `\d`, `\w+`, `[a-c]`, `[^a]`, "(a|b)", "(?:foo|bar)", `\/`, `\\`, `\.`, " ", "é", "大", `\s`, `\b`, "x*", "y+", "z?", "1", "-", `"`, "(", ")", "{2}", `\pL`))
		}
		if chance(t, 20) {
			b.WriteString(oneOf(t, "$", ".*"))
		}
		if _, err := ref.ParseOnly("a:/" + b.String() + "/"); err == nil {
			return b.String()
		}
	}
}

func regexText(t *fw.T) string {
	var b strings.Builder
	for i := t.Intn(8); i > 0; i-- {
		b.WriteString(oneOf(t, "a", "b", "c", "ab", "foo", "bar", "1", "42", "/", "\\", ".", " ", "é", "大", "x", "yy", "z", "-", `"`, "A", "FOO", "\n", "É"))
	}
	return b.String()
}

func runTimes(c *fw.Ctx) {
	time.Local = time.FixedZone("XXX", -(7*3600 + 1800))
	ask := func(t *fw.T, e *ref.Node, leaf *ref.J, at time.Time) {
		// decided by instants, not by the date library
		var want bool
		v := e.Vals[0]
		switch e.Op {
		case "==":
			want = at.Equal(v.T)
			if v.Day {
				want = at.UTC().Format("2006-01-02") == v.T.Format("2006-01-02")
			}
		case "<":
			want = at.Before(v.T)
		case "<=":
			want = !at.After(v.T)
		case ">":
			want = at.After(v.T)
		case ">=":
			want = !at.Before(v.T)
		case "><":
			want = !at.Before(v.T) && !at.After(e.Vals[1].T)
		}
		text := gen.Text(t.Rand, e, gen.TextStyle{})
		doc := ref.Obj("v", leaf)
		t.ClearNotes()
		t.Note("query: %s", text)
		t.Note("document: %s", doc.Text())
		t.Note("instant written: %s", at.Format(time.RFC3339Nano))
		got := match(t, matcher(t, text), []byte(doc.Text()))
		t.Eval()
		if got != want {
			t.Failf("the query matches: %v, expected %v", got, want)
		}
		if got {
			t.Count("matched")
		} else {
			t.Count("not_matched")
		}
		t.Count("op " + e.Op)
		t.Distinct(e.Op + v.Text + leaf.Text())
		t.Sample(map[string]any{"query": text, "document": doc.Text(), "matches": got})
	}
	c.Run("formats", c.N(15000, 150000), func(t *fw.T) {
		at := gen.Instant(t.Rand)
		var leaf *ref.J
		if s, w, ok := gen.Epoch(t.Rand, at); ok && chance(t, 20) {
			at = w
			leaf = ref.Str(s)
			if len(s) <= 13 && chance(t, 60) {
				leaf = ref.Num(s)
			}
			t.Count("epochs")
		} else {
			s, w := gen.TimeTextAt(t.Rand, at)
			at = w
			leaf = ref.Str(s)
			t.Count("dates")
		}
		if chance(t, 15) {
			leaf = ref.Arr(ref.Str("nothing"), ref.Null(), leaf)
		}
		term := at
		switch t.Intn(7) {
		case 0:
			term = at.Add(time.Duration(gen.Pick(t.Rand, 1, -1)) * gen.Pick(t.Rand, time.Nanosecond, time.Millisecond, time.Second, time.Hour))
		case 1:
			term = at.AddDate(0, 0, gen.Pick(t.Rand, 1, -1))
		case 2:
			term = gen.Instant(t.Rand)
		}
		if y := term.Year(); y < 1 || y > 9998 {
			term = at
		}
		day := chance(t, 40)
		for _, op := range cmpOps {
			ask(t, ref.Expr(vpath, op, gen.TimeVal(t.Rand, term, day)), leaf, at)
		}
		lo, hi := gen.TimeVal(t.Rand, term, day), gen.TimeVal(t.Rand, term.Add(gen.Pick(t.Rand, time.Nanosecond, time.Second, 24*time.Hour, 400*24*time.Hour)), chance(t, 30))
		if e := ref.Expr(vpath, "><", lo, hi); ref.Validate(e) == nil {
			ask(t, e, leaf, at)
		}
	})
	// the day of a date term, to the nanosecond at both ends and in every zone
	c.Run("days", c.N(4000, 40000), func(t *fw.T) {
		d := gen.Instant(t.Rand).UTC()
		d = time.Date(d.Year(), d.Month(), d.Day(), 0, 0, 0, 0, time.UTC)
		if d.Year() < 2 || d.Year() > 9998 {
			return
		}
		e := ref.Expr(vpath, "==", gen.TimeVal(t.Rand, d, true))
		for _, off := range []time.Duration{-1, 0, 1, time.Second, 12 * time.Hour, 24*time.Hour - 1, 24 * time.Hour, 24*time.Hour + 1, -time.Second, 86399 * time.Second} {
			at := d.Add(off)
			ask(t, e, ref.Str(at.In(gen.Zone(t.Rand)).Format(time.RFC3339Nano)), at)
		}
		t.Count("days")
	})
	// values that are no dates never match
	c.Run("nodates", c.N(1500, 15000), func(t *fw.T) {
		leaf := gen.Pick(t.Rand, ref.Str("hello"), ref.Str(""), ref.Str("not a date"), ref.Bool(true), ref.Null(), ref.Str("2020-13-45"), ref.Str("32/13/2020 x"), ref.Obj("a", ref.Str("2020-01-01")), ref.Arr(), ref.Str("tomorrow"), ref.Str("2020-01-01 and more text"))
		op := gen.Pick(t.Rand, cmpOps...)
		e := ref.Expr(vpath, op, gen.TimeVal(t.Rand, gen.Instant(t.Rand), chance(t, 50)))
		if single(t, e, leaf) {
			t.Failf("a value that is no date matched")
		}
		t.Count("no_dates")
	})
	// dates with something wrong about them: only what the date library reads
	c.Run("bent", c.N(4000, 40000), func(t *fw.T) {
		at := gen.Instant(t.Rand)
		s, _ := gen.TimeTextAt(t.Rand, at)
		switch t.Intn(4) {
		case 0:
			a, b := 13+t.Intn(18), 1+t.Intn(12)
			if chance(t, 30) {
				b = 13 + t.Intn(40)
			}
			sep := oneOf(t, "/", "-", ".")
			s = fmt.Sprintf("%d%s%02d%s%d", a, sep, b, sep, 1950+t.Intn(100))
			if chance(t, 30) {
				s += oneOf(t, " 10:20", " 10:20:30", " 10:20:30 PM", " 25:00")
			}
		default:
			if x := numberRun.FindAllStringIndex(s, -1); len(x) > 0 {
				k := x[t.Intn(len(x))]
				s = s[:k[0]] + oneOf(t, "0", "00", "13", "24", "29", "30", "31", "32", "59", "60", "61", "99", "366", "1") + s[k[1]:]
			}
		}
		e := ref.Expr(vpath, gen.Pick(t.Rand, ">=", "<=", ">", "<", "=="), gen.TimeVal(t.Rand, gen.Pick(t.Rand, at, gen.Instant(t.Rand)), chance(t, 50)))
		single(t, e, ref.Str(s))
		if _, ok := ref.TimeOf(ref.Str(s)); !ok {
			t.Count("impossible_dates")
		}
		t.Distinct("bent" + s)
	})
	c.Require("impossible_dates", 300)
	semantics(c, "mixed", c.N(2500, 25000), 6, func(t *fw.T) *ref.Node {
		return gen.Config{Types: []ref.VType{ref.VTime}, Paths: [][]string{{"v"}, {"a", "b"}}}.Expr(t.Rand)
	})
	c.Require("matched", 5000)
	c.Require("not_matched", 5000)
	c.Require("epochs", 500)
}
