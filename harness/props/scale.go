package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/sampler"
)

// The sections in this file take the same oracles to sizes far from the usual:
// what a query is about stands behind a lot of other things, or there are
// very many of the things themselves.

// around gives a size next to one at which buffers, counters and small-number
// types end, or some other size up to max.
func around(t *fw.T, max int) int {
	edges := []int{64, 100, 127, 128, 200, 255, 256, 500, 512, 1000, 1023, 1024, 2000, 2048, 4095, 4096, 5000, 8192, 10000, 16384, 32767, 32768, 50000, 65535, 65536, 100000, 131072, 262144, 500000, 524288, 1000000, 1048576, 2097152, 4194304}
	var ok []int
	for _, e := range edges {
		if e <= max {
			ok = append(ok, e)
		}
	}
	if chance(t, 70) {
		// the larger ones more often
		i := len(ok) - 1 - t.Intn(len(ok))*t.Intn(len(ok))/len(ok)
		return ok[i] + t.Intn(5) - 2
	}
	return 1 + t.Intn(max)
}

func filler(t *fw.T, n int) []*ref.J {
	out := make([]*ref.J, 0, n)
	kind := t.Intn(5)
	for i := 0; i < n; i++ {
		switch {
		case kind == 0 || kind == 4 && i%3 == 0:
			out = append(out, ref.Num("-77"))
		case kind == 1 || kind == 4 && i%3 == 1:
			out = append(out, ref.Str("qqfill"))
		case kind == 2:
			out = append(out, ref.Null())
		case kind == 3:
			out = append(out, ref.Obj())
		default:
			out = append(out, ref.Obj("qq", ref.Num("1")))
		}
	}
	return out
}

func fillerText(t *fw.T, n int) string {
	w := oneOf(t, "q ", "qq fill ", "q\n", "- ", "é q ", "q7 ", "qqqqqqqqqqqqqqq. ")
	return strings.Repeat(w, n/len(w)+1)[:n/len(w)*len(w)]
}

// enlarge makes a document large without touching what the fields say; what
// the query now means on it is up to the reference.
func enlarge(t *fw.T, doc *ref.J, text bool) *ref.J {
	var objs, arrs, strs []*ref.J
	var parents []*ref.J // objects or arrays with scalars in them
	var walk func(v *ref.J)
	walk = func(v *ref.J) {
		switch v.Kind {
		case ref.JObj:
			objs = append(objs, v)
			for _, w := range v.Vals {
				walk(w)
			}
			if len(v.Vals) > 0 {
				parents = append(parents, v)
			}
		case ref.JArr:
			arrs = append(arrs, v)
			for _, w := range v.Arr {
				walk(w)
			}
		case ref.JStr:
			strs = append(strs, v)
		}
	}
	walk(doc)
	for k := 1 + t.Intn(2); k > 0; k-- {
		switch t.Intn(6) {
		case 0: // many keys in front
			if len(objs) > 0 {
				o := objs[t.Intn(len(objs))]
				n := around(t, 8192)
				keys := make([]string, 0, n+len(o.Keys))
				vals := filler(t, n)
				pre := oneOf(t, "qk", "qkéñ", "q.k ", "Q"+strings.Repeat("k", 40))
				for i := 0; i < n; i++ {
					keys = append(keys, fmt.Sprint(pre, i))
				}
				at := gen.Pick(t.Rand, 0, 0, len(o.Keys))
				o.Keys = append(append(keys[:n:n], o.Keys[at:]...), o.Keys[:at]...)
				o.Vals = append(append(vals[:n:n], o.Vals[at:]...), o.Vals[:at]...)
				t.Count("wide_objects")
			}
		case 1: // many elements in front
			if len(arrs) > 0 {
				a := arrs[t.Intn(len(arrs))]
				a.Arr = append(filler(t, around(t, 20000)), a.Arr...)
				t.Count("long_arrays")
			}
		case 2, 3: // a value becomes the last of many
			if len(parents) > 0 {
				o := parents[t.Intn(len(parents))]
				i := t.Intn(len(o.Vals))
				if v := o.Vals[i]; v.Kind != ref.JArr {
					o.Vals[i] = ref.Arr(append(filler(t, around(t, 20000)), v)...)
					t.Count("long_arrays")
				}
			}
		case 4: // long text in front
			if len(strs) > 0 && text {
				s := strs[t.Intn(len(strs))]
				n := around(t, 200000)
				if chance(t, 70) {
					s.Str = fillerText(t, n) + s.Str
				} else {
					s.Str = fillerText(t, n/2) + s.Str + " " + fillerText(t, n/2)
				}
				t.Count("long_texts")
			}
		case 5: // the last of many documents in one
			doc = ref.Arr(append(filler(t, around(t, 5000)), doc)...)
			t.Count("roots")
		}
	}
	return doc
}

// huge puts what a query asks for behind very many other things.
func huge(id string, quick, thorough int) {
	fw.Extend(id, func(c *fw.Ctx) {
		c.Run("huge", c.N(quick, thorough), func(t *fw.T) {
			n := around(t, 1048576)
			if n < 20000 {
				n += 30000
			}
			hit, miss, cond := `"needle"`, `"q"`, `"needle"`
			switch t.Intn(5) {
			case 0:
				hit, miss, cond = "7", "8", oneOf(t, "7", "<8", "><(6,7)")
			case 1:
				hit, miss, cond = "true", "false", "true"
			case 2:
				hit, miss, cond = `"10.1.2.3"`, `"9.9.9.9"`, "10.0.0.0/8"
			case 3:
				hit, miss, cond = `"zzneedlezz"`, `"hay"`, "/needle/"
			}
			there := chance(t, 75)
			last := miss
			if there {
				last = hit
			}
			var q, d string
			switch kind := t.Intn(6); kind {
			case 0: // elements that lead nowhere
				f := oneOf(t, "{}", "1", "null", "[]", `"x"`, `{"c":1}`, `[{"b":1}]`)
				q, d = "a.b:"+cond, `{"a":[`+strings.Repeat(f+",", n)+`{"b":`+last+`}]}`
			case 1: // elements that lead to other values
				n /= 8
				q, d = "a.b:"+cond, `{"a":[`+strings.Repeat(`{"b":`+miss+`},`, n)+`{"b":`+last+`}]}`
			case 2: // other values of the field
				n /= 4
				q, d = "a:"+cond, `{"a":[`+strings.Repeat(miss+",", n)+last+`]}`
			case 3: // other members
				n /= 4
				var b strings.Builder
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, `"k%x":%s,`, i, miss)
				}
				q, d = "a:"+cond, "{"+b.String()+`"a":`+last+"}"
			case 4: // spaces
				q, d = "a.b:"+cond, `{"a":`+strings.Repeat(" ", n)+`{`+strings.Repeat("\n", n)+`"b":`+strings.Repeat("\t", n)+last+"}}"
			case 5: // a long value in front
				q, d = "a.b:"+cond, `{"x":"`+strings.Repeat("x", 2*n)+`","a":{"y":[`+strings.Repeat("[],", n)+`{}],"b":`+last+"}}"
			}
			t.Note("query: %s, a document of %d bytes, there: %v: %s ... %s", q, len(d), there, clip(d[:50]), d[len(d)-50:])
			m := matcher(t, q)
			if ok := match(t, m, []byte(d)); ok != there {
				t.Failf("the answer is %v", ok)
			}
			t.Eval()
			t.Count("huge")
			t.Distinct(fmt.Sprint("huge ", t.Key))
		})
		c.Require("huge", int64(quick))
	})
}

// hugeText puts what a term asks for into a text of megabytes.
func hugeText(id string, quick, thorough int, terms ...[2]string) {
	fw.Extend(id, func(c *fw.Ctx) {
		c.Run("huge", c.N(quick, thorough), func(t *fw.T) {
			n := around(t, 4194304)
			if n < 100000 {
				n += 900000
			}
			term := terms[t.Intn(len(terms))]
			hay := oneOf(t, "x", "hay ", "q. ", "1 ", "-", "é ", "a b c ", "need ")
			front := strings.Repeat(hay, n/len(hay))
			there := chance(t, 70)
			text := front
			if there {
				switch t.Intn(3) {
				case 0:
					text = front + " " + term[1]
				case 1:
					text = term[1] + " " + front
				case 2:
					text = front[:len(front)/2/len(hay)*len(hay)] + " " + term[1] + " " + front
				}
			}
			d := ref.Obj("v", ref.Str(text)).Text()
			if chance(t, 30) {
				d = ref.Obj("v", ref.Arr(ref.Str("x"), ref.Str(text))).Text()
			}
			t.Note("condition: %s, a text of %d bytes, there: %v", term[0], len(text), there)
			m := matcher(t, "v:"+term[0])
			ok := match(t, m, []byte(d))
			t.Eval()
			if ok != there {
				t.Failf("the answer is %v", ok)
			}
			t.Count("huge")
			t.Distinct(fmt.Sprint("huge ", t.Key))
		})
		c.Require("huge", int64(quick))
	})
}

func init() {
	hugeText("C07", 24, 150, [2]string{`"needle"`, "needle"}, [2]string{`"NEEDLE work"`, "needle work"}, [2]string{`"nee?le"`, "NEEDLE"}, [2]string{`"needle*work"`, "needle and work"}, [2]string{`"大n"`, "大n"})
	hugeText("C08", 24, 150, [2]string{`/needle/`, "needle"}, [2]string{`/(?i)NEEDLE\s+w/`, "needle  work"}, [2]string{`/ne{2}d[a-m]e/`, "needle"}, [2]string{`/\bneedle\b/`, "needle"})
	hugeText("C10", 24, 150, [2]string{"10.20.30.40", "10.20.30.40"}, [2]string{"10.20.0.0/16", "10.20.30.40"}, [2]string{"10.20.30.40", "10.20.0.0/16"})
	huge("C05", 60, 300)
	huge("C40", 60, 300)
	huge("C14", 30, 150)
}

// scaled compares with the reference on enlarged documents.
func scaled(id string, quick, thorough int, mk func(t *fw.T) *ref.Node) {
	fw.Extend(id, func(c *fw.Ctx) {
		c.Run("scale", c.N(quick, thorough), func(t *fw.T) {
			q := mk(t)
			text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: 5})
			t.Note("query: %s", clip(text))
			m := matcher(t, text)
			long := true
			for _, e := range q.Exprs() {
				for _, v := range e.Vals {
					long = long && v.Type != ref.VTime
				}
			}
			for i := 0; i < 3; i++ {
				d := enlarge(t, gen.Doc(t.Rand, q), long)
				s := d.Text()
				same(t, m, q, d, s)
				t.Count("enlarged_documents")
				t.Distinct(fmt.Sprint("scale", t.Key, i))
			}
		})
		c.Require("enlarged_documents", int64(c.N(quick, thorough)))
	})
}

func oneType(types ...ref.VType) func(t *fw.T) *ref.Node {
	return func(t *fw.T) *ref.Node {
		return gen.Config{MaxNodes: 2, MaxList: 4, Types: types, Paths: [][]string{{"v"}, {"a", "b"}, {"x", "y", "z"}, {"long key"}}}.Query(t.Rand)
	}
}

func init() {
	anyQuery := func(t *fw.T) *ref.Node { return gen.Config{MaxNodes: 4, MaxList: 4}.Query(t.Rand) }
	scaled("C04", 250, 2500, anyQuery)
	scaled("C05", 250, 2500, func(t *fw.T) *ref.Node {
		e := gen.Config{MaxList: 3}.Expr(t.Rand)
		e.Field = gen.BarePath(t.Rand, 1+t.Intn(4))
		return e
	})
	scaled("C06", 250, 2500, oneType(ref.VInt, ref.VFloat))
	scaled("C07", 250, 2500, oneType(ref.VString))
	scaled("C08", 250, 2500, oneType(ref.VRegex))
	scaled("C09", 250, 2500, oneType(ref.VTime))
	scaled("C10", 250, 2500, oneType(ref.VNet))
	scaled("C11", 250, 2500, func(t *fw.T) *ref.Node {
		f := gen.BarePath(t.Rand, 1+t.Intn(3))
		return gen.Pick(t.Rand, ref.Expr(f, "exists"), ref.Expr(f, "null"), ref.Not(ref.Expr(f, "null")), ref.Expr(f, "==", gen.Val(t.Rand, ref.VBool)))
	})

	fw.Extend("C11", func(c *fw.Ctx) {
		// nearly all of very many values are null
		c.Run("many", c.N(200, 2000), func(t *fw.T) {
			n := max(around(t, 20000), 2)
			f := gen.BarePath(t.Rand, 1+t.Intn(3))
			vals := make([]*ref.J, n)
			for i := range vals {
				vals[i] = ref.Null()
			}
			for k := t.Intn(3); k > 0; k-- {
				vals[gen.Pick(t.Rand, n-1, n-1, 0, t.Intn(n))] = gen.Pick(t.Rand, ref.Num("0"), ref.Str(""), ref.Bool(false), ref.Obj(), ref.Arr(), ref.Arr(ref.Null()), ref.Obj("x", ref.Null()), gen.Any(t.Rand, 2))
			}
			last := f[len(f)-1]
			var v *ref.J
			if chance(t, 50) { // in one array, or in as many objects
				v = ref.Obj(last, ref.Arr(vals...))
			} else {
				for i := range vals {
					vals[i] = ref.Obj(last, vals[i])
				}
				v = ref.Arr(vals...)
			}
			for i := len(f) - 2; i >= 0; i-- {
				v = ref.Obj(f[i], v)
			}
			q := gen.Pick(t.Rand, ref.Expr(f, "null"), ref.Expr(f, "null"), ref.Not(ref.Expr(f, "null")), ref.Expr(f, "exists"), ref.Expr(f, "==", gen.Val(t.Rand, ref.VBool)))
			text := gen.Text(t.Rand, q, gen.TextStyle{})
			t.Note("query: %s", clip(text))
			same(t, matcher(t, text), q, v, v.Text())
			t.Count("many_nulls")
			t.Distinct("many" + t.Key)
		})
		c.Require("many_nulls", 200)
	})

	// very long queries: the reference parser says what they are
	fw.Extend("C02", func(c *fw.Ctx) {
		c.Run("scale", c.N(40, 300), func(t *fw.T) {
			agree(t, longQuery(t, c.N(100000, 200000)))
			t.Count("long_queries")
			t.Distinct(t.Key)
		})
		c.Require("long_queries", int64(c.N(40, 300)))
	})
	fw.Extend("C03", func(c *fw.Ctx) {
		c.Run("scale", c.N(120, 1000), func(t *fw.T) {
			n := around(t, c.N(131072, 270000))
			var q string
			switch t.Intn(6) {
			case 0, 1:
				s := fillerText(t, n) + oneOf(t, "end", "é", `"`, "\n", "\\")
				q = "a:" + gen.QuoteAQL(t.Rand, s, gen.Pick(t.Rand, 0, 2))
			case 2:
				q = gen.QuoteAQL(t.Rand, fillerText(t, n)+"end", 0) + ".b:1"
			case 3:
				q = "a:/" + strings.Repeat("q", min(n, 20000)) + oneOf(t, `\/`, `\d`, "x", "é") + "/"
			case 4:
				q = "a:" + oneOf(t, "0.", "1.", "-2.") + strings.Repeat(oneOf(t, "0", "3", "9"), min(n, 100000)) + "7"
			default:
				k := min(n/4, 20000)
				q = "a:(" + list(k, oneOf(t, "%d", `"s%d"`, "%d.5", "/s%d/")) + `,"last")`
			}
			q += oneOf(t, "", ` AND last:"one"`)
			got := agree(t, q)
			if got == nil {
				t.Failf("a long literal was rejected")
			}
			t.Count("long_literals")
			t.Distinct(t.Key)
		})
		c.Require("long_literals", int64(c.N(120, 1000)))
	})
	fw.Extend("C04", func(c *fw.Ctx) {
		// very many conditions, decided by one of them
		c.Run("conditions", c.N(60, 600), func(t *fw.T) {
			n := around(t, 4096)
			and := chance(t, 50)
			at := gen.Pick(t.Rand, n-1, t.Intn(n), 0)
			d := ref.Obj()
			q := (*ref.Node)(nil)
			var parts []*ref.Node
			for i := 0; i < n; i++ {
				v := and
				if i == at && chance(t, 80) {
					v = !and
				}
				f := fmt.Sprint("f", i%700)
				e := ref.Expr([]string{f}, "==", gen.IntVal(t.Rand, int64(i)))
				neg := chance(t, 20)
				if v != neg {
					if d.Get(f) == nil {
						d.Set(f, ref.Arr())
					}
					a := d.Get(f)
					a.Arr = append(a.Arr, ref.Num(itoa(i)))
				}
				if neg {
					e = ref.Not(e)
				}
				parts = append(parts, e)
			}
			right := chance(t, 70)
			join := ref.Or
			if and {
				join = ref.And
			}
			if right {
				q = parts[n-1]
				for i := n - 2; i >= 0; i-- {
					q = join(parts[i], q)
				}
			} else {
				q = parts[0]
				for _, p := range parts[1:] {
					q = join(q, p)
				}
				if n > 1500 {
					return
				}
			}
			text := gen.Text(t.Rand, q, gen.TextStyle{Plain: true})
			t.Note("%d conditions, decided at %d: %s", n, at, clip(text))
			same(t, matcher(t, text), q, d, d.Text())
			t.Count("many_conditions")
			t.Distinct("conditions" + t.Key)
		})
		c.Require("many_conditions", 20)
	})
	fw.Extend("C12", func(c *fw.Ctx) {
		c.Run("scale", c.N(120, 1200), func(t *fw.T) {
			// long lists, one value of which is there
			n := max(around(t, 5000), 2)
			hit := gen.Pick(t.Rand, 0, n-1, t.Intn(n), -1)
			mix := t.Intn(5)
			if chance(t, 30) {
				n = 2 + t.Intn(40)
			}
			if hit >= n {
				hit = t.Intn(n)
			}
			e := ref.Expr([]string{"v"}, "==")
			taken := map[int64]bool{}
			v := ref.Null()
			words := oneOf(t, "s%d", "s%d", "two s%d", "s%d é", "s%d*", "*s%d", "s%d?", "(%d)", "s-%d", "%d.")
			for i := 0; i < n; i++ {
				kind := mix
				if mix == 3 {
					kind = t.Intn(3)
				}
				switch kind {
				case 4: // all sizes and signs
					x := t.Int63() >> t.Intn(63)
					if chance(t, 50) {
						x = -x
					}
					if taken[x] {
						x = int64(i) + 1<<40
					}
					taken[x] = true
					s := fmt.Sprint(x)
					e.Vals = append(e.Vals, &ref.Val{Type: ref.VInt, I: x, Text: s})
					if i == hit {
						v = gen.Pick(t.Rand, ref.Num(s), ref.Str(s))
					}
				case 0:
					e.Vals = append(e.Vals, &ref.Val{Type: ref.VInt, I: int64(i), Text: itoa(i)})
					if i == hit {
						v = gen.Pick(t.Rand, ref.Num(itoa(i)), ref.Str(itoa(i)), ref.Num(itoa(i)+".0"))
					}
				case 1:
					w := fmt.Sprintf(words, i)
					e.Vals = append(e.Vals, gen.StrVal(t.Rand, w))
					if i == hit {
						w = strings.NewReplacer("*", oneOf(t, "", "qq"), "?", "q").Replace(w)
						if chance(t, 40) {
							w = strings.ToUpper(w)
						}
						v = ref.Str(oneOf(t, "", "", "x ", "(", "x-", "x", "x.", "\t") + w + oneOf(t, "", "", " y", ", y", ".", ")", "-y", "y", "'s"))
					}
				default:
					e.Vals = append(e.Vals, gen.FloatVal(t.Rand, itoa(i)+".5"))
					if i == hit {
						v = ref.Num(itoa(i) + ".50")
					}
				}
			}
			w := ref.Expr(e.Field, e.Op, append([]*ref.Val(nil), e.Vals...)...)
			t.Shuffle(n, func(i, j int) { w.Vals[i], w.Vals[j] = w.Vals[j], w.Vals[i] })
			k := 1 + t.Intn(n-1)
			split := ref.Or(ref.Expr(e.Field, "==", e.Vals[:k]...), ref.Expr(e.Field, "==", e.Vals[k:]...))
			d := ref.Obj("v", v)
			if chance(t, 30) {
				d = ref.Obj("v", ref.Arr(append(filler(t, 300), v)...))
			}
			for _, q := range []*ref.Node{e, w, split, ref.Not(e)} {
				text := gen.Text(t.Rand, q, gen.TextStyle{Plain: true})
				t.ClearNotes()
				t.Note("list of %d, value %d, query: %s", n, hit, clip(text))
				same(t, matcher(t, text), q, d, d.Text())
			}
			t.Count("long_lists")
			t.Distinct("scale" + t.Key)
		})
		c.Require("long_lists", 100)
	})
	fw.Extend("C13", func(c *fw.Ctx) {
		c.Run("scale", c.N(90, 900), func(t *fw.T) {
			n := max(around(t, 10000), 3)
			f := oneOf(t, "%d", `"s%d"`, "%d.5", "/s%d/", "10.%d.0.1/8")
			parts := make([]string, n)
			for i := range parts {
				parts[i] = fmt.Sprintf(f, i)
				if f == "10.%d.0.1/8" {
					parts[i] = fmt.Sprintf("10.%d.%d.1", i>>8&255, i&255)
				}
			}
			i, j := t.Intn(n), t.Intn(n)
			if chance(t, 50) {
				i, j = 0, n-1-t.Intn(3)
			}
			what := ""
			switch t.Intn(6) {
			case 0, 1, 2:
				parts[j] = parts[i]
				what = "repeated"
			case 3:
				parts[i], parts[j] = "true", "false"
				what = "both"
			case 4:
				parts[i] = "true"
			}
			agreeAt(t, oneOf(t, "", "x:1 AND ")+"a:("+strings.Join(parts, oneOf(t, ",", ", "))+")"+oneOf(t, "", " OR b:2"))
			t.Count("long_lists")
			t.Distinct(fmt.Sprint(t.Key, what))
		})
		c.Run("far", c.N(24, 240), func(t *fw.T) {
			// the wrong condition comes after a very long query
			pre := longQuery(t, 70000)
			bad := oneOf(t, `v:<"x"`, "v:><(2,1)", "v:(1,1)", "v:~5", "v:(true,false)", "v:><(1,2,3)", "v:<(1,2)")
			agreeAt(t, pre+oneOf(t, " AND ", " OR ", "\nAND\n")+bad+oneOf(t, "", " OR b:2"))
			t.Distinct("far" + t.Key)
		})
		c.Require("long_lists", 50)
	})
	fw.Extend("C14", func(c *fw.Ctx) {
		c.Run("scale", c.N(120, 1200), func(t *fw.T) {
			q := anyQuery(t)
			text := gen.Text(t.Rand, q, gen.TextStyle{})
			t.Note("query: %s", clip(text))
			m := matcher(t, text)
			d := enlarge(t, gen.Doc(t.Rand, q), true)
			for i := 0; i < 2; i++ {
				s := d.Write(ref.Style{R: t.Rand, Space: gen.Pick(t.Rand, 0, 5), Esc: gen.Pick(t.Rand, 0, 10, 100), Shuffle: chance(t, 70)})
				if chance(t, 30) {
					s = strings.Repeat(oneOf(t, " ", "\n"), around(t, 70000)) + s + strings.Repeat("\t", around(t, 70000))
				}
				want := ref.Eval(q, d, nil)
				if got := guarded(t, m, s); got != want {
					t.Failf("the query matches: %v, expected %v\n  document: %s", got, want, clip(s))
				}
				t.Eval()
			}
			t.Count("enlarged_documents")
			t.Distinct("scale" + t.Key)
		})
		c.Require("enlarged_documents", 100)
	})
	fw.Extend("C15", func(c *fw.Ctx) {
		// documents of very different sizes in any order, through several matchers
		c.Run("sizes", c.N(120, 800), func(t *fw.T) {
			var ls []*live
			for i := 0; i < 3; i++ {
				l := newLive(t, gen.Config{MaxNodes: 3, MaxList: 3})
				if chance(t, 40) {
					l.q = ref.Not(l.q)
					l.m = matcher(t, "NOT ("+l.text+")")
				}
				ls = append(ls, l)
			}
			for i := 0; i < 12; i++ {
				l := ls[t.Intn(len(ls))]
				d := gen.Doc(t.Rand, l.q)
				switch t.Intn(4) {
				case 0:
					d = gen.Pick(t.Rand, ref.Obj(), ref.Arr(), ref.Null(), ref.Num("0"), ref.Str(""), ref.Obj("a", ref.Null()), ref.Arr(ref.Obj()))
				case 1, 2:
					n := gen.Pick(t.Rand, 100, 5000, 70000, 70000, 300000, 1100000, 2200000)
					pad := ref.Str(strings.Repeat(oneOf(t, "x", "1", " "), n))
					if chance(t, 30) {
						pad = ref.Arr()
						for k := 0; k < n/20; k++ {
							pad.Arr = append(pad.Arr, ref.Num("1234567890.25"))
						}
					}
					if d.Kind == ref.JObj {
						d.Set("padding qkz", pad)
					} else {
						d = ref.Arr(pad, d)
					}
				}
				s := d.Text()
				t.ClearNotes()
				t.Note("document %d, %d bytes: %s", i, len(s), clip(s))
				if got, want := match(t, l.m, []byte(s)), ref.Eval(l.q, d, nil); got != want {
					t.Failf("the matcher says %v, expected %v", got, want)
				}
				t.Eval()
				if len(s) > 1<<20 {
					t.Count("megabyte_documents")
				}
			}
			t.Distinct("sizes" + t.Key)
		})
		c.Require("megabyte_documents", 30)
		// very many documents through one matcher
		c.Run("age", c.N(8, 40), func(t *fw.T) {
			l := newLive(t, gen.Config{MaxNodes: 3, MaxList: 3})
			var docs [][]byte
			var want []bool
			for i := 0; i < 40; i++ {
				d := gen.Doc(t.Rand, l.q)
				docs = append(docs, []byte(d.Text()))
				want = append(want, ref.Eval(l.q, d, nil))
			}
			n := c.N(70000, 300000)
			for i := 0; i < n; i++ {
				k := t.Intn(len(docs))
				if got := match(t, l.m, docs[k]); got != want[k] {
					t.Failf("use %d: the matcher says %v, expected %v\n  document: %s", i, got, want[k], clip(string(docs[k])))
				}
				t.Eval()
			}
			t.Count("aged_matchers")
			t.Distinct("age" + t.Key)
		})
		// millions of documents of few kinds, and then others
		c.Run("old", c.N(10, 30), func(t *fw.T) {
			l := newLive(t, gen.Config{MaxNodes: 2, MaxList: 2})
			var docs [][]byte
			var want []bool
			for i := 0; i < 30; i++ {
				d := gen.Doc(t.Rand, l.q)
				docs = append(docs, []byte(d.Text()))
				want = append(want, ref.Eval(l.q, d, nil))
			}
			// what it sees most: nothing of interest, broken ones, always a
			// match, never a match, or all of it
			var diet [][]byte
			switch t.Intn(5) {
			case 0:
				diet = [][]byte{[]byte("0"), []byte("{}")}
			case 1:
				diet = [][]byte{[]byte("{"), []byte("tru"), []byte("0")}
			default:
				kind := t.Intn(2) == 0
				for k, d := range docs {
					if want[k] == kind && len(d) < 200 && len(diet) < 3 {
						diet = append(diet, d)
					}
				}
				if len(diet) == 0 {
					diet = [][]byte{[]byte("null"), []byte(`{"x":{"y":1}}`)}
				}
			}
			total, next := 0, 100
			if chance(t, 60) { // nothing else for a long time
				next = gen.Pick(t.Rand, 1000100, 1048600, 1<<21)
			}
			for total < c.N(2200000, 17000000) {
				t.Call("matching", func() {
					for ; total < next; total++ {
						l.m.Match(diet[total%len(diet)])
					}
				})
				for k, d := range docs {
					if got := match(t, l.m, d); got != want[k] {
						t.Failf("after %d documents the matcher says %v, expected %v\n  document: %s", total, got, want[k], clip(string(d)))
					}
				}
				t.Eval()
				next += next/2 + t.Intn(50)
			}
			t.Count("old_matchers")
			t.Distinct("old" + t.Key)
		})
		c.Require("old_matchers", 10)
		// documents of very different sizes in turn
		c.Run("sizes", c.N(40, 400), func(t *fw.T) {
			l := newLive(t, gen.Config{MaxNodes: 4, MaxList: 3})
			for i := 0; i < 25; i++ {
				d := gen.Doc(t.Rand, l.q)
				if i%2 == 0 {
					d = enlarge(t, d, false)
				}
				same(t, l.m, l.q, d, d.Text())
			}
			t.Count("size_changes")
			t.Distinct("sizes" + t.Key)
		})
		c.Require("aged_matchers", 8)
		c.Require("size_changes", 20)
	})
	fw.Extend("C16", fresh)
	fw.Extend("C17", func(c *fw.Ctx) {
		c.Run("age", c.N(4, 16), func(t *fw.T) {
			q := unshare(gen.Config{MaxNodes: 3, MaxList: 2}.Query(t.Rand))
			text := gen.Text(t.Rand, q, gen.TextStyle{})
			t.Note("query: %s", clip(text))
			n, err := parse(t, text)
			if err != nil {
				t.Failf("valid query rejected: %v", err)
			}
			m := matcher(t, text)
			want := map[*ref.Node]*ref.Stat{}
			var docs [][]byte
			times := int64(c.N(14000, 60000))
			for i := 0; i < 5; i++ {
				d := gen.Doc(t.Rand, q)
				for len(d.Text()) > 500 {
					d = gen.Doc(t.Rand, q)
				}
				one := map[*ref.Node]*ref.Stat{}
				ref.Eval(q, d, one)
				addStats(want, one, times)
				docs = append(docs, []byte(d.Text()))
			}
			for i := int64(0); i < times; i++ {
				for _, d := range docs {
					match(t, m, d)
				}
			}
			if b := checkStats(m.Stats(), n, q, want); b != "" {
				t.Failf("after %d documents: %s", times*5, b)
			}
			t.Eval()
			t.Count("aged_matchers")
			t.Distinct("age" + text)
		})
		// counts beyond what 24 bits hold, in a program without the race
		// detector, which would take minutes
		c.RunSeq("millions", c.N(1, 4), func(t *fw.T) {
			each := (1<<24)/counters + 1000 + t.Intn(1000)
			out := fw.ProcessEnv(c, "", []string{"VERIF_PROBE=1"}, fw.Built(c, "probe-plain"), "count", strconv.Itoa(each))
			n := int64(counters*each) + 1
			want := fmt.Sprint([]int64{3 * n, 2 * n, 3 * n, n, 2 * n, n, 2 * n, n})
			if out.Code != 0 || out.Stdout != want {
				t.Failf("after %d documents of each of three kinds the counts are %s, expected %s\n%s", n, clip(out.Stdout), want, clip(out.Stderr))
			}
			t.Eval()
			t.Count("million_counts")
			t.Distinct("millions" + t.Key)
		})
		c.Require("million_counts", 1)
		c.Run("big", c.N(12, 100), func(t *fw.T) {
			q := unshare(gen.Config{MaxList: 2}.Tree(t.Rand, 200+t.Intn(1200)))
			text := gen.Text(t.Rand, q, gen.TextStyle{})
			t.Note("query: %s", clip(text))
			n, err := parse(t, text)
			if err != nil {
				t.Failf("valid query rejected: %v", err)
			}
			m := matcher(t, text)
			want := map[*ref.Node]*ref.Stat{}
			for i := 0; i < 4; i++ {
				d := gen.Doc(t.Rand, q)
				ref.Eval(q, d, want)
				match(t, m, []byte(d.Text()))
			}
			if b := checkStats(m.Stats(), n, q, want); b != "" {
				t.Failf("after 4 documents: %s", b)
			}
			t.Eval()
			t.Count("big_queries")
			t.Distinct("big" + text)
		})
		c.Require("aged_matchers", 4)
		c.Require("big_queries", 12)
	})
	fw.Extend("C18", func(c *fw.Ctx) {
		c.Run("scale", c.N(50, 500), func(t *fw.T) {
			text := longQuery(t, c.N(120000, 200000))
			t.Note("query: %q", clip(text))
			want, err := ref.Parse(text)
			if err != nil {
				c.Fatalf("generated query: %v", err)
			}
			n, err := parse(t, text)
			if err != nil {
				t.Failf("valid query rejected: %v", err)
			}
			as, ws := astExprs(n, nil), want.Exprs()
			if len(as) != len(ws) {
				t.Failf("parsed into %d conditions, expected %d", len(as), len(ws))
			}
			at := func(i int) {
				a, w := as[i], ws[i]
				t.Eval()
				if p := posOf(text, w.Lo, w.Hi); a.Pos() != p {
					t.Failf("condition %q is at %+v, expected %+v", clip(text[w.Lo:w.Hi]), a.Pos(), p)
				}
				for k, v := range a.RVals {
					if k > 3 && k < len(a.RVals)-3 {
						continue
					}
					if p := posOf(text, w.Vals[k].Lo, w.Vals[k].Hi); v.Pos() != p {
						t.Failf("value %q is at %+v, expected %+v", clip(text[w.Vals[k].Lo:w.Vals[k].Hi]), v.Pos(), p)
					}
				}
				t.Count("far_positions")
			}
			at(0)
			at(len(as) - 1)
			for k := 0; k < 60; k++ {
				at(t.Intn(len(as)))
			}
			t.Distinct("scale" + t.Key)
		})
		c.Require("far_positions", 1000)
	})
	fw.Extend("C19", func(c *fw.Ctx) {
		// many visitors on a large tree
		c.Run("scale", c.N(20, 200), func(t *fw.T) {
			q := gen.Config{MaxList: 2}.Tree(t.Rand, 200+t.Intn(2500))
			text := gen.Text(t.Rand, q, gen.TextStyle{})
			t.Note("query: %s", clip(text))
			size := q.Size()
			nv := 1 + t.Intn(40)
			seen := make([][]ast.Node, nv)
			stop := make([]int, nv)
			var vs []parser.Visitor
			for i := range seen {
				stop[i] = -1
				if chance(t, 20) {
					stop[i] = t.Intn(size)
				}
				vs = append(vs, parser.VisitorFunc(func(n ast.Node) error {
					seen[i] = append(seen[i], n)
					if len(seen[i])-1 == stop[i] {
						return parser.SkipAll
					}
					return nil
				}))
			}
			n, err := parse(t, text, parser.Visitors(vs...))
			if err != nil {
				t.Failf("valid query rejected: %v", err)
			}
			all := preorder(n, nil)
			t.Eval()
			for i := range seen {
				want := all
				if stop[i] >= 0 {
					want = all[:stop[i]+1]
				}
				if len(seen[i]) != len(want) {
					t.Failf("visitor %d of %d was called %d times, expected %d", i, nv, len(seen[i]), len(want))
				}
				for k := range want {
					if seen[i][k] != want[k] {
						t.Failf("call %d of visitor %d was with %s, expected %s", k, i, clip(seen[i][k].String()), clip(want[k].String()))
					}
				}
				c.Count("calls", int64(len(want)))
			}
			t.Count("big_trees")
			t.Distinct("scale" + t.Key)
		})
		c.Require("big_trees", 20)
		// very many messages
		c.Run("notes", c.N(60, 400), func(t *fw.T) {
			q := gen.Config{MaxList: 2}.Tree(t.Rand, gen.Pick(t.Rand, 1, 30, 300))
			text := gen.Text(t.Rand, q, gen.TextStyle{})
			t.Note("query: %s", clip(text))
			per := gen.Pick(t.Rand, 1, 5, 40, 300, 2500)
			fail := chance(t, 30)
			type note struct {
				kind parser.MessageType
				pos  ast.Pos
				msg  string
			}
			var want []note
			failed := -1
			v := parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error {
				pos := ast.NoPosition()
				e, placed := n.(*ast.ExprNode)
				if placed {
					pos = e.Pos()
				}
				for i := 0; i < per && len(want) < 70000; i++ {
					msg := fmt.Sprint("note ", len(want)%977)
					kind := gen.Pick(t.Rand, parser.MsgHint, parser.MsgWarning)
					if fail && chance(t, 1) {
						kind = parser.MsgError
						if failed < 0 {
							failed = len(want)
						}
					}
					want = append(want, note{kind, pos, msg})
					switch kind {
					case parser.MsgHint:
						tape.HintAt(pos, msg)
					case parser.MsgWarning:
						tape.WarningAt(pos, msg)
					default:
						tape.ErrorAt(pos, msg)
					}
				}
				return nil
			})
			_, err := parse(t, text, parser.Visitors(v))
			t.Eval()
			if failed < 0 && err != nil {
				t.Failf("%d hints and warnings failed the parse: %v", len(want), err)
			}
			if failed >= 0 {
				var pe *parser.ParseError
				if !errors.As(err, &pe) || pe.Message() != want[failed].msg || pe.Pos() != want[failed].pos {
					t.Failf("message %d of %d was the first error, the parse says %v", failed, len(want), err)
				}
				t.Count("errors_among_notes")
			}
			got := v.Messages()
			if len(got) != len(want) {
				t.Failf("%d messages were recorded, %d are kept", len(want), len(got))
			}
			for i, w := range want {
				if g := got[i]; g.Type != w.kind || g.Pos() != w.pos || g.Message() != w.msg {
					t.Failf("message %d of %d is %v, recorded was %q at %v", i, len(want), g, w.msg, w.pos)
				}
			}
			if len(want) > 1000 {
				t.Count("many_notes")
			}
			t.Distinct("notes" + t.Key)
		})
		c.Require("many_notes", 15)
		// one visitor, several times
		c.Run("again", c.N(1500, 15000), func(t *fw.T) {
			q := unshare(gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 4, 12), MaxList: 3}.Query(t.Rand))
			text := gen.Text(t.Rand, q, gen.TextStyle{Parens: 10})
			t.Note("query: %q", clip(text))
			var log []string
			act := func(who string, n ast.Node) error {
				log = append(log, who+" "+n.String())
				return nil
			}
			all := []parser.Visitor{
				parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error {
					tape.Hint("seen")
					return act("0", n)
				}),
				parser.VisitorFunc(func(n ast.Node) error { return act("1", n) }),
				&named{"2", act},
			}
			var opts []parser.Option
			var order []int
			for i := 2 + t.Intn(5); i > 0; i-- {
				var vs []parser.Visitor
				for k := t.Intn(3); k >= 0; k-- {
					v := t.Intn(len(all))
					vs = append(vs, all[v])
					order = append(order, v)
				}
				opts = append(opts, parser.Visitors(vs...))
			}
			t.Note("visitors: %v", order)
			n, err := parse(t, text, opts...)
			if err != nil {
				t.Failf("valid query rejected: %v", err)
			}
			t.Eval()
			var want []string
			hints := 0
			for _, v := range order {
				for _, k := range preorder(n, nil) {
					want = append(want, fmt.Sprint(v, " ", k.String()))
					if v == 0 {
						hints++
					}
				}
			}
			if fmt.Sprintf("%q", log) != fmt.Sprintf("%q", want) {
				t.Failf("the calls were %q, expected %q", log, want)
			}
			if got := len(all[0].(*parser.MessageVisitor).Messages()); got != hints {
				t.Failf("%d hints were recorded, %d are there", hints, got)
			}
			t.Count("given_again")
			t.Distinct("again" + fmt.Sprint(order) + text)
		})
		c.Require("given_again", 1000)
	})
	fw.Extend("C20", func(c *fw.Ctx) {
		c.Run("scale", c.N(30, 300), func(t *fw.T) {
			// very many advisories, the same and different
			type exp struct {
				kind   string
				lo, hi int
			}
			var want []exp
			n := around(t, 3000)
			text := strings.Repeat(oneOf(t, " ", "\n"), t.Intn(300))
			for i := 0; i < n; i++ {
				if i > 0 {
					text += oneOf(t, " AND ", " OR ", "\nOR ")
				}
				text += fmt.Sprint(oneOf(t, "f", "g"), i%50, ":")
				e := adviceTable[t.Intn(len(adviceTable))]
				lo := len(text)
				text += "/" + e.src + "/"
				for _, k := range e.kinds {
					want = append(want, exp{string(k), lo, len(text)})
				}
			}
			t.Note("query: %q", clip(text))
			msgs := matcher(t, text).Messages()
			t.Eval()
			if len(msgs) != len(want) {
				t.Failf("%d advisories, expected %d", len(msgs), len(want))
			}
			for i, w := range want {
				if i > 200 && i < len(want)-200 && t.Intn(10) > 0 {
					continue
				}
				g := msgs[i]
				kind := map[parser.MessageType]string{parser.MsgHint: "H", parser.MsgWarning: "W", parser.MsgError: "E"}[g.Type]
				if p := posOf(text, w.lo, w.hi); kind != w.kind || g.Pos() != p {
					t.Failf("advisory %d is %q at %+v, expected %s at %q %+v", i, g.String(), g.Pos(), w.kind, text[w.lo:w.hi], p)
				}
				t.Count("advisory " + kind)
			}
			t.Distinct("scale" + t.Key)
			t.Count("many_advisories")
		})
		c.Require("many_advisories", 20)
		// long lists of values with advice
		c.Run("lists", c.N(150, 1500), func(t *fw.T) {
			type exp struct {
				kind   string
				lo, hi int
			}
			var want []exp
			text := oneOf(t, "", `"é":1 AND `, "\n")
			for k := 1 + t.Intn(2); k > 0; k-- {
				op := oneOf(t, "", "", "~")
				text += "f:" + op + "("
				n := 6 + t.Intn(20)
				if chance(t, 40) {
					n = around(t, 2000)
				}
				for i := 0; i < n; i++ {
					if i > 0 {
						text += oneOf(t, ",", ", ", ",\n")
					}
					lo := len(text)
					e := [][2]string{{"/foo%d/", ""}, {"/.*foo%d/", "HH"}, {"/foo%d.*/", "H"}, {"/(foo%d)/", "H"}, {"/foo%d|bar/", "H"}, {"/(?i)é%d/", "W"}, {`"s%d"`, ""}, {"2020-01-01T00:00:00.%06dZ", "W"}}[t.Intn(8)]
					if op == "~" {
						for e[0][0] == '2' {
							e = [2]string{`"t%d"`, ""}
						}
						e[1] = "W" + e[1]
					}
					text += fmt.Sprintf(e[0], i+1)
					for _, kind := range e[1] {
						want = append(want, exp{string(kind), lo, len(text)})
					}
				}
				text += ")"
				if k > 1 {
					text += oneOf(t, " AND ", " OR NOT ")
				}
			}
			t.Note("query: %q", clip(text))
			msgs := matcher(t, text).Messages()
			t.Eval()
			for i, g := range msgs {
				if i == len(want) {
					break
				}
				w := want[i]
				kind := map[parser.MessageType]string{parser.MsgHint: "H", parser.MsgWarning: "W", parser.MsgError: "E"}[g.Type]
				if p := posOf(text, w.lo, w.hi); kind != w.kind || g.Pos() != p {
					t.Failf("advisory %d is %q at %+v, expected %s at %q %+v", i, g.String(), g.Pos(), w.kind, text[w.lo:w.hi], p)
				}
				t.Count("advisory " + kind)
			}
			if len(msgs) != len(want) {
				t.Failf("%d advisories, expected %d", len(msgs), len(want))
			}
			t.Distinct("lists" + t.Key)
			t.Count("advised_lists")
		})
		c.Require("advised_lists", 100)
	})
	fw.Extend("C23", func(c *fw.Ctx) {
		c.Run("scale", c.N(40, 400), func(t *fw.T) {
			d := ref.Obj()
			for _, k := range []string{"a", "b c", "é"} {
				d.Set(k, gen.Any(t.Rand, 3))
			}
			d = enlarge(t, enlarge(t, d, true), true)
			limit := gen.Pick(t.Rand, -1, -1, 1, 3)
			s := sampler.New(limit)
			text := d.Text()
			t.Note("limit %d, document: %s", limit, clip(text))
			sampleOK(t, s, text)
			t.Eval()
			if diff := sameSet(keySet(t, s.Keys()), paths(d, limit)); diff != "" {
				t.Failf("reported keys: %s", diff)
			}
			t.Count("enlarged_documents")
			t.Distinct("scale" + t.Key)
		})
		c.Require("enlarged_documents", 40)
	})
	fw.Extend("C24", func(c *fw.Ctx) {
		// counts far beyond small integers
		c.Run("age", c.N(4, 16), func(t *fw.T) {
			m := &sampleModel{s: sampler.New(-1), limit: -1, counts: map[string]int{}}
			every := []int{1, 2, 3, 1 + t.Intn(100), 997}
			docs := []string{}
			keys := [][]string{}
			for mask := 0; mask < 1<<len(every); mask++ {
				d := ref.Obj()
				var ks []string
				for b, n := range every {
					if mask>>b&1 == 1 {
						d.Set(fmt.Sprintf("k%d_%d", b, n), ref.Num("1"))
						ks = append(ks, fmt.Sprintf("k%d_%d", b, n))
					}
				}
				docs = append(docs, d.Text())
				keys = append(keys, ks)
			}
			n := c.N(140000, 400000)
			for i := 0; i < n; i++ {
				mask := 0
				for b, e := range every {
					if i%e == 0 {
						mask |= 1 << b
					}
				}
				var err error
				t.Call("sampling", func() { err = m.s.Sample([]byte(docs[mask])) })
				if err != nil {
					t.Failf("a valid document could not be sampled: %v", err)
				}
				for _, k := range keys[mask] {
					m.counts[k]++
				}
				m.docs++
				if i%9973 == 0 || i == 65535 || i == 65536 || i == 131072 || i == n-1 {
					t.ClearNotes()
					t.Note("after %d documents, keys in every %v", m.docs, every)
					for _, thr := range []int{1, 33, 34, 49, 50, 51, 100, t.Intn(101)} {
						m.check(t, thr)
					}
				}
			}
			t.Count("long_histories")
			t.Distinct("age" + t.Key)
		})
		// very many keys
		c.Run("keys", c.N(4, 20), func(t *fw.T) {
			m := &sampleModel{s: sampler.New(-1), limit: -1, counts: map[string]int{}}
			pool := 3000 + t.Intn(80000)
			for i := 0; i < 60; i++ {
				d := ref.Obj()
				seen := map[int]bool{}
				for k := 0; k < 2000; k++ {
					x := t.Intn(pool)
					if k < 1000 {
						x = t.Intn(1500)
					}
					if !seen[x] {
						seen[x] = true
						d.Keys = append(d.Keys, fmt.Sprint("k", x))
						d.Vals = append(d.Vals, ref.Num("1"))
						m.counts[fmt.Sprint("k", x)]++
					}
				}
				sampleOK(t, m.s, d.Text())
				m.docs++
			}
			for _, thr := range []int{0, 1, 2, 10, 40, 50, 60, 90, 100} {
				m.check(t, thr)
			}
			t.Count("many_keys")
			t.Distinct("keys" + t.Key)
		})
		c.Require("long_histories", 4)
		c.Require("many_keys", 4)
	})
	fw.Extend("C27", func(c *fw.Ctx) {
		long := func(t *fw.T, most int) {
			q := longQuery(t, min(around(t, most), 150000))
			switch t.Intn(5) {
			case 0:
				q += oneOf(t, " AND", "(", ":", ` "x`, " x", ")")
			case 1, 2, 3:
				// what matters stands next to a boundary
				n := around(t, most)
				q = oneOf(t, `a:"`+strings.Repeat("q", n)+`" AND b:2`, "a:1"+strings.Repeat(" ", n)+"AND b:2", strings.Repeat("\n", n)+`a:1 OR b:2`, "a:1 OR b:2"+strings.Repeat(" ", n)+oneOf(t, "", "x", "AND c:3", `AND c:"`))
			}
			want, werr := ref.Parse(q)
			piece := gen.Pick(t.Rand, 1<<9, 1<<12, 1<<16, 1<<20, 4095, 65537, len(q))
			r := &chunked{s: q, failAt: -1, with: chance(t, 50), next: func() int { return piece }}
			var src io.Reader = r
			if chance(t, 30) {
				src = strings.NewReader(q)
			}
			t.Note("query of %d bytes in pieces of %d: %s", len(q), piece, clip(q))
			var n ast.Node
			var err error
			t.Call("parsing", func() { n, err = parser.ParseQueryReader(src) })
			t.Eval()
			if (err == nil) != (werr == nil) {
				t.Failf("parsing from a reader says %v, expected %v", err, werr)
			}
			if err == nil {
				got, err := fromAST(n)
				if err != nil || got.Dump() != want.Dump() {
					t.Failf("parsed from a reader as %s, expected %s", clip(n.String()), clip(want.Dump()))
				}
				t.Count("long_accepted")
			} else {
				t.Count("long_rejected")
			}
			t.Distinct("long" + t.Key)
		}
		c.Run("long", c.N(80, 800), func(t *fw.T) { long(t, 150000) })
		c.RunSeq("huge", c.N(10, 60), func(t *fw.T) { long(t, c.N(1100000, 2200000)) })
		c.Require("long_accepted", 20)
		c.Require("long_rejected", 5)
	})
	fw.Extend("C33", func(c *fw.Ctx) {
		c.Run("large", c.N(150, 1200), func(t *fw.T) {
			n := around(t, c.N(2200000, 4300000))
			var d string
			switch t.Intn(6) {
			case 4: // nested, in itself and in what stands around it
				k := min(around(t, 9000), 9900)
				open, shut := "[", "]"
				if chance(t, 50) {
					open, shut = `{"a":`, "}"
				}
				d = oneOf(t, `{"z":`, `[1,`) + strings.Repeat(open, k) + oneOf(t, "1", "null", `"x"`, "[]") + strings.Repeat(shut, k)
				d += map[byte]string{'{': "}", '[': "]"}[d[0]]
				t.Count("large_nested")
			case 5: // brackets that nest nothing
				d = `{"a":1,"` + strings.Repeat(oneOf(t, "[", "{", "]", "}", "[[{", `\"`, `\\`, ":", ","), min(n, 20000)) + `":"` + strings.Repeat(oneOf(t, "[", "{", "]", "}", "{[", `\"`, `\\`, `\"{`), min(n, 30000)) + `","z":{}}`
				t.Count("large_brackets")
			case 0:
				d = `{"a":1,"pad":"` + strings.Repeat(oneOf(t, "x", `\n`, "é", `\u00e9`), n/3) + `","z":[true,null,{"b":-1.5e3}]}`
			case 1:
				d = `{"a":[` + strings.Repeat(`1,"x",`, n/6) + `null],"z":{}}`
			case 2:
				d = "[" + strings.Repeat(`{"k":[1,true]},`, n/15) + `{"a":1}]`
			default:
				d = `{"a":1` + strings.Repeat(" ", n) + `,"z":"end"}` + strings.Repeat("\n", t.Intn(100))
			}
			switch t.Intn(7) {
			case 0:
			case 1:
				d = d[:t.Intn(len(d))]
			case 2:
				d = d[:len(d)-1-t.Intn(40)]
			case 3:
				d += oneOf(t, "}", "x", ",", "{}", "\x00")
			case 4: // near the end
				i := len(d) - 1 - t.Intn(60)
				d = d[:i] + oneOf(t, "x", ",", "]", "\x01", `"`) + d[i:]
			case 5: // next to a boundary
				i := min(around(t, n), len(d))
				d = d[:i] + oneOf(t, "\x01", `"`, "}", `\x`) + d[i:]
			case 6: // near the beginning
				i := t.Intn(12)
				d = d[:i] + oneOf(t, "x", ",", "]", "\x01", `"`) + d[i:]
			}
			m := matcher(t, oneOf(t, "a:1", "a:exists", "zz:1", "z:null OR a:1"))
			want := ref.ValidJSON(d)
			before := flat(m.Stats(), nil)
			var ok bool
			var err error
			b := []byte(d)
			t.Note("document of %d bytes: %q ... %q", len(d), d[:min(len(d), 100)], d[max(len(d)-100, 0):])
			t.Call("matching", func() { ok, err = m.Match(b) })
			t.Eval()
			if want != (err == nil) || !want && ok {
				t.Failf("the document is valid: %v, matching says %v, %v", want, ok, err)
			}
			if !bytes.Equal(b, []byte(d)) {
				t.Failf("matching changed the document")
			}
			if !want && fmt.Sprint(flat(m.Stats(), nil)) != fmt.Sprint(before) {
				t.Failf("an invalid document was counted")
			}
			t.Count(map[bool]string{true: "large_valid", false: "large_invalid"}[want])
			t.Distinct("large" + t.Key)
		})
		// far larger ones
		c.RunSeq("huge", c.N(10, 30), func(t *fw.T) {
			n := gen.Pick(t.Rand, 4, 5, 8, 10, 11, 16, 17, 20, 32, 33, 50, 64, 65)<<20 + t.Intn(100)
			d := make([]byte, 0, n+100)
			d = append(d, `{"a":1,"pad":`...)
			switch t.Intn(3) {
			case 0:
				d = append(append(append(d, '"'), bytes.Repeat([]byte("x"), n)...), '"')
			case 1:
				d = append(append(append(d, '['), bytes.Repeat([]byte("1,"), n/2)...), "2]"...)
			default:
				d = append(append(d, bytes.Repeat([]byte(" "), n)...), "null"...)
			}
			want := true
			if chance(t, 40) {
				d = append(d, gen.Pick(t.Rand, "", "]", ",}", "}}", `,"z"}`)...)
				want = false
			} else {
				d = append(d, `,"z":true}`...)
			}
			m := matcher(t, oneOf(t, "a:1 AND !zz:1", "a:exists", "z:true OR a:1"))
			t.Note("document of %d bytes, valid: %v", len(d), want)
			var ok bool
			var err error
			t.Call("matching", func() { ok, err = m.Match(d) })
			t.Eval()
			if ok != want || want != (err == nil) {
				t.Failf("the document is valid: %v, matching says %v, %v", want, ok, err)
			}
			t.Count(map[bool]string{true: "huge_valid", false: "huge_invalid"}[want])
			t.Distinct("huge" + t.Key)
		})
		c.Require("huge_valid", 2)
		c.Require("large_valid", 10)
		c.Require("large_invalid", 40)
		c.Require("large_nested", 10)
		c.Require("large_brackets", 10)
	})
}

// longQuery writes a valid query of up to about n bytes.
func longQuery(t *fw.T, n int) string {
	var b strings.Builder
	first := true
	open := 0
	style := t.Intn(4)
	goal := n/8 + t.Intn(n)
	for first || b.Len() < goal {
		if !first {
			sep := oneOf(t, " AND ", " OR ", "\nAND ", " OR\n", "  AND\t")
			b.WriteString(sep)
		}
		first = false
		switch style {
		case 0: // many small conditions
			b.WriteString(oneOf(t, "a:1", "!b:2", `"é":"大"`, "NOT c:exists", "(d:4 OR e:5)", "f:(1,2,3)", `g.h:"x y"`, "i:/x+/", "j:1.2.3.0/24"))
		case 1: // groups that stay open
			if open < 150 && chance(t, 5) {
				b.WriteString("(")
				open++
			}
			b.WriteString(oneOf(t, "a:1", "b:2", `c:"x"`))
		case 2: // long lines and literals
			fmt.Fprintf(&b, `x:"%s" AND y:%d`, strings.Repeat(oneOf(t, "q", "é", "大 ", "😀"), t.Intn(3000)), t.Intn(1000))
		default:
			q := gen.Config{MaxNodes: 12, MaxList: 5}.Query(t.Rand)
			b.WriteString("(" + gen.Text(t.Rand, q, gen.TextStyle{Stars: true}) + ")")
		}
	}
	b.WriteString(strings.Repeat(")", open))
	return b.String()
}

// wideQuery is a valid query of about n bytes that is long but not deep: it has
// long literals, lists and paths, or up to some hundred conditions.
func wideQuery(t *fw.T, n int) string {
	goal := n/8 + t.Intn(n)
	var b strings.Builder
	open := 0
	for i := 0; i == 0 || b.Len() < goal && i < 400; i++ {
		if i > 0 {
			b.WriteString(oneOf(t, " AND ", " OR ", "\nAND ", " OR\n", "  AND\t"))
		}
		if open < 40 && chance(t, 10) {
			b.WriteString("(")
			open++
		}
		m := 1 + t.Intn(goal)
		switch t.Intn(7) {
		case 0:
			fmt.Fprintf(&b, "x:%q", strings.Repeat(oneOf(t, "q", "é", "大 ", "😀", "<b>"), m/4+1))
		case 1:
			vs := make([]string, m/12+1)
			for k := range vs {
				vs[k] = fmt.Sprintf("%q", fmt.Sprint(oneOf(t, "v", "é", "😀"), k))
			}
			b.WriteString("l:(" + strings.Join(vs, ",") + ")")
		case 2:
			b.WriteString(strings.Repeat(oneOf(t, "ab.", `"é 大".`), m/8+1) + "z:1")
		case 3:
			b.WriteString("r:/" + strings.Repeat(oneOf(t, "ab+", "é", "[😀x]"), m/8+1) + "/")
		default:
			b.WriteString(oneOf(t, "a:1", "!b:2", `"é":"大"`, "c:exists", "(d:4 OR e:5)", "f:(1,2,3)", "i:/x+/", "d:2020-01-01T00:00:00Z", "a:/.*x/"))
		}
	}
	b.WriteString(strings.Repeat(")", open))
	return b.String()
}

// fresh lets goroutines be the first to parse a query, print it, build a
// matcher for it and use it, all at once; what has to come out is known
// without the library.
func fresh(c *fw.Ctx) {
	c.RunSeq("fresh", c.N(120, 1000), func(t *fw.T) {
		type job struct {
			text, dump string
			docs       [][]byte
			want       []bool
		}
		cfg := gen.Config{MaxNodes: 6, MaxList: 4}
		if i := mustIndex(t.Key) % (len(gen.Types) + 3); i < len(gen.Types) {
			cfg.Types = []ref.VType{gen.Types[i]}
		}
		var jobs []*job
		uniq := t.Key
		for k := 0; k < 12; k++ {
			q := cfg.Query(t.Rand)
			// terms that nobody has seen before
			for _, e := range q.Exprs() {
				for i, v := range e.Vals {
					switch v.Type {
					case ref.VString:
						if v.S != "" && e.Op == "==" {
							e.Vals[i] = gen.StrVal(t.Rand, v.S+fmt.Sprint(uniq[6:], "x", k, "x", i))
						}
					case ref.VRegex:
						e.Vals[i] = gen.RegexVal(t.Rand, v.S+fmt.Sprintf("|z%sz%dz%d", uniq[6:], k, i))
					}
				}
			}
			j := &job{text: gen.Text(t.Rand, q, gen.TextStyle{Parens: 10})}
			back, err := ref.Parse(j.text)
			if err != nil {
				continue // a term said twice
			}
			j.dump = back.Dump()
			for i := 0; i < 3; i++ {
				d := gen.Doc(t.Rand, q)
				j.docs = append(j.docs, []byte(d.Text()))
				j.want = append(j.want, ref.Eval(back, d, nil))
			}
			jobs = append(jobs, j)
		}
		if len(jobs) == 0 {
			return
		}
		g := gen.Pick(t.Rand, 4, 8, 16)
		lock := chance(t, 50) // the same order for all, or each its own
		var parses atomic.Int64
		par(t, g, func(i int) string {
			for k := range jobs {
				j := jobs[(k+i*5)%len(jobs)]
				if lock {
					j = jobs[k]
				}
				if (i+k)%2 == 0 {
					n, err := parser.ParseQuery(j.text)
					if err != nil {
						return fmt.Sprintf("valid query rejected concurrently: %v\n  query: %s", err, clip(j.text))
					}
					if d, err := fromAST(n); err != nil || d.Dump() != j.dump {
						return fmt.Sprintf("concurrent parse gave another tree: %s\n  query: %s", clip(n.String()), clip(j.text))
					}
				}
				m, err := jsonmatcher.NewMatcher(j.text)
				if err != nil {
					return fmt.Sprintf("valid query rejected concurrently: %v\n  query: %s", err, clip(j.text))
				}
				for x, d := range j.docs {
					if got, err := m.Match(d); err != nil || got != j.want[x] {
						return fmt.Sprintf("concurrent match gave %v (%v), expected %v\n  query: %s\n  document: %s", got, err, j.want[x], clip(j.text), clip(string(d)))
					}
				}
				_ = m.Messages()
				parses.Add(1)
			}
			return ""
		})
		c.Count("fresh_parses", parses.Load())
		c.Bump(parses.Load())
		t.Distinct("fresh" + jobs[0].text)
	})
	c.Require("fresh_parses", 3000)
}

// counters is the number of goroutines that share the matcher of probeCount.
const counters = 8

// probeCount matches documents of three kinds, as many of each kind in each
// goroutine and one more, and prints the counts of every part of the query.
func probeCount(each int) {
	m, err := jsonmatcher.NewMatcher("a:1 OR NOT b:2")
	if err != nil {
		panic(err)
	}
	docs := [][]byte{[]byte("0"), []byte(`{"a":1}`), []byte(`{"b":2}`)}
	var wg sync.WaitGroup
	for w := 0; w < counters; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				for _, d := range docs {
					m.Match(d)
				}
			}
		}()
	}
	wg.Wait()
	for _, d := range docs { // odd numbers
		m.Match(d)
	}
	var counts []int64
	var walk func(s *jsonmatcher.MatchStats)
	walk = func(s *jsonmatcher.MatchStats) {
		counts = append(counts, s.TimesChecked, s.TimesMatched)
		for _, ch := range s.Children {
			walk(ch)
		}
	}
	walk(m.Stats())
	fmt.Print(counts)
}

// named is a visitor with a name.
type named struct {
	name string
	act  func(string, ast.Node) error
}

func (v *named) Visit(n ast.Node) error { return v.act(v.name, n) }
