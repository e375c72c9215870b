package props

import (
	"bytes"
	"fmt"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/sampler"
)

// The sections in this file put one thing at every place among thousands.

// places calls f with the text of a list of n pieces in which the one at each
// index in turn is another, and with that index; at last with none, and -1.
func places(n int, piece func(i int) string, other func(i int) string, f func(list []byte, i int)) {
	var all bytes.Buffer
	starts := make([]int, 0, n+1)
	for i := 0; i < n; i++ {
		if i > 0 {
			all.WriteByte(',')
		}
		starts = append(starts, all.Len())
		all.WriteString(piece(i))
	}
	b := all.Bytes()
	starts = append(starts, len(b)+1)
	var buf []byte
	for i := 0; i < n; i++ {
		buf = append(buf[:0], b[:starts[i]]...)
		buf = append(buf, other(i)...)
		buf = append(buf, b[starts[i+1]-1:]...)
		f(buf, i)
	}
	f(b, -1)
}

func init() {
	fw.Extend("C40", func(c *fw.Ctx) {
		c.Run("places", c.N(16, 60), func(t *fw.T) {
			n := gen.Pick(t.Rand, 300, 1030, 2052, 2052, 4100, 4100) + t.Intn(20)
			if c.N(0, 1) == 1 && chance(t, 30) {
				n = gen.Pick(t.Rand, 8200, 10010)
			}
			kind := t.Intn(4)
			query, before, after := "v:1", `{"v":[`, "]}"
			piece := func(int) string { return "0" }
			other := func(int) string { return "1" }
			switch kind {
			case 0: // elements that are values
				if chance(t, 50) {
					query, before = "a.v:1", `{"a":[{"v":[`
					after = "]}]}"
				}
				fill := oneOf(t, "0", `"x"`, "null", "true", "{}", "[]")
				piece = func(int) string { return fill }
			case 1: // elements that are objects
				query = "v.b:1"
				fill := oneOf(t, "{}", `{"b":0}`, "0", "[]", `{"c":1}`)
				piece = func(int) string { return fill }
				other = func(int) string { return `{"b":1}` }
			case 2: // members of an object
				before, after = "{", "}"
				if chance(t, 50) {
					query, before, after = "a.v:1", `{"a":{`, "}}"
				}
				piece = func(i int) string { return fmt.Sprintf(`"k%d":1`, i) }
				other = func(int) string { return `"v":1` }
			case 3: // elements of the document itself
				before, after = "[", "]"
				piece = func(int) string { return `{"w":1}` }
				other = func(int) string { return `{"v":1}` }
			}
			m := matcher(t, query)
			t.Note("query: %s, %s… of %d", query, before, n)
			var doc []byte
			places(n, piece, other, func(list []byte, i int) {
				doc = append(append(append(doc[:0], before...), list...), after...)
				if got := match(t, m, doc); got != (i >= 0) {
					t.Failf("with what matches at place %d of %d the match is %v", i, n, got)
				}
				if i%500 == 0 {
					t.Eval()
				}
			})
			c.Count("places", int64(n))
			t.Distinct(fmt.Sprint("places ", query, before, piece(1), n))
		})
		c.Require("places", 10000)
	})
	for _, id := range []string{"C07", "C08"} {
		fw.Extend(id, func(c *fw.Ctx) {
			c.Run("places", c.N(12, 60), func(t *fw.T) {
				n := gen.Pick(t.Rand, 300, 1030, 2052, 4100) + t.Intn(20)
				query := "v:" + map[string]string{"C07": `"%s"`, "C08": "/%s/"}[id]
				word := oneOf(t, "needle", "n", "nnnnnnnnnnnnnnnnnnnnnnnnnnn", "né", "大")
				fill := oneOf(t, " ", "x ", "x\u00e9 ", "-", ".")
				query = fmt.Sprintf(query, word)
				m := matcher(t, query)
				t.Note("query: %s among %d of %q", query, n, fill)
				var doc []byte
				for i := -1; i <= n; i++ {
					doc = append(doc[:0], `{"v":"`...)
					if i >= 0 {
						doc = append(doc, strings.Repeat(fill, i)...)
						doc = append(doc, " "+word+" "...)
						doc = append(doc, strings.Repeat(fill, n-i)...)
					} else {
						doc = append(doc, strings.Repeat(fill, n)...)
					}
					doc = append(doc, `"}`...)
					if got := match(t, m, doc); got != (i >= 0) {
						t.Failf("with the word at place %d of %d the match is %v", i, n, got)
					}
				}
				t.Eval()
				c.Count("places", int64(n))
				t.Distinct(fmt.Sprint("places ", word, fill, n))
			})
			c.Require("places", 5000)
		})
	}
	fw.Extend("C23", func(c *fw.Ctx) {
		c.Run("places", c.N(9, 40), func(t *fw.T) {
			n := gen.Pick(t.Rand, 300, 1030, 2052, 4100) + t.Intn(20)
			before, after := "[", "]"
			piece := func(int) string { return `{"w":1}` }
			other := func(i int) string { return fmt.Sprintf(`{"v%d":1}`, i) }
			path := "v%d"
			switch t.Intn(3) {
			case 0:
				before, after, path = `{"a":[`, "]}", "a"+sep+"v%d"
			case 1:
				before, after = "{", "}"
				piece = func(i int) string { return fmt.Sprintf(`"w%d":1`, i%7) }
				other = func(i int) string { return fmt.Sprintf(`"v%d":1`, i) }
			}
			t.Note("%s… of %d", before, n)
			s := sampler.New(-1)
			var doc []byte
			places(n, piece, other, func(list []byte, i int) {
				doc = append(append(append(doc[:0], before...), list...), after...)
				sampleOK(t, s, string(doc))
			})
			t.Eval()
			got := keySet(t, s.Keys())
			for i := 0; i < n; i++ {
				if !got[fmt.Sprintf(path, i)] {
					t.Failf("the key at place %d of %d is not reported", i, n)
				}
			}
			c.Count("places", int64(n))
			t.Distinct(fmt.Sprint("places ", before, n))
		})
		c.Require("places", 3000)
		// objects of one size in a row
		c.Run("sizes", c.N(300, 3000), func(t *fw.T) {
			pad := gen.Pick(t.Rand, 0, 0, around(t, 20000))
			arr := ref.Arr()
			members := 1 + t.Intn(4)
			for i := 2 + t.Intn(6); i > 0; i-- {
				o := ref.Obj()
				for k := 0; k < members; k++ {
					o.Set(fmt.Sprint(oneOf(t, "a", "b", "c"), t.Intn(9)), ref.Num(itoa(t.Intn(10))))
				}
				o.Set(oneOf(t, "x", "y", "z"), ref.Str(strings.Repeat("p", pad)))
				arr.Arr = append(arr.Arr, o)
			}
			d := gen.Pick(t.Rand, arr, ref.Obj("r", arr))
			text := d.Text()
			t.Note("document: %s", clip(text))
			s := sampler.New(-1)
			sampleOK(t, s, text)
			t.Eval()
			if diff := sameSet(keySet(t, s.Keys()), paths(d, -1)); diff != "" {
				t.Failf("reported keys: %s", diff)
			}
			t.Count("same_sizes")
			t.Distinct("sizes" + t.Key)
		})
		c.Require("same_sizes", 200)
	})
}
