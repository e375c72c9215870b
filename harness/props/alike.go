package props

import (
	"fmt"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"
)

// Terms and paths that are easily taken for one another, side by side in one
// query and one after the other in one process.
func init() {
	for id, types := range map[string][]ref.VType{
		"C06": {ref.VInt, ref.VFloat}, "C07": {ref.VString}, "C08": {ref.VRegex}, "C09": {ref.VTime}, "C10": {ref.VNet},
	} {
		fw.Extend(id, func(c *fw.Ctx) {
			c.Run("alike", c.N(700, 7000), func(t *fw.T) { alikeTerms(t, gen.Pick(t.Rand, types...)) })
			c.Require("alike_terms", 2000)
		})
	}
	fw.Extend("C05", func(c *fw.Ctx) {
		c.Run("alike", c.N(2500, 25000), alikePaths)
		c.Require("alike_paths", 5000)
		c.Require("alike_found", 2000)
	})
	fw.Extend("C05", func(c *fw.Ctx) {
		c.Run("twins", len(lookalikes)*4, func(t *fw.T) {
			set := lookalikes[mustIndex(t.Key)%len(lookalikes)]
			around := oneOf(t, "%s", "a%s", "%sb", "x%sy", "a %s")
			for _, key := range set {
				for _, other := range append([]string{key}, set...) {
					k, o := fmt.Sprintf(around, key), fmt.Sprintf(around, other)
					for _, doc := range []*ref.J{
						ref.Obj(o, ref.Num("1")),
						ref.Obj(o, ref.Obj("b", ref.Num("1")), "z", ref.Num("2")),
						ref.Obj("b", ref.Arr(ref.Obj(o, ref.Num("1")))),
						ref.Obj(o, ref.Num("1"), k, ref.Num("2")),
					} {
						s := doc.Write(gen.DocStyle(t.Rand))
						t.ClearNotes()
						t.Note("document: %s", clip(s))
						askPath(t, doc, s, []string{k})
						askPath(t, doc, s, []string{k, "b"})
						askPath(t, doc, s, []string{"b", k})
					}
					t.Count("twin_keys")
				}
			}
			t.Distinct("twins" + t.Key)
		})
		c.Require("twin_keys", 500)
	})
	fw.Extend("C07", func(c *fw.Ctx) {
		c.Run("twins", len(lookalikes)*4, func(t *fw.T) {
			set := lookalikes[mustIndex(t.Key)%len(lookalikes)]
			around := oneOf(t, "%s", "a%s", "%sb", "x%sy", "a %s", "%s?", "*%s")
			for _, term := range set {
				e := ref.Expr(vpath, oneOf(t, "==", "==", "~"), gen.StrVal(t.Rand, fmt.Sprintf(around, term)))
				text := gen.Text(t.Rand, e, gen.TextStyle{})
				m := matcher(t, text)
				for _, other := range set {
					for _, s := range []string{other, fmt.Sprintf(strings.NewReplacer("?", "", "*", "").Replace(around), other), "q " + fmt.Sprintf(around, other) + ", r", strings.ToUpper(fmt.Sprintf(around, other))} {
						doc := ref.Obj("v", ref.Str(s))
						t.ClearNotes()
						t.Note("query: %s", clip(text))
						same(t, m, e, doc, doc.Write(gen.DocStyle(t.Rand)))
						t.Count("twin_terms")
					}
				}
			}
			t.Distinct("twins" + t.Key)
		})
		c.Require("twin_terms", 500)
	})
	fw.Extend("C04", func(c *fw.Ctx) {
		c.Run("alike", c.N(1500, 15000), alikeConditions)
		c.Require("alike_conditions", 3000)
	})
}

// lookalikes are texts some would take for the same one: composed and
// decomposed, wide and narrow, with or without what cannot be seen.
var lookalikes = [][]string{
	{"\u00e9", "e\u0301", "e", "\u00c9", "E\u0301", "\u00e8"},
	{"\u00c5", "A\u030a", "\u212b", "A", "\u00e5", "a\u030a"},
	{"\u00f1", "n\u0303", "n"}, {"\u00fc", "u\u0308", "u", "ue"},
	{"\u00e7", "c\u0327", "c"}, {"\u1e69", "s\u0323\u0307", "s\u0307\u0323", "\u1e63\u0307"},
	{"\uac00", "\u1100\u1161", "\u3131\u314f"}, {"\u304c", "\u304b\u3099", "\uff76\uff9e", "\u304b"},
	{"\u30ab", "\uff76", "\u304b"}, {"A", "\uff21", "\u0410", "\u0391", "a"}, {"1", "\uff11", "\u0661", "\u00b9", "\u2460"},
	{"fi", "\ufb01", "FI", "Fi"}, {"ss", "\u00df", "\u1e9e", "SS"}, {"k", "K", "\u212a"}, {"s", "S", "\u017f"},
	{"i", "I", "\u0130", "\u0131", "i\u0307"}, {"\u03c3", "\u03c2", "\u03a3"}, {"\u03a9", "\u2126", "\u03c9"},
	{"\u00b5", "\u03bc", "u"}, {"\u01c4", "\u01c5", "\u01c6", "D\u017d", "dz"}, {"\u00bd", "1/2", "1\u20442"},
	{"...", "\u2026"}, {"-", "\u2010", "\u2011", "\u2013", "\u2212", "_"}, {"'", "\u2019", "\u02bc", "`"}, {"\"", "\u201c", "\u201d", "''"},
	{" ", "\u00a0", "\u2003", "\u3000", "\t", ""}, {"ab", "a\u200bb", "a\u00adb", "a\u200db", "a\ufeffb", "a\u2060b", "a b"},
	{"x", "\ufeffx", "x\u200b", " x", "x ", "x\x00", "\x00x", "x\n", "\u200ex"}, {"\u2764", "\u2764\ufe0f", "\u2665"},
	{"\U0001f44d", "\U0001f44d\U0001f3fd", "\U0001f44e"}, {"\u0301", "\u0300\u0301", "\u0344", "\u0308\u0301"}, {"\u8fb5", "\u2ecc", "\u2f94"},
	{"\U0002f800", "\u4e3d"}, {"\u1100\u1161\u11a8", "\uac01", "\uac00\u11a8"}, {"\ufffd", "?", "\ufffe", "\ue000"},
	{"a.b", "a\u2024b", "a\u3002b", "a/b", "a\\b", "a:b"}, {"id", "Id", "ID", "_id", "id_", "i_d", "i-d", "ids"}, {"userName", "user_name", "user-name", "username", "UserName", "user name"},
	{"1", "01", "1.0", "+1", "1e0", "[1]"}, {"0", "-0", "00", "", "0.0"}, {"true", "True", "TRUE", "t"}, {"null", "Null", "nil", ""}, {"%20", " ", "+", "\\u0020"}, {"&amp;", "&", "&#38;"}, {"a\u0000", "a", "a0"},
}

func alikeTerms(t *fw.T, typ ref.VType) {
	vs := gen.Family(t.Rand, typ, 2+t.Intn(gen.Pick(t.Rand, 4, 12, 40)))
	op := "=="
	if (typ == ref.VString || typ == ref.VRegex) && chance(t, 20) {
		op = "~"
	}
	ask := func(q *ref.Node, doc *ref.J) bool {
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		t.ClearNotes()
		t.Note("query: %s", clip(text))
		return same(t, matcher(t, text), q, doc, doc.Text())
	}
	leaf := func(v *ref.Val) *ref.J {
		if typ == ref.VRegex && chance(t, 60) {
			return ref.Str(gen.RegexSample(t.Rand, v.S))
		}
		if typ == ref.VString && chance(t, 60) {
			return ref.Str(v.S)
		}
		return gen.Near(t.Rand, v)
	}
	// all in one list
	all := ref.Expr(vpath, op, vs...)
	for i := 0; i < 6; i++ {
		ask(all, ref.Obj("v", leaf(gen.Pick(t.Rand, vs...))))
	}
	// each on a field of its own, in one query
	var and, or *ref.Node
	for i, v := range vs {
		e := ref.Expr([]string{fmt.Sprint("f", i)}, op, v)
		if and == nil {
			and, or = e, e
		} else {
			and, or = ref.And(and, e), ref.Or(or, e)
		}
	}
	for i := 0; i < 4; i++ {
		doc := ref.Obj()
		wrong := t.Intn(len(vs))
		for k := range vs {
			j := k
			if k == wrong && i%2 == 1 {
				j = t.Intn(len(vs))
			}
			l := leaf(vs[j])
			if typ == ref.VRegex || typ == ref.VString {
				l = ref.Str(vs[j].S)
			}
			doc.Set(fmt.Sprint("f", k), l)
		}
		ask(and, doc)
		only := ref.Obj(fmt.Sprint("f", wrong), leaf(gen.Pick(t.Rand, vs...)))
		ask(or, only)
	}
	// each alone, one after the other
	for k := 0; k < 12; k++ {
		v := gen.Pick(t.Rand, vs...)
		ops := []string{op}
		if typ == ref.VInt || typ == ref.VFloat || typ == ref.VTime {
			ops = cmpOps
		}
		ask(ref.Expr(vpath, gen.Pick(t.Rand, ops...), v), ref.Obj("v", leaf(gen.Pick(t.Rand, vs...))))
	}
	for _, v := range vs {
		t.Count("alike_terms")
		t.Distinct("alike " + v.Canon())
	}
}

func alikePaths(t *fw.T) {
	base := gen.Path(t.Rand)
	for len(base) > 5 {
		base = base[:5]
	}
	if chance(t, 40) {
		base = gen.BarePath(t.Rand, 1+t.Intn(4))
	}
	if chance(t, 4) { // long names that differ in little
		i := t.Intn(len(base))
		fill := strings.Repeat(oneOf(t, "k", "é", "k ", "long.name-"), around(t, 600))
		base = append([]string{}, base...)
		if chance(t, 50) {
			base[i] = fill + base[i]
		} else {
			base[i] += fill
		}
		t.Count("long_names")
	}
	paths := [][]string{base}
	seen := map[string]bool{strings.Join(base, "\x01"): true}
	for try := 0; try < 12 && len(paths) < 6; try++ {
		p := gen.TwinPath(t.Rand, gen.Pick(t.Rand, paths...))
		if k := strings.Join(p, "\x01"); !seen[k] {
			seen[k] = true
			paths = append(paths, p)
		}
	}
	var q *ref.Node
	conds := make([]*ref.Node, len(paths))
	for i, p := range paths {
		conds[i] = ref.Expr(p, "==", gen.IntVal(t.Rand, int64(i+1)))
		e := conds[i]
		if chance(t, 20) {
			e = ref.Expr(p, gen.Pick(t.Rand, "exists", "null"))
		}
		if chance(t, 15) {
			e = ref.Not(e)
		}
		if q == nil {
			q = e
		} else if chance(t, 60) {
			q = ref.And(q, e)
		} else {
			q = ref.Or(e, q)
		}
		t.Count("alike_paths")
	}
	text := gen.Text(t.Rand, q, gen.TextStyle{})
	for d := 0; d < 5; d++ {
		doc := ref.Obj()
		for _, i := range t.Perm(len(paths)) {
			if d == 0 || chance(t, 60) {
				v := i + 1
				if chance(t, 15) {
					v = 1 + t.Intn(len(paths))
				}
				join(doc, paths[i], ref.Num(itoa(v)))
			}
		}
		s := doc.Text()
		t.ClearNotes()
		t.Note("query: %s", clip(text))
		same(t, matcher(t, text), q, doc, s)
		for _, e := range conds {
			et := gen.Text(t.Rand, e, gen.TextStyle{})
			t.ClearNotes()
			t.Note("query: %s", clip(et))
			if same(t, matcher(t, et), e, doc, s) {
				t.Count("alike_found")
			}
		}
	}
	t.Distinct("alike " + text)
}

// join puts a value at a path next to what is there, unless something is in the
// way.
func join(o *ref.J, path []string, v *ref.J) {
	for _, p := range path[:len(path)-1] {
		n := o.Get(p)
		if n == nil {
			n = ref.Obj()
			o.Set(p, n)
		}
		if n.Kind != ref.JObj {
			return
		}
		o = n
	}
	if last := path[len(path)-1]; o.Get(last) == nil {
		o.Set(last, v)
	}
}

func alikeConditions(t *fw.T) {
	cfg := gen.Config{MaxList: 5}
	cs := []*ref.Node{cfg.Expr(t.Rand)}
	for i := 1 + t.Intn(5); i > 0; i-- {
		cs = append(cs, gen.Twin(t.Rand, gen.Pick(t.Rand, cs...)))
	}
	var q *ref.Node
	for _, e := range cs {
		t.Count("alike_conditions")
		if chance(t, 25) {
			e = ref.Not(e)
		}
		if q == nil {
			q = e
		} else if chance(t, 50) {
			q = ref.And(e, q)
		} else {
			q = ref.Or(q, e)
		}
	}
	text := gen.Text(t.Rand, q, gen.TextStyle{})
	t.Note("query: %s", clip(text))
	m := matcher(t, text)
	var yes, no bool
	for i := 0; i < 8; i++ {
		doc := gen.Doc(t.Rand, q)
		if same(t, m, q, doc, doc.Write(gen.DocStyle(t.Rand))) {
			yes = true
		} else {
			no = true
		}
	}
	if yes && no {
		t.Distinct("alike " + text)
	}
}

// faulty writes conditions with something wrong in the values, sometimes several
// things, between good ones.
func faulty(t *fw.T) string {
	word := func() string {
		return oneOf(t, gen.Common(t.Rand), gen.Dict(t.Rand), "no match found", "unexpected end", "é大😀")
	}
	lit := func() string {
		switch t.Intn(8) {
		case 0:
			return gen.QuoteAQL(t.Rand, word(), 0)
		case 1:
			return "/" + word2(word()) + "/"
		case 2:
			return oneOf(t, "1", "2", "01", "1.0", "1.5", "-1", "-0", "0", "0.0", "42")
		case 3:
			return oneOf(t, "true", "false")
		case 4:
			return oneOf(t, "1.2.3.4", "1.2.3.4/32", "10.0.0.0/8", "10.1.2.3/8", "0.0.0.0/0", "1.2.3.4/0")
		case 5:
			return oneOf(t, "2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T01:00:00+01:00", "2020-12-31", "2019-06-05T04:03:02.1Z")
		}
		return gen.Val(t.Rand, gen.Pick(t.Rand, gen.Types...)).Text
	}
	list := func() string {
		var vs []string
		for k := 2 + t.Intn(5); k > 0; k-- {
			v := lit()
			vs = append(vs, v)
			for chance(t, 35) { // again, also several of them
				vs = append(vs, v)
			}
		}
		t.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		return "(" + strings.Join(vs, gap(t)+","+gap(t)) + ")"
	}
	one := func() string {
		f := gen.FieldText(t.Rand, gen.Path(t.Rand)[:1], true) + ":" + gap(t)
		switch t.Intn(9) {
		case 0, 1, 2:
			return f + oneOf(t, "", "", "~", "~", "<", "><", ">=") + list()
		case 3:
			return f + oneOf(t, "<", "<=", ">", ">=", "~", "><") + lit()
		case 4:
			return f + "><(" + lit() + "," + lit() + ")"
		case 5: // a broken expression with a telling text
			w := word2(word())
			return f + "/" + oneOf(t, "("+w, w+"(", "["+w, w+")", "*"+w, "(?"+w+")", w+`\p{`, "a{2,1}"+w, "(?P<"+w, w+`\z(`) + "/"
		case 6:
			return f + oneOf(t, "2020-13-01", "2020-02-30", "1.2.3.256", "1.2.3.4/33", "99999999999999999999", strings.Repeat("9", 400)+".0", "2020-01-01T25:00:00Z", "2020-01-01T00:00:00+99:00")
		case 7:
			return f + oneOf(t, "exists", "null", "true")
		}
		return f + lit()
	}
	q := one()
	for k := t.Intn(4); k > 0; k-- {
		q += gap(t) + oneOf(t, "AND", "OR") + gap(t) + oneOf(t, "", "NOT ", "!") + one()
	}
	return q
}

// word2 is text as it can stand between slashes.
func word2(s string) string {
	return strings.NewReplacer("/", `\/`, `\`, `\\`, "\n", " ", "\t", " ").Replace(s)
}
