package props

import (
	"fmt"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C04",
		Rule: "random query trees of AND, OR, NOT over conditions on documents built near them; non-trivial: a distinct query that matched at least one of its documents and did not match another",
		Run: func(c *fw.Ctx) {
			semantics(c, "tree", c.N(6000, 60000), 8, func(t *fw.T) *ref.Node {
				return gen.Config{MaxNodes: 60, MaxList: 6}.Query(t.Rand)
			})
			// few fields, so that conditions interact
			semantics(c, "shared", c.N(4000, 40000), 10, func(t *fw.T) *ref.Node {
				return gen.Config{MaxNodes: 20, MaxList: 4, Types: []ref.VType{ref.VInt, ref.VBool, ref.VString},
					Paths: [][]string{{"a"}, {"b"}, {"a", "b"}, {"c"}}}.Query(t.Rand)
			})
			truthTables(c)
			oneField(c)
			semantics(c, "large", c.N(30, 200), 4, func(t *fw.T) *ref.Node {
				q := gen.Config{MaxList: 2, Paths: [][]string{{"a"}, {"b"}, {"c"}}}.Expr(t.Rand)
				for i, n := 0, 100+t.Intn(400); i < n; i++ {
					e := gen.Config{MaxList: 2, Paths: [][]string{{"a"}, {"b"}, {"c"}}}.Expr(t.Rand)
					if chance(t, 20) {
						e = ref.Not(e)
					}
					if chance(t, 50) {
						q = ref.And(e, q)
					} else {
						q = ref.Or(e, q)
					}
				}
				return q
			})
			c.Require("matched", 1000)
			c.Require("not_matched", 1000)
		},
	})
}

// truthTables enumerates every assignment of up to six variables for random
// shapes of queries over them.
func truthTables(c *fw.Ctx) {
	c.Run("table", c.N(600, 4000), func(t *fw.T) {
		k := 1 + t.Intn(6)
		vars := make([]*ref.Node, k)
		for i := range vars {
			vars[i] = ref.Expr([]string{string(rune('p' + i))}, "==", gen.BoolVal(true))
		}
		var mk func(size int) *ref.Node
		mk = func(size int) *ref.Node {
			if size <= 1 {
				return vars[t.Intn(k)]
			}
			switch t.Intn(5) {
			case 0:
				return ref.Not(mk(size - 1))
			case 1, 2:
				l := 1 + t.Intn(size-1)
				return ref.And(mk(l), mk(size-l))
			}
			l := 1 + t.Intn(size-1)
			return ref.Or(mk(l), mk(size-l))
		}
		q := mk(1 + t.Intn(12))
		text := gen.Text(t.Rand, q, gen.TextStyle{Parens: 10})
		t.Note("query: %s", text)
		m := matcher(t, text)
		for bits := 0; bits < 1<<k; bits++ {
			doc := ref.Obj()
			for i := range vars {
				doc.Set(string(rune('p'+i)), ref.Bool(bits>>i&1 == 1))
			}
			same(t, m, q, doc, doc.Text())
			t.Count("assignments")
		}
		t.Distinct("table " + text)
	})
}

func init() {
	fw.Register(&fw.Prop{
		ID:   "C05",
		Rule: "paths over nested objects and arrays with hostile names; every path of a document is asked about, plus paths that lead nowhere; non-trivial: a distinct path resolved through a document",
		Run: func(c *fw.Ctx) {
			c.Run("walk", c.N(5000, 50000), func(t *fw.T) {
				doc := pathDoc(t)
				s := doc.Write(gen.DocStyle(t.Rand))
				t.Note("document: %s", clip(s))
				for i := 0; i < 8; i++ {
					path := walkPath(t, doc)
					askPath(t, doc, s, path)
				}
			})
			semantics(c, "deep", c.N(1500, 15000), 6, func(t *fw.T) *ref.Node {
				n := 1 + t.Intn(40)
				p := make([]string, n)
				for i := range p {
					p[i] = gen.Name(t.Rand)
				}
				return gen.Config{Paths: [][]string{p}, MaxList: 3}.Expr(t.Rand)
			})
			semantics(c, "types", c.N(2000, 20000), 8, func(t *fw.T) *ref.Node {
				return gen.Config{Paths: [][]string{gen.BarePath(t.Rand, 1+t.Intn(3))}, MaxList: 3}.Expr(t.Rand)
			})
			c.Run("wide", c.N(40, 400), func(t *fw.T) { wideDoc(t) })
			c.Run("long", c.N(150, 1500), func(t *fw.T) { longPath(t) })
			c.Require("long_paths", 100)
			c.Require("resolved", 1000)
			c.Require("unresolved", 1000)
			c.Require("through_array", 500)
		},
	})
}

func pathDoc(t *fw.T) *ref.J {
	names := make([]string, 3+t.Intn(4))
	for i := range names {
		names[i] = gen.Name(t.Rand)
	}
	var mk func(d int) *ref.J
	mk = func(d int) *ref.J {
		if d <= 0 || t.Intn(5) == 0 {
			return ref.Num(gen.Pick(t.Rand, "1", "2", "3"))
		}
		if t.Intn(3) == 0 {
			a := ref.Arr()
			for k := gen.Size(t.Rand, 4, 30); k > 0; k-- {
				a.Arr = append(a.Arr, mk(d-1))
			}
			return a
		}
		o := ref.Obj()
		for k := 1 + t.Intn(4); k > 0; k-- {
			o.Set(names[t.Intn(len(names))], mk(d-1))
		}
		return o
	}
	d := mk(2 + t.Intn(5))
	if d.Kind != ref.JObj && chance(t, 90) {
		d = ref.Obj(names[0], d)
	}
	return d
}

// walkPath picks a path that is there, or one that nearly is.
func walkPath(t *fw.T, v *ref.J) []string {
	var p []string
	for {
		switch v.Kind {
		case ref.JObj:
			if len(v.Keys) == 0 {
				return append(p, gen.Name(t.Rand))
			}
			i := t.Intn(len(v.Keys))
			p = append(p, v.Keys[i])
			v = v.Vals[i]
			if chance(t, 15) {
				if chance(t, 40) {
					p[len(p)-1] = nearName(t, p[len(p)-1])
				}
				return p
			}
		case ref.JArr:
			if len(v.Arr) == 0 {
				if len(p) == 0 {
					p = append(p, "a")
				}
				return p
			}
			if len(p) > 0 && chance(t, 20) {
				return p
			}
			v = v.Arr[t.Intn(len(v.Arr))]
		default:
			if len(p) == 0 || chance(t, 10) {
				p = append(p, gen.Name(t.Rand))
			}
			return p
		}
	}
}

func nearName(t *fw.T, n string) string {
	switch t.Intn(6) {
	case 0:
		return n + "x"
	case 1:
		if n != "" {
			return n[:len(n)-1] + "_"
		}
	case 2:
		return n + " "
	case 3:
		return "\\" + n
	case 4:
		if n != "" && n[0] >= 'a' && n[0] <= 'z' {
			return string(n[0]-32) + n[1:]
		}
	}
	return gen.Name(t.Rand)
}

func askPath(t *fw.T, doc *ref.J, s string, path []string) {
	for _, n := range []*ref.Node{
		ref.Expr(path, "exists"),
		ref.Expr(path, "==", gen.IntVal(t.Rand, int64(1+t.Intn(3)))),
		ref.Expr(path, "null"),
	} {
		text := gen.Text(t.Rand, n, gen.TextStyle{Stars: true})
		t.ClearNotes()
		t.Note("query: %s", clip(text))
		m := matcher(t, text)
		same(t, m, n, doc, s)
		t.Sample(map[string]any{"query": clip(text), "document": clip(s)})
	}
	found := ref.Resolve(path, doc)
	if len(found) > 0 {
		t.Count("resolved")
		t.Distinct(s + ref.Expr(path, "exists").Dump())
	} else {
		t.Count("unresolved")
	}
	if len(found) > 1 {
		t.Count("through_array")
	}
}

// longPath follows paths of up to thousands of pieces, and ones that are a piece
// too short or too long or differ in one piece.
func longPath(t *fw.T) {
	n := gen.Pick(t.Rand, 45, 70, 130, 260, 520, 1030, 2100)
	n += t.Intn(n / 4)
	names := []string{"a", "b", gen.Name(t.Rand), gen.Name(t.Rand)}
	path := make([]string, n)
	for i := range path {
		path[i] = gen.Pick(t.Rand, names...)
	}
	doc := ref.Num("2")
	for i := n - 1; i >= 0; i-- {
		if chance(t, 10) {
			doc = ref.Arr(doc)
			if doc.Arr[0].Kind == ref.JArr {
				doc = doc.Arr[0]
			}
		}
		o := ref.Obj(path[i], doc)
		if chance(t, 20) {
			o.Set("other qkz", ref.Num("1"))
		}
		doc = o
	}
	s := doc.Text()
	k := t.Intn(n)
	changed := append([]string(nil), path...)
	changed[k] += "x"
	for _, p := range [][]string{path, path[:n-1], path[:1+k], append(append([]string(nil), path...), "a"), path[1:], changed} {
		if len(p) == 0 {
			continue
		}
		t.ClearNotes()
		t.Note("path of %d pieces in a document of %d levels", len(p), n)
		askPath(t, doc, s, p)
		t.Count("long_paths")
	}
}

// wideDoc puts the only match at one place of a very large document.
func wideDoc(t *fw.T) {
	n := 200 + t.Intn(4000)
	hit := t.Intn(n)
	if chance(t, 30) {
		hit = n - 1
	}
	arr := ref.Arr()
	objs := ref.Arr()
	keys := ref.Obj()
	for i := 0; i < n; i++ {
		v := ref.Num("7")
		if i == hit {
			v = ref.Str("needle")
		}
		arr.Arr = append(arr.Arr, v)
		objs.Arr = append(objs.Arr, ref.Obj("x", ref.Num("1"), "k", v))
		keys.Set("key"+string(rune('a'+i%26))+itoa(i), v)
	}
	doc := ref.Obj("arr", arr, "objs", objs, "keys", keys)
	s := doc.Text()
	for _, q := range []*ref.Node{
		ref.Expr([]string{"arr"}, "==", gen.StrVal(t.Rand, "needle")),
		ref.Expr([]string{"objs", "k"}, "==", gen.StrVal(t.Rand, "needle")),
		ref.Expr([]string{"keys", "key" + string(rune('a'+hit%26)) + itoa(hit)}, "==", gen.StrVal(t.Rand, "needle")),
		ref.Expr([]string{"objs", "y"}, "exists"),
		ref.Expr([]string{"arr"}, "==", gen.StrVal(t.Rand, "nothing")),
	} {
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		t.ClearNotes()
		t.Note("query: %s", text)
		same(t, matcher(t, text), q, doc, s)
	}
	t.Count("wide_documents")
	t.Distinct("wide " + itoa(n) + " " + itoa(hit))
}

// oneField joins conditions on one field that reaches several values, from
// domains so small that the values of one condition are those of the others.
func oneField(c *fw.Ctx) {
	c.Run("onefield", c.N(5000, 50000), func(t *fw.T) {
		pick := func(n int) int { return t.Intn(n) }
		day := func() string { return fmt.Sprintf("2020-01-%02d", 1+pick(5)) }
		when := func() string {
			return day() + oneOf(t, "", "T00:00:00Z", "T12:00:00Z", "T23:59:59Z", "T23:00:00-05:00")
		}
		num := func() string { return oneOf(t, "", "", "-") + fmt.Sprint(pick(5)) + oneOf(t, "", "", ".5", ".0") }
		str := func() string {
			return oneOf(t, `"a"`, `"ab"`, `"b"`, `"a b"`, `"a*"`, `"?b"`, `"b c"`, `"é"`, `"*"`, `"A"`, `/a/`, `/^b/`, `/[ab]+$/`, `/(?i)A B/`)
		}
		net := func() string {
			return oneOf(t, "10.0.0.1", "10.0.0.2", "10.0.0.0/24", "10.0.1.0/24", "10.0.0.0/8", "0.0.0.0/0", "10.0.0.0/31")
		}
		kind := t.Intn(6)
		term := func() string {
			k := kind
			if k == 5 {
				k = t.Intn(5)
			}
			between := func(f func() string) string {
				for {
					s := "><(" + f() + "," + f() + ")"
					if _, err := ref.Parse("a:" + s); err == nil {
						return s
					}
				}
			}
			list := func(f func() string) string {
				for {
					s := "(" + f() + "," + f() + oneOf(t, "", ","+f()) + ")"
					if _, err := ref.Parse("a:" + s); err == nil {
						return s
					}
				}
			}
			if chance(t, 12) {
				return oneOf(t, "exists", "null", "true", "false")
			}
			switch k {
			case 0, 1:
				f := num
				if k == 1 {
					f = when
				}
				switch t.Intn(8) {
				case 0:
					return between(f)
				case 1:
					return list(f)
				case 2:
					return f()
				}
				return oneOf(t, "<", "<=", ">", ">=") + f()
			case 2:
				return gen.Pick(t.Rand, str, str, func() string { return list(str) })()
			case 3:
				return gen.Pick(t.Rand, net, net, func() string { return list(net) })()
			}
			return oneOf(t, "exists", "null", "true", "false")
		}
		path := oneOf(t, "a", "a", "a.b", "a.b.c")
		var mk func(n int) string
		mk = func(n int) string {
			if n <= 1 {
				p := path
				if chance(t, 10) {
					p = oneOf(t, "a", "a.b", "b")
				}
				return p + ":" + term()
			}
			k := 1 + t.Intn(n-1)
			s := mk(k) + oneOf(t, " AND ", " AND ", " OR ") + mk(n-k)
			switch t.Intn(6) {
			case 0:
				s = "NOT (" + s + ")"
			case 1, 2:
				s = "(" + s + ")"
			}
			return s
		}
		text := mk(2 + t.Intn(gen.Pick(t.Rand, 2, 5)))
		t.Note("query: %s", text)
		q, err := ref.Parse(text)
		if err != nil {
			c.Fatalf("generated query %q: %v", text, err)
		}
		m := matcher(t, text)
		value := func() *ref.J {
			k := kind
			if k == 5 || chance(t, 10) {
				k = t.Intn(6)
			}
			switch k {
			case 0:
				s := num()
				if chance(t, 20) {
					return ref.Str(s)
				}
				return ref.Num(s)
			case 1:
				return ref.Str(when())
			case 2:
				return ref.Str(oneOf(t, "a", "ab", "b", "a b", "b c", "e", "é", "", "A B", "abab"))
			case 3:
				return ref.Str(oneOf(t, "", "x ") + net())
			}
			return gen.Pick(t.Rand, ref.Null(), ref.Bool(true), ref.Bool(false), ref.Obj(), ref.Arr(), ref.Null())
		}
		values := func() *ref.J {
			n := t.Intn(5)
			if n == 1 {
				return value()
			}
			a := ref.Arr()
			for ; n > 0; n-- {
				a.Arr = append(a.Arr, value())
			}
			return a
		}
		var at func(p []string) *ref.J
		at = func(p []string) *ref.J {
			if len(p) == 0 {
				return values()
			}
			n := gen.Pick(t.Rand, 1, 1, 2, 3)
			if n == 1 {
				return ref.Obj(p[0], at(p[1:]))
			}
			a := ref.Arr()
			for ; n > 0; n-- {
				o := ref.Obj(p[0], at(p[1:]))
				if chance(t, 15) {
					o = ref.Obj()
				}
				a.Arr = append(a.Arr, o)
			}
			return a
		}
		got := map[bool]bool{}
		for i := 0; i < 12; i++ {
			doc := at(strings.Split(path, "."))
			got[same(t, m, q, doc, doc.Text())] = true
		}
		t.Count("one_field")
		if len(got) == 2 {
			t.Distinct("onefield " + text)
		}
	})
	c.Require("one_field", 4000)
}
