package props

import (
	"encoding/json"
	"fmt"
	"html"
	"regexp"
	"strings"
	"unicode/utf8"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/fmtmsg"
	"github.com/flowchartsman/aql/sampler"
)

// sweep runs a case for every character: of the first planes of scripts and of
// the compatibility forms always, of all others in blocks drawn at random; in
// the thorough tier of the whole basic plane, with more blocks beyond it.
func sweep(id string, f func(t *fw.T, r rune)) {
	const block = 64
	fw.Extend(id, func(c *fw.Ctx) {
		const low, high = 0x3100 / block, (0x10000 - 0xF900) / block
		const plane = 0x10000 / block
		all := int(utf8.MaxRune+1) / block
		c.Run("characters", c.N(low+high+60, plane+300), func(t *fw.T) {
			i := mustIndex(t.Key)
			switch {
			case c.N(0, 1) == 1:
				if i >= plane {
					i = plane + t.Intn(all-plane)
				}
			case i < low:
			case i < low+high:
				i += 0xF900/block - low
			default:
				i = low + t.Intn(all-low)
			}
			for r := rune(i * block); r < rune((i+1)*block); r++ {
				if r > utf8.MaxRune || !utf8.ValidRune(r) {
					continue
				}
				t.ClearNotes()
				f(t, r)
				t.Count("characters")
				t.Distinct(fmt.Sprintf("character %U", r))
			}
		})
		c.Require("characters", 10000)
	})
}

func init() {
	// in every position of a query, as it is and escaped
	sweep("C02", func(t *fw.T, r rune) {
		s := string(r)
		for _, q := range []string{"a" + s + ":1", s + "a:1", "a:" + s + "1", "a:1" + s, "a:1 AND" + s + "b:2", "a:1" + s + "AND b:2", "a:(1" + s + "2)", "a:(1," + s + "2)", "NOT" + s + "a:1", s + "(a:1)", "a." + s + ":1", "a" + s + "b:1", "a:tru" + s, "a:><(1,2" + s + ")", s} {
			agree(t, q)
		}
	})
	sweep("C03", func(t *fw.T, r rune) {
		s := string(r)
		for _, q := range []string{`a:"` + s + `"`, `a:"x` + s + `y"`, `"` + s + `":1`, "a:/" + s + "/", "a:/x" + s + "*y/", `a:"\` + s + `"`, `a:/\` + s + `/`, "a:" + gen.QuoteAQL(t.Rand, s+"x"+s, 60), gen.QuoteAQL(t.Rand, "k"+s, 60) + "." + gen.QuoteAQL(t.Rand, s, 60) + ":exists", "a:1" + s + "5", "a:2020-01-01" + s, "a:1.2.3.4" + s, "a:2020-01-01T00:00:00" + s} {
			agree(t, q)
		}
	})
	// as a key, between two that are next to it
	sweep("C05", func(t *fw.T, r rune) {
		doc := ref.Obj("n", ref.Num("0"))
		for _, x := range []rune{r - 1, r, r + 1} {
			if utf8.ValidRune(x) && x >= 0 && chance(t, 70) {
				doc.Set(string(x), ref.Num("1"))
				doc.Set("a"+string(x), ref.Obj(string(x)+"b", ref.Num("2")))
			}
		}
		s := doc.Write(gen.DocStyle(t.Rand))
		askPath(t, doc, s, []string{string(r)})
		askPath(t, doc, s, []string{"a" + string(r), string(r) + "b"})
	})
	// beside and inside of a term
	sweep("C07", func(t *fw.T, r rune) {
		s := string(r)
		for _, v := range []string{"ab", "1", "a b", "a?b", "a*", s, "a" + s, "x" + s + "?y"} {
			e := ref.Expr(vpath, "==", gen.StrVal(t.Rand, v))
			m := matcher(t, gen.Text(t.Rand, e, gen.TextStyle{}))
			for _, txt := range []string{oneOf(t, "", "-", "é") + "ab" + s, s + "ab", s + "1" + s, "a" + s + "b", "a" + s, "xx" + s + "zy " + s} {
				doc := ref.Obj("v", ref.Str(txt))
				t.ClearNotes()
				t.Note("term: %q", v)
				same(t, m, e, doc, doc.Text())
			}
		}
	})
	sweep("C08", func(t *fw.T, r rune) {
		s := string(r)
		lit := regexp.QuoteMeta(s)
		if r == '\n' || r == '/' { // which end an expression
			lit = fmt.Sprintf(`\x%02x`, r)
		}
		for _, v := range []string{lit, "^" + lit + "$", "[" + lit + "]", `^.$`, `a\bx`, `\w\W`, "(?i)" + lit} {
			e := ref.Expr(vpath, "==", gen.RegexVal(t.Rand, v))
			t.Note("expression: %q", v)
			m := matcher(t, gen.Text(t.Rand, e, gen.TextStyle{}))
			for _, txt := range []string{s, "a" + s, string(max(r-1, 0)), s + "x"} {
				doc := ref.Obj("v", ref.Str(txt))
				t.ClearNotes()
				t.Note("expression: %q", v)
				if utf8.ValidString(txt) {
					same(t, m, e, doc, doc.Text())
				}
			}
		}
	})
	sweep("C10", func(t *fw.T, r rune) {
		s := string(r)
		v := gen.NetVal(t.Rand)
		e := ref.Expr(vpath, "==", v)
		m := matcher(t, gen.Text(t.Rand, e, gen.TextStyle{}))
		a := gen.NearNet(t.Rand, v)
		for _, txt := range []string{a + s, s + a, s + a + s, strings.Replace(a, ".", s, 1), strings.Replace(a, ".", "."+s, 1), a + "/" + s + "2"} {
			doc := ref.Obj("v", ref.Str(txt))
			t.ClearNotes()
			t.Note("term: %s", v.Text)
			same(t, m, e, doc, doc.Text())
		}
	})
	// written as it is, and as an escape in lower and upper case
	sweep("C14", func(t *fw.T, r rune) {
		s := string(r)
		q := gen.QuoteAQL(t.Rand, s, 30) + ":" + oneOf(t, "exists", gen.QuoteAQL(t.Rand, s, 30), "/"+strings.ReplaceAll(regexp.QuoteMeta("x"+s), "/", `\/`)+"/", "1")
		if s == "/" || s == "\n" {
			q = `"` + map[string]string{"/": "/", "\n": `\n`}[s] + `":exists`
		}
		m := matcher(t, q)
		val := gen.Pick(t.Rand, ref.Str(s), ref.Str("x"+s), ref.Str("x "+s+" y"), ref.Num("1"))
		doc := ref.Obj(oneOf(t, s, s, "x"+s), val, "z", ref.Str(s))
		var first bool
		for i := 0; i < 4; i++ {
			text := doc.Write(ref.Style{R: t.Rand, Esc: 34 * i})
			t.ClearNotes()
			t.Note("query: %q", q)
			t.Note("document: %s", text)
			got := guarded(t, m, text)
			t.Eval()
			if i == 0 {
				first = got
			} else if got != first {
				t.Failf("the document matches: %v, written otherwise: %v", got, first)
			}
		}
	})
	sweep("C18", func(t *fw.T, r rune) {
		k := gen.QuoteAQL(t.Rand, string(r), gen.Pick(t.Rand, 0, 0, 100))
		text := k + ":1 AND b:" + k + " OR (c:(2," + k + ") AND d:1)"
		if r == '"' || r == '\\' || r < ' ' {
			text = `"x":1`
		}
		t.Note("query: %q", text)
		want, err := ref.Parse(text)
		if err != nil {
			t.C.Fatalf("generated query %q: %v", text, err)
		}
		n, err := parse(t, text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		t.Eval()
		if bad := placed(text, want, n); bad != "" {
			t.Failf("%s", bad)
		}
	})
	sweep("C34", func(t *fw.T, r rune) {
		k := gen.QuoteAQL(t.Rand, string(r), gen.Pick(t.Rand, 0, 100))
		text := k + ":" + k + " AND b:~(" + gen.QuoteAQL(t.Rand, "x"+string(r), 50) + ",true) OR x." + k + ":exists"
		t.Note("query: %q", text)
		want, err := ref.Parse(text)
		if err != nil {
			t.C.Fatalf("generated query %q: %v", text, err)
		}
		n, err := parse(t, text)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		showTree(t, n, want)
	})
	// an error behind the character is printed with the mark below it
	sweep("C21", func(t *fw.T, r rune) {
		q := gen.QuoteAQL(t.Rand, string(r), 0) + oneOf(t, ":><(2,1)", ":(1,1)", ":<true", ": ") + oneOf(t, "", " ", " AND b:1")
		_, err := parse(t, q)
		pe, ok := err.(*parser.ParseError)
		if !ok {
			t.C.Fatalf("the query %q gives %v", q, err)
		}
		t.Note("query: %q", q)
		out := ""
		t.Call("printing", func() { out = fmtmsg.NewTerminalFormatter(0).WithQuery(q).Sprint(pe) })
		t.Eval()
		p := pe.Pos()
		n := max(min(p.Len, utf8.RuneCountInString(q[p.Offset:])), 1)
		want := "\n    " + q + "\n    " + strings.Repeat(" ", utf8.RuneCountInString(q[:p.Offset])) + strings.Repeat("^", n) + "\n"
		if !strings.HasSuffix(out, want) || !strings.HasPrefix(out, "ERROR: "+pe.Message()) {
			t.Failf("printed %q, expected it to end with %q", out, want)
		}
	})
	htmlForm, herr := fmtmsg.NewFormatter("<p>{{.Message}}</p>⟦<b title=\"{{.Query}}\">⟦{{.QueryPre}}⟦{{.QueryHL}}⟦{{.QueryPost}}⟦{{toupper .Message}}⟦{{toupper .Query}}⟦{{repeat .Message 2}}", true, 0)
	textForm, terr := fmtmsg.NewFormatter("<p>{{.Message}}</p>⟦<b title=\"{{.Query}}\">⟦{{.QueryPre}}⟦{{.QueryHL}}⟦{{.QueryPost}}⟦{{toupper .Message}}⟦{{toupper .Query}}⟦{{repeat .Message 2}}", false, 0)
	sweep("C35", func(t *fw.T, r rune) {
		if herr != nil || terr != nil {
			t.Failf("a valid template was rejected: %v %v", herr, terr)
		}
		if r == '⟦' || r == 0 {
			return
		}
		s := string(r)
		q := "a" + s + ":" + s + "x" + s
		msg := &parser.ParserMessage{Position: posOf(q, len(q)-1-len(s), len(q)-len(s)), Msg: "m" + s + s + "n", Type: parser.MsgWarning}
		want := []string{"<p>" + msg.Msg + "</p>", `<b title="` + q + `">`, "a" + s + ":" + s, "x", s, strings.ToUpper(msg.Msg), strings.ToUpper(q), msg.Msg + msg.Msg}
		t.Note("query: %q", q)
		for i, f := range []*fmtmsg.Formatter{htmlForm, textForm} {
			var out string
			t.Call("printing", func() { out = f.WithQuery(q).Sprint(msg) })
			t.Eval()
			part := strings.Split(out, "⟦")
			if len(part) != len(want) {
				t.Failf("printed %q", out)
			}
			for k, w := range want {
				got := part[k]
				if i == 0 {
					inner := strings.TrimSuffix(strings.TrimPrefix(strings.TrimSuffix(strings.TrimPrefix(got, "<p>"), "</p>"), `<b title="`), `">`)
					if strings.ContainsAny(inner, `<>"'`) {
						t.Failf("markup is left in %q", out)
					}
					got = html.UnescapeString(got)
				}
				if got != w {
					t.Failf("printed %q as %q", w, part[k])
				}
			}
		}
	})
	// as a key, alone and in a longer one; the key leads back to the document
	key := func(t *fw.T, r rune) {
		s := string(r)
		doc := ref.Obj(s, ref.Num("1"), "x"+s, ref.Obj(s+s, ref.Str("v"), "y", ref.Arr(ref.Obj("."+s, ref.Null()))))
		text := sampleStyle(t, doc)
		t.Note("document: %s", text)
		sm := sampler.New(-1)
		sampleOK(t, sm, text)
		keys := sm.Keys()
		t.Eval()
		if diff := sameSet(keySet(t, keys), paths(doc, -1)); diff != "" {
			t.Failf("reported keys: %s", diff)
		}
		for _, k := range keys {
			var m *jsonmatcher.Matcher
			var err error
			t.Call("building a matcher", func() { m, err = jsonmatcher.NewMatcher(k + ":exists") })
			if err != nil {
				t.Failf("the sampled key %q cannot be used as a field: %v", k, err)
			}
			if !match(t, m, []byte(text)) {
				t.Failf("the sampled key %q finds nothing", k)
			}
		}
	}
	sweep("C23", key)
	sweep("C25", key)
	// in every place of a document
	valid33, _ := jsonmatcher.NewMatcher("a:exists OR a.b:1")
	sweep("C33", func(t *fw.T, r rune) {
		s := string(r)
		for _, d := range []string{s + "1", "1" + s, "1" + s + "2", `{"a"` + s + `:1}`, `{` + s + `"a":1}`, `{"a":1` + s + `}`, `["` + s + `"]`, `["\` + s + `"]`, `["\u00` + s + `0"]`, "[1" + s + "2]", "[1," + s + "2]", "tru" + s, s, "1." + s, "1e" + s + "1", "-" + s, `{"` + s + `":` + s + `}`} {
			want := ref.ValidJSON(d)
			var ok bool
			var err error
			t.Call("matching", func() { ok, err = valid33.Match([]byte(d)) })
			t.Eval()
			if want != (err == nil) || !want && ok {
				t.Failf("the document is valid: %v, matching says %v, %v\n  document: %q", want, ok, err, d)
			}
		}
	})
	// numbers with something around or inside them
	sweep("C06", func(t *fw.T, r rune) {
		s := string(r)
		e := ref.Expr(vpath, gen.Pick(t.Rand, cmpOps...), gen.IntVal(t.Rand, int64(gen.Pick(t.Rand, 0, 1, 12, -1))))
		m := matcher(t, gen.Text(t.Rand, e, gen.TextStyle{}))
		for _, x := range []string{"1" + s, s + "1", s, "1" + s + "2", "1" + s + "000", "-" + s, "1e" + s, "0" + s + "1", s + s} {
			doc := ref.Obj("v", ref.Str(x))
			same(t, m, e, doc, doc.Text())
		}
	})
	sweep("C39", func(t *fw.T, r rune) {
		s := string(r)
		msg := &parser.ParserMessage{Position: posOf("a:"+s+"1", 2, 2+len(s)), Msg: s + "m" + s, Type: parser.MsgHint}
		b, err := json.Marshal(msg)
		var back struct {
			Position map[string]int `json:"position"`
			Message  string         `json:"message"`
			Type     string         `json:"type"`
		}
		t.Eval()
		if err != nil || json.Unmarshal(b, &back) != nil || back.Message != msg.Msg || back.Type != "HINT" || len(back.Position) == 0 {
			t.Failf("%q is written as %s, %v", msg.Msg, b, err)
		}
		if w := "HINT [1:3(2)]: " + msg.Msg; msg.String() != w {
			t.Failf("printed as %q, expected %q", msg.String(), w)
		}
		pe := parser.ErrorAt(msg.Position, msg.Msg)
		if w := "1:3(2): " + msg.Msg; pe.Error() != w {
			t.Failf("printed as %q, expected %q", pe.Error(), w)
		}
	})
}
