package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing/iotest"
	"time"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
	"github.com/flowchartsman/aql/sampler"
)

func init() {
	fw.Register(&fw.Prop{
		ID:          "C01",
		Rule:        "random, mutated, truncated, deep and wide queries, documents and samples given to every entry point while panics, crashes, hangs and memory use are watched; non-trivial: a distinct input of at least two bytes",
		Run:         runTotal,
		Assumptions: []string{"inputs of at most a few megabytes"},
	})
	fw.Register(&fw.Prop{
		ID:          "C22",
		Rule:        "families of queries and documents grown step by step, with the allocated bytes and the processor time of each step compared with the steps before; non-trivial: a distinct (family, size) measured",
		Run:         runCost,
		Assumptions: []string{"processor time only counts when it is far beyond proportion in three measurements"},
	})
	fw.Register(&fw.Prop{
		ID:    "C27",
		Level: "fault_enumeration",
		Rule:  "each query read through readers that split it in many ways and that fail at every byte offset in several ways; non-trivial: a distinct (query, offset, way of failing)",
		Run:   runReaders,
	})
	fw.Register(&fw.Prop{
		ID:          "C31",
		Rule:        "long sequences of calls with inputs that never repeat, with the heap in use, the goroutines and the release of documents measured after collections; non-trivial: a distinct input passed in",
		Run:         runRetention,
		Assumptions: []string{"up to 6 MB of retained memory do not count, for caches of a fixed size"},
	})
	fw.Register(&fw.Prop{
		ID:   "C33",
		Rule: "valid, mutated and random documents matched by several queries, with acceptance compared with a reference reader of JSON and statistics read before and after; non-trivial: a distinct document",
		Run:  runValidity,
	})
}

// hostile makes bytes from a text by random damage.
func hostile(t *fw.T, s string) string {
	switch t.Intn(8) {
	case 0:
		if len(s) > 0 {
			return s[:t.Intn(len(s))]
		}
	case 1, 2, 3:
		return mutate(t, s)
	case 4:
		b := []byte(s)
		for k := 1 + t.Intn(4); k > 0 && len(b) > 0; k-- {
			b[t.Intn(len(b))] = byte(t.Intn(256))
		}
		return string(b)
	case 5:
		i := t.Intn(len(s) + 1)
		return s[:i] + oneOf(t, "\x00", "\xff", "\xc3", "\xe5\xa4", "\xf0\x9f", "\ufeff", "\u2028", `\`, `\u`, `\ud800`, `\udc00`, `"`, "/", "(", "{", "[", "]", "}", ":", ",", "-", "1e999", "\x7f", "\r") + s[i:]
	case 6:
		if len(s) > 1 {
			i, j := t.Intn(len(s)), t.Intn(len(s))
			if i > j {
				i, j = j, i
			}
			return s[:i] + s[j:]
		}
	}
	return s
}

var numberRun = regexp.MustCompile(`\d+`)

// twist makes a text a little wrong, in its characters or in its numbers.
func twist(t *fw.T, s string) string {
	for k := 1 + t.Intn(3); k > 0; k-- {
		i := t.Intn(len(s) + 1)
		j := i + t.Intn(len(s)-i+1)
		switch t.Intn(9) {
		case 0:
			s = s[:i] + oneOf(t, "0", "00", "1", "9", ".", "/", ":", "-", "+", "T", "Z", " ", "e", "E", "x", "_", "%", ",", "*", "?", "é", "\x00", "٣", "\u200b", "−", "'", "(", ")") + s[i:]
		case 1, 2, 3:
			at := numberRun.FindAllStringIndex(s, -1)
			if len(at) > 0 {
				x := at[t.Intn(len(at))]
				s = s[:x[0]] + oneOf(t, "0", "00", "0"+s[x[0]:x[1]], s[x[0]:x[1]]+"0", "08", "60", "99", "255", "256", "999", "99999", "2147483648", "9223372036854775808", "-1", "+1", "", "1e9", strings.Repeat("1", 40), strings.Repeat("0", 40)) + s[x[1]:]
			}
		case 4:
			s = s[:i] + s[j:]
		case 5:
			s = s[:j] + s[i:]
		case 6:
			s = s[i:] + s[:i]
		case 7:
			s = s[:i] + strings.ToUpper(s[i:])
		default:
			s += oneOf(t, "", " ", ", ", "/", "-") + s
		}
		if len(s) > 4000 {
			break
		}
	}
	return s
}

// exercise calls everything there is to call for a query.
func exercise(t *fw.T, q string, docs []string) {
	var opts []parser.Option
	if len(q) < 200 && chance(t, 10) {
		opts = append(opts, parser.Debug())
	}
	nodes := 0
	opts = append(opts, parser.Visitors(parser.VisitorFunc(func(n ast.Node) error {
		nodes++
		_ = n.String()
		return nil
	})))
	if len(q) > 5000 {
		opts = nil // printing every node of a large tree is quadratic
	}
	n, err := parse(t, q, opts...)
	t.Eval()
	var m *jsonmatcher.Matcher
	var merr error
	t.Call("building a matcher", func() { m, merr = jsonmatcher.NewMatcher(q) })
	if (m == nil) == (merr == nil) {
		t.Failf("a matcher and an error, or neither: %v", merr)
	}
	var msgs []fmtmsg.Message
	if err != nil {
		t.Count("rejected")
		var pe *parser.ParseError
		if !errors.As(err, &pe) || pe.Message() == "" || err.Error() == "" {
			t.Failf("rejected with the error %#v", err)
		}
		msgs = append(msgs, pe)
	} else {
		t.Count("accepted")
		t.Call("printing the tree", func() { _ = n.String() })
	}
	if m != nil {
		for _, x := range m.Messages() {
			msgs = append(msgs, x)
			t.Call("printing a message", func() { _ = x.String() })
		}
		for _, d := range docs {
			t.Call("matching", func() {
				ok, err := m.Match([]byte(d))
				if ok && err != nil {
					t.Failf("matched with the error %v", err)
				}
			})
			t.Eval()
			t.Count("matches")
		}
		t.Call("reading statistics", func() { _ = m.Stats() })
	}
	for _, x := range msgs {
		for _, w := range []int{-1, 0, 1, 5, 80} {
			t.Call("printing a message", func() { _ = fmtmsg.NewTerminalFormatter(w).WithQuery(q).Sprint(x) })
		}
		f, err := fmtmsg.NewFormatter(splitTmpl, true, 20)
		if err == nil {
			t.Call("printing a message", func() { _ = f.WithQuery(q).Sprint(x) })
		}
		t.Count("messages")
	}
}

func randBytes(t *fw.T, max int) string {
	b := make([]byte, gen.Size(t.Rand, 20, max))
	for i := range b {
		b[i] = byte(t.Intn(256))
	}
	return string(b)
}

const jsonChars = `{}[]":,\x01e-+.truefalsn u`

func jsonSoup(t *fw.T) string {
	var b strings.Builder
	for i := 1 + t.Intn(25); i > 0; i-- {
		switch t.Intn(3) {
		case 0:
			b.WriteByte(jsonChars[t.Intn(len(jsonChars))])
		default:
			b.WriteString(oneOf(t, "{", "}", "[", "]", ",", ":", `"a"`, `"b"`, `"a":`, `"v":`, "1", "-0.5", "1e5", "true", "false", "null", `""`, `"\u0041"`, `"\ud83d\ude00"`, `"\`, " ", "\n", `{"a":`, `[{`, "}]", `"\uD800"`, "01", "1.", "--1", ".5", "tru", "nul"))
		}
	}
	return b.String()
}

func runTotal(c *fw.Ctx) {
	c.Run("queries", c.N(30000, 300000), func(t *fw.T) {
		var q string
		switch t.Intn(6) {
		case 0:
			q = randBytes(t, 300)
		case 1:
			q = soup(t)
		default:
			q = gen.Text(t.Rand, gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 3, 12), MaxList: 6}.Query(t.Rand), gen.TextStyle{Stars: true, Parens: 10})
			for k := t.Intn(4); k > 0; k-- {
				q = hostile(t, q)
			}
		}
		t.Note("query: %q", clip(q))
		exercise(t, q, []string{"{}", `{"a":1}`})
		t.Sample(map[string]any{"query": fmt.Sprintf("%q", clip(q))})
		if len(q) > 1 {
			t.Distinct(q)
		}
	})
	c.Run("expressions", c.N(6000, 60000), func(t *fw.T) {
		src := gen.RegexTree(t.Rand)
		v := gen.RegexVal(t.Rand, src)
		q := gen.Text(t.Rand, ref.Expr([]string{"a"}, oneOf(t, "==", "==", "~"), v), gen.TextStyle{})
		if chance(t, 15) {
			q = hostile(t, q)
		}
		t.Note("query: %q", clip(q))
		exercise(t, q, []string{"{}", ref.Obj("a", ref.Str(gen.RegexSample(t.Rand, src))).Text(), ref.Obj("a", ref.Str(gen.NearRegex(t.Rand, v.Re))).Text()})
		t.Count("grown_expressions")
		t.Distinct(q)
	})
	c.Require("grown_expressions", 1000)
	c.Run("documents", c.N(15000, 150000), func(t *fw.T) {
		q := gen.Config{MaxNodes: 4, MaxList: 6}.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true})
		var docs []string
		for i := 0; i < 8; i++ {
			d := gen.Doc(t.Rand, q).Write(gen.DocStyle(t.Rand))
			switch t.Intn(8) {
			case 0:
				d = randBytes(t, 300)
			case 1:
				d = jsonSoup(t)
			case 2, 3, 4, 5:
				d = hostile(t, d)
			}
			docs = append(docs, d)
			t.Distinct(d)
		}
		t.Note("query: %q, documents: %q", clip(text), docs)
		exercise(t, text, docs)
	})
	// terms and values a little wrong
	c.Run("values", c.N(20000, 200000), func(t *fw.T) {
		e := gen.Config{MaxList: 3}.Expr(t.Rand)
		for len(e.Vals) == 0 {
			e = gen.Config{MaxList: 3}.Expr(t.Rand)
		}
		text := gen.ExprText(t.Rand, e, gen.TextStyle{})
		if i := strings.LastIndexByte(text, ':'); i > 0 && chance(t, 30) {
			text = text[:i] + twist(t, text[i:])
		}
		var docs []string
		for i := 0; i < 12; i++ {
			v := gen.Near(t.Rand, e.Vals[t.Intn(len(e.Vals))])
			switch v.Kind {
			case ref.JStr:
				v = ref.Str(twist(t, v.Str))
			case ref.JNum:
				if s := twist(t, v.Num); chance(t, 50) {
					v = ref.Str(s)
				} else if json.Valid([]byte(s)) && !strings.HasPrefix(s, "\"") {
					v = ref.Num(strings.TrimSpace(s))
				}
			}
			if chance(t, 20) {
				v = ref.Arr(ref.Str("x"), v)
			}
			o := ref.Obj()
			gen.Put(t.Rand, o, e.Field, v)
			docs = append(docs, o.Write(gen.DocStyle(t.Rand)))
			t.Distinct(text + docs[i])
		}
		t.Note("query: %q, documents: %q", clip(text), docs)
		exercise(t, text, docs)
		t.Count("twisted")
	})
	c.Run("samples", c.N(40000, 400000), func(t *fw.T) {
		var d string
		switch t.Intn(6) {
		case 0:
			d = randBytes(t, 300)
		case 1:
			d = oneOf(t, "{", "[") + jsonSoup(t) + oneOf(t, "}", "]")
		default:
			d = sampleStyle(t, sampleDoc(t))
			for k := t.Intn(3); k > 0; k-- {
				d = hostile(t, d)
			}
		}
		t.Note("document: %q", clip(d))
		s := sampler.New(gen.Pick(t.Rand, -1, -1, 0, 1, 3))
		var err error
		t.Call("sampling", func() { err = s.Sample([]byte(d)) })
		t.Call("sampling", func() {
			_ = s.Sample([]byte(`{"a":1}`))
			_ = s.Keys()
			_ = s.KeysAtThreshold(t.Intn(200) - 50)
			s.Reset()
		})
		t.Eval()
		if err != nil {
			t.Count("samples_failed")
		} else {
			t.Count("samples_taken")
		}
		if len(d) > 1 {
			t.Distinct(d)
		}
	})
	rep := strings.Repeat
	deep := func(n int) []string {
		return []string{
			rep("(", n) + "a:1" + rep(")", n), rep("(", n) + "a:1", rep("(", n), "a:1" + rep(")", n),
			rep("!(", n) + "a:1" + rep(")", n), rep("NOT (", n) + "a:1" + rep(")", n), rep("!", n) + "a:1", rep("NOT ", n) + "a:1",
			rep("(a:1 AND ", n) + "b:2" + rep(")", n), rep("(", n) + "b:2" + rep(" OR a:1)", n), rep("(a:1 OR !", n) + "b:2" + rep(")", n),
			"a:1" + rep(" AND b:2", n), "a:1" + rep(" OR b:2", n), "a" + rep(".a", n) + ":1", rep(`"a".`, n) + "b:1", rep("*.", n) + "b:1",
			`a:"` + rep("*", n) + `"`, `a:"` + rep("?", n) + `"`, `a:"` + rep(`\"`, n) + `"`, `a:"` + rep("大", n) + `"`, `a:"` + rep("x", n), "a:/" + rep("(", n) + rep(")", n) + "/", "a:/" + rep("a*", n) + "/", "a:/" + rep(`\/`, n) + "/",
			"a:" + rep("9", n), "a:0." + rep("9", n), "a:(" + rep("1,", n) + "2)", "a:(" + rep("(", n) + "1" + rep(")", n) + ")", rep(" ", n) + "a:1", rep("\n", n), rep("\x00", n), rep("a", n) + ":1", rep(":", n), rep(`"`, n), rep("/", n), rep("é", n) + ":1",
		}
	}
	families := len(deep(1))
	c.Run("deep", families*3, func(t *fw.T) {
		i := atoiKey(t.Key)
		n := []int{50, 600, 1}[i%3]
		if i%3 == 2 {
			n = c.N(2500, 10000)
		}
		q := deep(n)[i/3]
		t.Note("query family %d at size %d: %s", i/3, n, clip(q))
		exercise(t, q, []string{"{}", `{"a":[1,"` + rep("x", 500) + `"],"b":2}`})
		t.Distinct(q)
		t.Count("deep_queries")
	})
	docs := func(n int) []string {
		d := min(n, 9990)
		return []string{
			rep(`{"a":`, d) + "1" + rep("}", d), rep(`[`, d) + rep("]", d), rep(`[{"a":`, d/2) + "1" + rep("}]", d/2), rep(`{"a":[`, d/2) + "1" + rep("]}", d/2),
			rep(`{"a":`, n), rep(`[`, n), rep("]", n), rep(`{"a":`, n) + "}", "[" + rep("[],", n) + "1]", `{"a":[` + rep("{},", n) + "1]}",
			`{"a":"` + rep("x", n) + `"}`, `{"a":"` + rep(`\u0041`, n) + `"}`, `{"a":"` + rep(`\\`, n) + `"}`, `{"` + rep("a", n) + `":1}`, `{"a":` + rep("9", n) + "}", `{"a":"` + rep("9", n) + `"}`, `{"a":1e` + rep("9", n) + "}", `{"a":0.` + rep("0", n) + "1}",
			rep(`{"a":`, 12000) + "1" + rep("}", 12000), rep(" ", n) + "{}", `{"a":"` + rep("1.2.3.4 ", n) + `"}`, `{"a":"` + rep("2020-", n) + `"}`, `{"a":"` + rep("大", n) + `"}`,
		}
	}
	queries := []string{"a:1", "a:exists", "a:null", "a.a.a.a.a.a.a.a:exists", `a:"x"`, `a:"*x*"`, `a:"大"`, "a:/x+/", "a:1.2.3.4/8", "a:2020-01-01", "a:<2020-01-01T00:00:00Z", "a:><(1,2)", "a:~1", "a:true", `!a:(1,"x",/y/)`, "a" + rep(".a", 3000) + ":exists"}
	nd := len(docs(1))
	c.Run("deepdocs", nd*3, func(t *fw.T) {
		i := atoiKey(t.Key)
		n := []int{40, 1000, 1}[i%3]
		if i%3 == 2 {
			n = c.N(8000, 40000)
		}
		d := docs(n)[i/3]
		t.Note("document family %d at size %d: %s", i/3, n, clip(d))
		for _, q := range queries {
			exercise(t, q, []string{d})
		}
		s := sampler.New(gen.Pick(t.Rand, -1, 3))
		t.Call("sampling", func() { _ = s.Sample([]byte(d)); _ = s.Keys() })
		t.Distinct(d)
		t.Count("deep_documents")
	})
	c.Require("accepted", 5000)
	c.Require("rejected", 5000)
	c.Require("twisted", 10000)
	c.Require("samples_failed", 5000)
	c.Require("deep_queries", int64(families*3))
	c.Require("deep_documents", int64(nd*3))
}

func atoiKey(key string) int {
	_, s, _ := strings.Cut(key, "/")
	n := 0
	fmt.Sscan(s, &n)
	return n
}

// threadCPU is the processor time of the calling thread.
func threadCPU() time.Duration {
	var ru syscall.Rusage
	const rusageThread = 1
	if syscall.Getrusage(rusageThread, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type cost struct {
	bytes float64
	cpu   time.Duration
}

func measure(f func()) cost {
	var a, b runtime.MemStats
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	runtime.GC()
	runtime.ReadMemStats(&a)
	s := threadCPU()
	f()
	e := threadCPU()
	runtime.ReadMemStats(&b)
	return cost{float64(b.TotalAlloc - a.TotalAlloc), e - s}
}

type family struct {
	name string
	max  int
	make func(n int) func()
}

func list(n int, f string) string {
	var o []string
	for i := 0; i < n; i++ {
		o = append(o, fmt.Sprintf(f, i))
	}
	return strings.Join(o, ",")
}

func addresses(n int) string {
	var o []string
	for i := range n {
		o = append(o, fmt.Sprintf("10.%d.%d.%d", i>>16, i>>8&255, i&255))
	}
	return strings.Join(o, ",")
}

func times(n int) string {
	var o []string
	for i := range n {
		o = append(o, time.Unix(int64(i), 0).UTC().Format(time.RFC3339))
	}
	return strings.Join(o, ",")
}

func families(t *fw.T) []family {
	rep := strings.Repeat
	var out []family
	q := func(name string, f func(n int) string) {
		out = append(out, family{"query " + name, 12000, func(n int) func() {
			s := f(n)
			return func() { _, _ = parser.ParseQuery(s) }
		}})
		out = append(out, family{"matcher " + name, 4000, func(n int) func() {
			s := f(n)
			return func() { _, _ = jsonmatcher.NewMatcher(s) }
		}})
	}
	m := func(name string, f func(n int) (string, string)) {
		out = append(out, family{"match " + name, 64000, func(n int) func() {
			query, d := f(n)
			mm, err := jsonmatcher.NewMatcher(query)
			if err != nil {
				t.Failf("valid query rejected: %s: %v", clip(query), err)
			}
			b := []byte(d)
			return func() {
				if _, err := mm.Match(b); err != nil {
					t.Failf("valid document rejected: %s: %v", clip(d), err)
				}
			}
		}})
	}
	s := func(name string, f func(n int) string) {
		out = append(out, family{"sample " + name, 64000, func(n int) func() {
			b := []byte(f(n))
			return func() { _ = sampler.New(-1).Sample(b) }
		}})
	}
	q("parens", func(n int) string { return rep("(", n) + "a:1" + rep(")", n) })
	q("parens left open", func(n int) string { return rep("(", n) + "a:1" })
	q("parens closed twice", func(n int) string { return rep("(", n) + "a:1" + rep(")", 2*n) })
	q("negations", func(n int) string { return rep("!(", n) + "a:1" + rep(")", n) })
	q("NOTs", func(n int) string { return rep("NOT (", n) + "a:1" + rep(")", n) })
	q("negation run", func(n int) string { return rep("!", n) + "a:1" })
	q("ANDs", func(n int) string { return "a:1" + rep(" AND a:1", n) })
	q("ORs", func(n int) string { return "a:1" + rep(" OR a:1", n) })
	q("mix", func(n int) string { return "a:1" + rep(" AND a:1 OR !b:2", n) })
	q("nested right", func(n int) string { return rep("(a:1 AND ", n) + "a:1" + rep(")", n) })
	q("nested left", func(n int) string { return rep("(", n) + "a:1" + rep(" OR b:2)", n) })
	q("nested with a mistake", func(n int) string { return rep("(a:1 AND ", n) + "a:" + rep(")", n) })
	q("nested groups of lists", func(n int) string { return rep("(a:(1,2) OR ", n) + "a:1" + rep(")", n) })
	q("numbers", func(n int) string { return "a:(" + list(n, "%d") + ")" })
	q("floats", func(n int) string { return "a:(" + list(n, "%d.5") + ")" })
	q("strings", func(n int) string { return "a:(" + list(n, `"s%d"`) + ")" })
	q("expressions", func(n int) string { return "a:(" + list(n, `/s%d/`) + ")" })
	q("list left open", func(n int) string { return "a:(" + list(n, "%d") })
	q("repeated value at the end", func(n int) string { return "a:(" + list(n, "%d") + ",0)" })
	q("long string", func(n int) string { return `a:"` + rep("x ", n) + `"` })
	q("escapes", func(n int) string { return `a:"` + rep(`\u0041`, n) + `"` })
	q("non-ASCII string", func(n int) string { return `a:"` + rep("大 ", n) + `"` })
	q("string left open", func(n int) string { return `a:"` + rep("x", n) })
	q("wildcards", func(n int) string { return `a:"` + rep("a*b?", n) + `"` })
	q("long path", func(n int) string { return "a" + rep(".b", n) + ":1" })
	q("quoted path", func(n int) string { return `"a"` + rep(`."b c"`, n) + ":1" })
	q("long name", func(n int) string { return rep("b", n) + ":1" })
	q("long expression", func(n int) string { return "a:/" + rep("b", n) + "/" })
	q("alternatives", func(n int) string { return "a:/" + rep("b|c", n) + "/" })
	q("spaces", func(n int) string { return rep(" ", n) + "a:1" + rep("\n", n) })
	q("digits", func(n int) string { return "a:1." + rep("3", n) })
	q("junk", func(n int) string { return "a:1 " + rep("x ", n) })
	// lists and chains long enough for work on all pairs to show
	big := func(name string, max int, f func(n int) string) {
		out = append(out, family{"large query " + name, max, func(n int) func() {
			s := f(n)
			return func() { _, _ = parser.ParseQuery(s) }
		}})
	}
	bigm := func(name string, max int, f func(n int) string) {
		out = append(out, family{"large matcher " + name, max, func(n int) func() {
			s := f(n)
			return func() {
				m, err := jsonmatcher.NewMatcher(s)
				if err != nil {
					t.Failf("valid query rejected: %s: %v", clip(s), err)
				}
				_, _ = m.Messages(), m.Stats()
			}
		}})
		out = append(out, family{"printed tree of " + name, max, func(n int) func() {
			s := f(n)
			tree, err := parser.ParseQuery(s)
			if err != nil {
				t.Failf("valid query rejected: %s: %v", clip(s), err)
			}
			return func() {
				_ = tree.String()
				for _, e := range astExprs(tree, nil) {
					_ = e.FriendlyString()
				}
			}
		}})
	}
	bigm("numbers", 32000, func(n int) string { return "a:(" + list(n, "%d") + ")" })
	bigm("floats", 32000, func(n int) string { return "a:(" + list(n, "%d.5") + ")" })
	bigm("strings", 16000, func(n int) string { return "a:(" + list(n, `"s%d"`) + ")" })
	bigm("expressions", 8000, func(n int) string { return "a:(" + list(n, `/s%d/`) + ")" })
	bigm("addresses", 24000, func(n int) string { return "a:(" + addresses(n) + ")" })
	bigm("times", 24000, func(n int) string { return "a:(" + times(n) + ")" })
	bigm("long string", 200000, func(n int) string { return `a:"` + rep("x ", n) + `"` })
	bigm("long name", 200000, func(n int) string { return rep("b", n) + ":1" })
	bigm("long path", 50000, func(n int) string { return "a" + rep(".b", n) + ":1" })
	bigm("advice", 8000, func(n int) string { return "a:(" + list(n, `/.*s%d/`) + ")" })
	// messages about long queries, and about many
	print := func(name string, max int, f func(n int) (string, []fmtmsg.Message)) {
		out = append(out, family{"print " + name, max, func(n int) func() {
			q, ms := f(n)
			p, err := fmtmsg.NewFormatter("{{.Type}} {{.Message}} {{.QueryPre}}[{{.QueryHL}}]{{.QueryPost}}", false, 0)
			if err != nil {
				t.Failf("%v", err)
			}
			short := fmtmsg.NewTerminalFormatter(60)
			return func() {
				a, b := p.WithQuery(q), short.WithQuery(q)
				for _, m := range ms {
					a.Fprint(io.Discard, m)
					b.Fprint(io.Discard, m)
				}
			}
		}})
	}
	print("in the middle", 200000, func(n int) (string, []fmtmsg.Message) {
		q := "a:" + list(n, "%d é")
		return q, []fmtmsg.Message{&parser.ParserMessage{Position: ast.Pos{Line: 1, Col: n, Offset: len(q) / 2, Len: 9}, Msg: "m", Type: parser.MsgHint}}
	})
	print("all of it", 200000, func(n int) (string, []fmtmsg.Message) {
		q := "a:" + list(n, "%d")
		return q, []fmtmsg.Message{&parser.ParserMessage{Position: ast.Pos{Line: 1, Col: 1, Offset: 0, Len: len(q)}, Msg: q, Type: parser.MsgHint}}
	})
	print("many messages", 16000, func(n int) (string, []fmtmsg.Message) {
		var ms []fmtmsg.Message
		for i := 0; i < n; i++ {
			ms = append(ms, &parser.ParserMessage{Position: ast.Pos{Line: 1, Col: 2, Offset: 1, Len: 3}, Msg: "m", Type: parser.MsgWarning})
		}
		return "abc:1", ms
	})
	big("numbers", 48000, func(n int) string { return "a:(" + list(n, "%d") + ")" })
	big("floats", 48000, func(n int) string { return "a:(" + list(n, "%d.5") + ")" })
	big("strings", 48000, func(n int) string { return "a:(" + list(n, `"s%d"`) + ")" })
	big("expressions", 32000, func(n int) string { return "a:(" + list(n, `/s%d/`) + ")" })
	big("addresses", 32000, func(n int) string { return "a:(" + addresses(n) + ")" })
	big("times", 32000, func(n int) string { return "a:(" + times(n) + ")" })
	big("fields", 32000, func(n int) string { return "a:1" + strings.ReplaceAll(","+list(n, "b%d:1"), ",", " AND ") })
	big("terms with advice", 16000, func(n int) string { return "a:1" + strings.ReplaceAll(","+list(n, "b%d:~/x/"), ",", " OR ") })
	big("long string", 400000, func(n int) string { return `a:"` + rep("x ", n) + `"` })
	big("long name", 400000, func(n int) string { return rep("b", n) + ":1" })
	big("long expression", 200000, func(n int) string { return "a:/" + rep("b", n) + "/" })
	big("long path", 100000, func(n int) string { return "a" + rep(".b", n) + ":1" })
	big("digits", 400000, func(n int) string { return "a:1." + rep("3", n) })
	big("spaces", 400000, func(n int) string { return rep(" ", n) + "a:1" + rep("\n", n) })
	big("lines", 100000, func(n int) string { return "a:" + rep("\n", n) + "1 AND b:2" + rep("\r\n", n) })
	out = append(out, family{"reader, bytes", 200000, func(n int) func() {
		s := `a:"` + rep("x ", n) + `"`
		return func() { _, _ = parser.ParseQueryReader(iotest.OneByteReader(strings.NewReader(s))) }
	}})
	// the same object used again and again
	again := func(name string, max int, f func() func(i int)) {
		out = append(out, family{"again " + name, max, func(n int) func() {
			g := f()
			return func() {
				for i := range n {
					g(i)
				}
			}
		}})
	}
	again("keys", 4000, func() func(int) {
		sm := sampler.New(-1)
		return func(i int) {
			if i%50 == 0 {
				sm.Sample([]byte(fmt.Sprintf(`{"k%d":1,"b":[{"c":2}]}`, i%1000)))
			}
			_ = sm.KeysAtThreshold(i % 100)
		}
	})
	again("matcher", 64000, func() func(int) {
		mm, err := jsonmatcher.NewMatcher(`a:1 AND !b:"x" OR c:(1.2.3.4,2020-01-01)`)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		return func(i int) { mm.Match([]byte(fmt.Sprintf(`{"a":%d,"b":"x","c":[%d,"2020-01-01"]}`, i%3, i))) }
	})
	again("invalid documents", 64000, func() func(int) {
		mm, err := jsonmatcher.NewMatcher(`a:1`)
		if err != nil {
			t.Failf("valid query rejected: %v", err)
		}
		return func(i int) { mm.Match([]byte(fmt.Sprintf(`{"a":%d`, i))) }
	})
	again("parsing", 8000, func() func(int) {
		return func(i int) { _, _ = parser.ParseQuery(fmt.Sprintf(`a%d:%d`, i, i)) }
	})
	again("parsing mistakes", 8000, func() func(int) {
		return func(i int) { _, _ = parser.ParseQuery(fmt.Sprintf(`a%d:(%d,%d)`, i, i, i)) }
	})
	again("building matchers", 8000, func() func(int) {
		return func(i int) { _, _ = jsonmatcher.NewMatcher(fmt.Sprintf(`a%d:("%d",/x%d/)`, i, i, i)) }
	})
	again("sampling", 64000, func() func(int) {
		sm := sampler.New(-1)
		return func(i int) { sm.Sample([]byte(fmt.Sprintf(`{"k%d":1,"b":[{"c":2}]}`, i%50))) }
	})
	m("wide object, miss", func(n int) (string, string) { return "zz:1", "{" + list(n, `"k%d":1`) + "}" })
	m("wide object, hit", func(n int) (string, string) { return "zz:1", "{" + list(n, `"k%d":1`) + `,"zz":1}` })
	m("array of numbers", func(n int) (string, string) { return "a:-1", `{"a":[` + list(n, `%d`) + "]}" })
	m("array of strings", func(n int) (string, string) { return `a:"q"`, `{"a":[` + list(n, `"s%d"`) + "]}" })
	m("array of objects", func(n int) (string, string) { return "a.b:-1", `{"a":[` + list(n, `{"b":%d}`) + "]}" })
	m("array of objects, null", func(n int) (string, string) { return "a.b:null", `{"a":[` + list(n, `{"b":null,"c":%d}`) + "]}" })
	m("array at the root", func(n int) (string, string) { return "b:-1", `[` + list(n, `{"b":%d}`) + "]" })
	m("arrays of arrays", func(n int) (string, string) { return "a:-1", `{"a":[` + list(n, `[%d]`) + "]}" })
	m("long text", func(n int) (string, string) { return `a:"q"`, `{"a":"` + rep("x ", n) + `"}` })
	m("long text, wildcards", func(n int) (string, string) { return `a:"x*q*z"`, `{"a":"` + rep("x ", n) + `"}` })
	m("long text, non-ASCII", func(n int) (string, string) { return `a:"大q"`, `{"a":"` + rep("大x ", n) + `"}` })
	m("long text, addresses", func(n int) (string, string) { return `a:1.2.3.4`, `{"a":"` + rep("1.2.3.5 ", n) + `"}` })
	m("long text, expression", func(n int) (string, string) { return `a:/(x+)+y/`, `{"a":"` + rep(`x`, n) + `"}` })
	m("long text, date", func(n int) (string, string) { return `a:2020-01-01`, `{"a":"` + rep(`1`, n) + `"}` })
	m("long text, number", func(n int) (string, string) { return `a:<1`, `{"a":"` + rep(`1`, n) + `"}` })
	m("escaped text", func(n int) (string, string) { return `a:"q"`, `{"a":"` + rep(`\u0041 `, n) + `"}` })
	m("escaped keys", func(n int) (string, string) { return `a:"q"`, `{` + list(n, `"\u0041%d":1`) + `}` })
	m("list", func(n int) (string, string) { n = n/4 + 1; return `a:(` + list(n, "%d") + ")", `{"a":-1}` })
	m("ANDs", func(n int) (string, string) { n = n/4 + 1; return `a:1` + rep(" AND a:1", n), `{"a":1}` })
	m("deep nesting", func(n int) (string, string) { n = min(n, 9000); return `x:1`, rep(`{"a":`, n) + "1" + rep("}", n) })
	m("deep arrays", func(n int) (string, string) {
		n = min(n, 9000)
		return "a:1", `{"a":` + rep(`[`, n) + "1" + rep("]", n) + "}"
	})
	m("path of the depth", func(n int) (string, string) {
		n = min(n/32+1, 2000)
		return "a" + rep(".a", n-1) + ":2", rep(`{"a":`, n) + "1" + rep("}", n)
	})
	m("path through arrays", func(n int) (string, string) {
		n = min(n/32+1, 2000)
		return "a" + rep(".a", n-1) + ":2", rep(`{"a":[`, n) + "1" + rep("]}", n)
	})
	m("wide objects on the way", func(n int) (string, string) {
		return "a.zz.b:2", `{"a":[` + list(n/8+1, `{"k%d":1,"zz":{"c":1}}`) + "]}"
	})
	m("keys that repeat", func(n int) (string, string) { return "a:-1", "{" + list(n, `"a":%d`) + "}" })
	m("exists", func(n int) (string, string) { return "a.c:exists", `{"a":[` + list(n, `{"b":%d}`) + "]}" })
	m("array of nulls", func(n int) (string, string) { return "a:null", `{"a":[null` + rep(",null", n) + "]}" })
	m("array of Booleans", func(n int) (string, string) { return "a:true", `{"a":[false` + rep(",false", n) + "]}" })
	m("array of dates", func(n int) (string, string) {
		return "a:<1990-01-01", `{"a":[` + list(n, `"2020-01-01T00:00:00.%dZ"`) + "]}"
	})
	m("array of addresses", func(n int) (string, string) { return "a:1.2.3.4", `{"a":[` + list(n, `"1.2.3.5/%d"`) + "]}" })
	m("array of texts, wildcards", func(n int) (string, string) { return `a:"x*y?z"`, `{"a":[` + list(n, `"xx yy%d"`) + "]}" })
	m("array of texts, non-ASCII", func(n int) (string, string) { return `a:"é大"`, `{"a":[` + list(n, `"e大é%d"`) + "]}" })
	m("range over numbers", func(n int) (string, string) { return `a:><(-2,-1)`, `{"a":[` + list(n, `%d`) + "]}" })
	m("words that almost match", func(n int) (string, string) { return `a:"x x x x x x x x y"`, `{"a":"` + rep("x ", n) + `"}` })
	m("glued words", func(n int) (string, string) { return `a:"xx"`, `{"a":"` + rep("x", n) + `"}` })
	m("many wildcards", func(n int) (string, string) { return `a:"x*x*x*x*x*x*y"`, `{"a":"` + rep("x", n/4) + `"}` })
	m("many wildcards, non-ASCII", func(n int) (string, string) { return `a:"é*é*é*é*é*大"`, `{"a":"` + rep("é", n/4) + `"}` })
	m("many question marks", func(n int) (string, string) { return `a:"????????y"`, `{"a":"` + rep("x", n) + `"}` })
	m("combining marks", func(n int) (string, string) { return `a:"é大"`, `{"a":"` + rep("e\u0301", n) + `"}` })
	m("one letter, many marks", func(n int) (string, string) { return `a:"é大"`, `{"a":"e` + rep("\u0301", n) + `"}` })
	m("dots and digits", func(n int) (string, string) { return `a:1.2.3.4`, `{"a":"` + rep("1.", n) + `"}` })
	m("blocks", func(n int) (string, string) { return `a:10.0.0.0/8`, `{"a":"` + rep("1.2.3.4/24 ", n) + `"}` })
	m("broken blocks", func(n int) (string, string) { return `a:10.0.0.0/8`, `{"a":"` + rep("1.2.3.400/99 ", n) + `"}` })
	m("long fractions", func(n int) (string, string) { return `a:<1`, `{"a":1.` + rep(`1`, n) + `}` })
	m("long fraction of a second", func(n int) (string, string) {
		return `a:>2030-01-01`, `{"a":"2020-01-01T00:00:00.` + rep(`1`, n) + `Z"}`
	})
	m("text of a date with spaces", func(n int) (string, string) { return `a:>2030-01-01`, `{"a":"2020-01-01` + rep(` `, n) + `"}` })
	m("greedy expression", func(n int) (string, string) { return `a:/(a|aa)+$/`, `{"a":"` + rep(`a`, n/4) + `b"}` })
	m("list of strings", func(n int) (string, string) { n = n/16 + 2; return `a:(` + list(n, `"s%d"`) + ")", `{"a":"none"}` })
	m("list of expressions", func(n int) (string, string) { n = n/16 + 2; return `a:(` + list(n, `/s%d/`) + ")", `{"a":"none"}` })
	m("ORs of fields", func(n int) (string, string) {
		n = n/16 + 1
		return "a:1" + strings.ReplaceAll(","+list(n, "b%d:1"), ",", " OR "), `{"c":1}`
	})
	m("spaces", func(n int) (string, string) { return "a:1", rep(" ", n) + `{"a":2}` + rep("\n", n) })
	s("wide", func(n int) string { return "{" + list(n, `"k%d":1`) + "}" })
	s("array", func(n int) string { return "[" + list(n, `{"k":%d}`) + "]" })
	s("keys that repeat", func(n int) string { return "{" + list(n, `"a":%d`) + "}" })
	s("nested", func(n int) string { n = min(n/32+1, 2000); return rep(`{"a":`, n) + "1" + rep("}", n) })
	s("odd keys", func(n int) string { return "{" + list(n, `"k %d\"":1`) + "}" })
	s("scalars", func(n int) string { return `{"a":[` + list(n, `%d`) + "]}" })
	s("long text", func(n int) string { return `{"a":"` + rep("x", n) + `"}` })
	return out
}

func runCost(c *fw.Ctx) {
	debug.SetGCPercent(400)
	c.RunSeq("families", 1, func(t *fw.T) {
		fams := families(t)
		worst := map[string]any{}
		var beyond []string
		known := map[string]bool{}
		for _, f := range fams {
			known[f.name] = c.Known(f.name)
		}
		for _, f := range fams {
			max := f.max
			if c.Thorough {
				max *= 2
			}
			sizes := []int{4, 6, 8, 10, 12, 14, 16, 20, 24, 32, 48, 64, 96, 128, max / 16, max / 4, max}
			at := func(n int) (cost, bool) {
				g := f.make(n)
				var res cost
				t.ClearNotes()
				t.Note("%s at size %d", f.name, n)
				t.Call("the measured call", func() { res = measure(g) })
				t.Eval()
				t.Count("measurements")
				t.Distinct(fmt.Sprint(f.name, n))
				return res, true
			}
			const mem0 = 64 << 10
			const cpu0 = 5 * time.Millisecond
			at(4) // the first call also pays for set-up
			var got []cost
			trouble := ""
			for i, n := range sizes {
				x, _ := at(n)
				got = append(got, x)
				// everything smaller bounds this in proportion
				for k := 0; k < i && trouble == ""; k++ {
					ratio := float64(n) / float64(sizes[k])
					if ratio < 1 {
						continue
					}
					if known[f.name] {
						ratio *= ratio
					}
					const slack = 3
					if y := got[k]; x.bytes > slack*ratio*(y.bytes+mem0) {
						trouble = fmt.Sprintf("%s: size %d allocates %.0f bytes, size %d allocates %.0f", f.name, sizes[k], y.bytes, n, x.bytes)
					}
					if y := got[k]; float64(x.cpu) > slack*ratio*float64(y.cpu+cpu0) {
						// measure again before believing it
						bad := true
						for r := 0; r < 5 && bad; r++ {
							a, _ := at(sizes[k])
							b, _ := at(n)
							bad = float64(b.cpu) > slack*ratio*float64(a.cpu+cpu0)
						}
						if bad {
							trouble = fmt.Sprintf("%s: size %d takes %v of processor time, size %d takes %v", f.name, sizes[k], y.cpu, n, x.cpu)
						}
						t.Count("measured_again")
					}
				}
				if trouble != "" {
					break
				}
			}
			if trouble != "" {
				beyond = append(beyond, trouble)
				continue
			}
			n := len(got)
			if known[f.name] && float64(got[n-1].cpu) > 3*16*float64(got[n-3].cpu+cpu0) {
				c.Finding(fmt.Sprintf("%s: size %d takes %v of processor time, size %d takes %v", f.name, sizes[n-3], got[n-3].cpu, sizes[n-1], got[n-1].cpu))
			}
			worst[f.name] = fmt.Sprintf("%d: %.0f bytes, %v, %d: %.0f bytes, %v", sizes[n-3], got[n-3].bytes, got[n-3].cpu, sizes[n-1], got[n-1].bytes, got[n-1].cpu)
		}
		if len(beyond) > 0 {
			t.ClearNotes()
			t.Failf("%s", strings.Join(beyond, "\n"))
		}
		c.Extra("families", worst)
		t.Sample(worst)
	})
	c.Require("measurements", 500)
}

// chunked is a reader that splits a text and may fail.
type chunked struct {
	s      string
	next   func() int
	failAt int // -1: never
	err    error
	with   bool // return the last bytes together with the end or the error
	done   bool
	after  int // reads after the end or an error
	empty  int
	idle   int // reads in a row that give nothing, once idleAt bytes are left
	idleAt int
}

func (r *chunked) Read(p []byte) (int, error) {
	if r.done {
		r.after++
		if r.failAt >= 0 {
			return 0, r.err
		}
		return 0, io.EOF
	}
	if r.idle > 0 && len(r.s) <= r.idleAt {
		r.idle--
		return 0, nil
	}
	limit := len(r.s)
	if r.failAt >= 0 && r.failAt < limit {
		limit = r.failAt
	}
	n := min(r.next(), limit, len(p))
	if n == 0 && limit > 0 {
		r.empty++
		if r.empty%3 != 0 {
			return 0, nil
		}
		n = min(1, len(p))
	}
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.failAt >= 0 {
		r.failAt -= n
	}
	end := len(r.s) == 0 && r.failAt < 0 || r.failAt == 0
	if end && (r.with || n == 0) {
		r.done = true
		if r.failAt >= 0 {
			return n, r.err
		}
		return n, io.EOF
	}
	return n, nil
}

type oddError struct{ s string }

func (e *oddError) Error() string { return e.s }

func treeForm(n ast.Node) string {
	out := n.String()
	for _, e := range astExprs(n, nil) {
		out += fmt.Sprintf("|%v", e.Pos())
		for _, v := range e.RVals {
			out += fmt.Sprintf(",%v%s", v.Pos(), v.String())
		}
	}
	return out
}

func runReaders(c *fw.Ctx) {
	parseR := func(t *fw.T, r io.Reader, opts ...parser.Option) (n ast.Node, err error) {
		t.Call("parsing", func() { n, err = parser.ParseQueryReader(r, opts...) })
		if (n == nil) == (err == nil) {
			t.Failf("a tree and an error, or neither: %v", err)
		}
		return
	}
	c.Run("kinds", c.N(2500, 25000), func(t *fw.T) {
		// readers of the standard library, of which some was read before
		q := gen.Text(t.Rand, gen.Config{MaxNodes: gen.Pick(t.Rand, 2, 8), MaxList: 4}.Query(t.Rand), gen.TextStyle{Parens: 10})
		if chance(t, 30) {
			q = hostile(t, q)
		}
		used := oneOf(t, "", "x", "b:2 AND ", "(", `"`, strings.Repeat("z:1 OR ", 700))
		rest := oneOf(t, "", " AND", "\x00", " AND k:9")
		t.Note("query: %q, behind %q", clip(q), clip(used))
		n, err := parse(t, q)
		for _, kind := range []string{"strings", "bytes", "buffer", "section", "limited", "bufio", "multi", "pipe", "file", "tee"} {
			if chance(t, 50) {
				continue
			}
			t.ClearNotes()
			t.Note("query: %q, behind %q, kind of reader: %s", clip(q), clip(used), kind)
			skip := func(r io.Reader) io.Reader {
				if _, err := io.ReadFull(r, make([]byte, len(used))); err != nil {
					c.Fatalf("reading ahead: %v", err)
				}
				return r
			}
			var r io.Reader
			switch kind {
			case "strings":
				r = skip(strings.NewReader(used + q))
			case "bytes":
				r = skip(bytes.NewReader([]byte(used + q)))
			case "buffer":
				r = skip(bytes.NewBufferString(used + q))
			case "section":
				r = io.NewSectionReader(strings.NewReader(used+q+rest), int64(len(used)), int64(len(q)))
			case "limited":
				r = &io.LimitedReader{R: skip(strings.NewReader(used + q + rest)), N: int64(len(q))}
			case "bufio":
				r = skip(bufio.NewReaderSize(strings.NewReader(used+q), 16))
			case "multi":
				k := t.Intn(len(q) + 1)
				r = skip(io.MultiReader(strings.NewReader(used), strings.NewReader(q[:k]), strings.NewReader(""), strings.NewReader(q[k:])))
			case "tee":
				r = io.TeeReader(skip(strings.NewReader(used+q)), io.Discard)
			case "pipe":
				pr, pw := io.Pipe()
				go func() {
					io.WriteString(pw, used+q)
					pw.Close()
				}()
				defer pr.Close()
				r = skip(pr)
			case "file":
				if !chance(t, 20) {
					continue
				}
				dir, done := fw.CaseDir(t)
				defer done()
				fw.Write(c, filepath.Join(dir, "q"), used+q)
				f, err := os.Open(filepath.Join(dir, "q"))
				if err != nil {
					c.Fatalf("%v", err)
				}
				defer f.Close()
				r = skip(f)
			}
			n2, err2 := parseR(t, r)
			t.Eval()
			t.Count("kind_" + kind)
			if err != nil {
				var a, b *parser.ParseError
				if !errors.As(err, &a) || !errors.As(err2, &b) || a.Message() != b.Message() || a.Pos() != b.Pos() {
					t.Failf("from the text: %v; from the reader: %v", err, err2)
				}
				continue
			}
			if err2 != nil {
				t.Failf("from the reader: %v", err2)
			}
			if a, b := treeForm(n), treeForm(n2); a != b {
				t.Failf("from the text: %s; from the reader: %s", clip(a), clip(b))
			}
		}
		t.Distinct("kinds" + q)
	})
	c.Require("kind_file", 50)
	c.Require("kind_strings", 500)
	c.Run("split", c.N(6000, 60000), func(t *fw.T) {
		q := gen.Text(t.Rand, gen.Config{MaxNodes: gen.Pick(t.Rand, 2, 8, 60), MaxList: 6}.Query(t.Rand), gen.TextStyle{Parens: 10})
		if chance(t, 40) {
			q = hostile(t, q)
		}
		if chance(t, 5) {
			q = soup(t)
		}
		if chance(t, 20) { // line ends of all kinds
			q = gap(t) + strings.ReplaceAll(q, " ", oneOf(t, "\r\n", "\r", "\n\r", "\t", " \r\n ", "\r\n\r\n")) + gap(t)
		}
		t.Note("query: %q", clip(q))
		n, err := parse(t, q)
		if want, rerr := ref.Parse(q); rerr == nil && err == nil {
			if bad := placed(q, want, n); bad != "" {
				t.Failf("%s", bad)
			}
			t.Count("as_written")
		}
		for i := 0; i < 6; i++ {
			sizes := [][]int{{1}, {2}, {3}, {0, 1, 2, 5}, {512}, {511, 1, 513}, {1, 1000}, {1 << 20}}[t.Intn(8)]
			r := &chunked{s: q, failAt: -1, with: chance(t, 50), next: func() int { return sizes[t.Intn(len(sizes))] }}
			if chance(t, 10) {
				r.idle, r.idleAt = gen.Pick(t.Rand, 3, 10, 99, 100, 101, 300, 1100), t.Intn(len(q)+1)
				t.Count("idle_readers")
			}
			var opts []parser.Option
			if len(q) < 150 && chance(t, 15) {
				opts = append(opts, parser.Debug())
				t.Count("with_diagnostics")
			}
			n2, err2 := parseR(t, r, opts...)
			t.Eval()
			if err != nil {
				var a, b *parser.ParseError
				if !errors.As(err, &a) || !errors.As(err2, &b) || a.Message() != b.Message() || a.Pos() != b.Pos() {
					t.Failf("from the text: %v; from a reader in pieces of %v: %v", err, sizes, err2)
				}
				t.Count("rejected")
				continue
			}
			if err2 != nil {
				t.Failf("from a reader in pieces of %v: %v", sizes, err2)
			}
			if treeForm(n) != treeForm(n2) {
				t.Failf("from a reader in pieces of %v: %s, expected %s", sizes, clip(treeForm(n2)), clip(treeForm(n)))
			}
			if !r.done {
				t.Failf("the reader was not read to its end")
			}
			t.Count("accepted")
		}
		t.Distinct(q)
	})
	// failures at every offset
	c.Run("faults", c.N(250, 2500), func(t *fw.T) {
		q := gen.Text(t.Rand, gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 4, 25), MaxList: 4}.Query(t.Rand), gen.TextStyle{})
		if len(q) > 3000 {
			q = q[:3000]
		}
		if chance(t, 20) {
			q = mutate(t, q)
		}
		errs := []error{errors.New("disk on fire"), io.ErrUnexpectedEOF, &oddError{"odd failure"}, fmt.Errorf("wrapped: %w", io.EOF), io.ErrClosedPipe, errors.New("a:1")}
		for at := 0; at <= len(q); at++ {
			e := errs[t.Intn(len(errs))]
			with := chance(t, 50)
			piece := gen.Pick(t.Rand, 1, 7, 512, 1<<20)
			r := &chunked{s: q, failAt: at, err: e, with: with, next: func() int { return piece }}
			calls := 0
			n, err := parseR(t, r, parser.Visitors(parser.VisitorFunc(func(ast.Node) error { calls++; return nil })))
			t.Eval()
			if err == nil {
				t.Failf("reading failed with %q at byte %d of %q, but the query %s was accepted", e, at, clip(q), clip(n.String()))
			}
			if !strings.Contains(err.Error(), e.Error()) {
				t.Failf("reading failed with %q at byte %d of %q, but parsing says %v", e, at, clip(q), err)
			}
			if calls > 0 {
				t.Failf("reading failed at byte %d of %q, but visitors were called", at, clip(q))
			}
			t.Count("faults")
			t.Distinct(fmt.Sprint(q, at, e, with))
		}
		t.Sample(map[string]any{"query": clip(q), "fault_points": len(q) + 1})
	})
	// the library's own text entry point with all options on
	c.Run("debug", c.N(1500, 15000), func(t *fw.T) {
		q := gen.Text(t.Rand, gen.Config{MaxNodes: 3, MaxList: 3}.Query(t.Rand), gen.TextStyle{})
		if chance(t, 40) {
			q = mutate(t, q)
		}
		if len(q) > 200 {
			return
		}
		if mustIndex(t.Key)%50 == 0 { // nested
			open := oneOf(t, "(", "( ", "NOT (", "a:1 OR (", "!(")
			k := 10 + t.Intn(30)
			q = strings.Repeat(open, k) + "b:2" + strings.Repeat(")", k-t.Intn(2))
			t.Count("nested_with_diagnostics")
		}
		t.Note("query: %q", q)
		n, err := parse(t, q)
		n2, err2 := parse(t, q, parser.Debug())
		t.Eval()
		if fmt.Sprint(err) != fmt.Sprint(err2) || err == nil && treeForm(n) != treeForm(n2) {
			t.Failf("with diagnostics %v %v, without %v %v", n2, err2, n, err)
		}
		t.Count("with_diagnostics")
	})
	c.Require("nested_with_diagnostics", 10)
	c.Require("faults", 5000)
	c.Require("idle_readers", 1000)
	c.Require("as_written", 2000)
	c.Require("accepted", 5000)
	c.Require("rejected", 1000)
	c.Require("with_diagnostics", 500)
}

func heap() float64 {
	var ms runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	return float64(ms.HeapAlloc)
}

func runRetention(c *fw.Ctx) {
	const limit = 512 << 10
	word := func(t *fw.T, i int) string { return fmt.Sprintf("w%dx%d", i, t.Intn(1<<30)) }
	pad := strings.Repeat("x", 1500)
	shared, err := jsonmatcher.NewMatcher(`a:"never" OR b:/never/ OR c:1.2.3.4 OR d:>5 OR e:2020-01-01 OR f:"大*never" OR g:"大" OR h:exists OR i.j.k:null OR l:~"m"`)
	if err != nil {
		c.Fatalf("%v", err)
	}
	printer := fmtmsg.NewTerminalFormatter(60)
	smp := sampler.New(-1)
	vis := func(n ast.Node) error { return nil }
	kinds := []struct {
		name string
		n    int // calls per round
		f    func(t *fw.T, i int) int
	}{
		{"parse", 4000, func(t *fw.T, i int) int {
			q := fmt.Sprintf(`%s:"%s %s" AND b:/%s/`, word(t, i), word(t, i), pad[:200], word(t, i))
			_, err := parser.ParseQuery(q)
			if err != nil {
				t.Failf("%q: %v", q, err)
			}
			return len(q)
		}},
		{"reject", 4000, func(t *fw.T, i int) int {
			q := fmt.Sprintf(`%s:"%s %s" AND ( `, word(t, i), word(t, i), pad[:200])
			_, err := parser.ParseQuery(q)
			if err == nil {
				t.Failf("%q was accepted", q)
			}
			return len(q)
		}},
		{"read", 3000, func(t *fw.T, i int) int {
			q := fmt.Sprintf(`%s:"%s %s"`, word(t, i), word(t, i), pad[:200])
			r := &chunked{s: q, next: func() int { return 1 + t.Intn(60) }, failAt: -1, with: i%2 == 0}
			if _, err := parser.ParseQueryReader(r); err != nil {
				t.Failf("%q: %v", q, err)
			}
			return len(q)
		}},
		{"fail to read", 3000, func(t *fw.T, i int) int {
			q := fmt.Sprintf(`%s:"%s %s"`, word(t, i), word(t, i), pad[:200])
			r := &chunked{s: q, next: func() int { return 1 + t.Intn(60) }, failAt: i % len(q), err: &oddError{word(t, i)}, with: i%2 == 0}
			if _, err := parser.ParseQueryReader(r); err == nil {
				t.Failf("a reader that fails after %d bytes: no error", i%len(q))
			}
			return len(q)
		}},
		{"visitors that stop", 3000, func(t *fw.T, i int) int {
			q := fmt.Sprintf(`%s:1 AND (b:2 OR c:"%s")`, word(t, i), pad[:500])
			stop := []error{errors.New(word(t, i)), parser.Skip, parser.SkipAll, &parser.ParseError{Position: ast.Pos{Line: 1}, Msg: word(t, i)}}[i%4]
			mv := parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error {
				tape.Error("%s", q)
				return nil
			})
			at := t.Intn(5)
			v := parser.VisitorFunc(func(n ast.Node) error {
				if at--; at < 0 {
					return stop
				}
				return nil
			})
			_, _ = parser.ParseQuery(q, parser.Visitors(v, mv))
			return len(q)
		}},
		{"build and fail", 3000, func(t *fw.T, i int) int {
			q := fmt.Sprintf(`%s:(1,2,"%s") OR %s:><("%s",1) OR b:/%s(/`, word(t, i), word(t, i), word(t, i), pad[:200], word(t, i))
			if _, err := jsonmatcher.NewMatcher(q); err == nil {
				t.Failf("%q was accepted", q)
			}
			return len(q)
		}},
		{"samplers", 2000, func(t *fw.T, i int) int {
			s := sampler.New(i % 7)
			d := fmt.Sprintf(`{"%s":"%s","b":[{"%s":1}]}`, word(t, i), pad, word(t, i))
			for k := 0; k < 3; k++ {
				_ = s.Sample([]byte(d[:len(d)-i%2]))
				_ = s.Keys()
			}
			s.Reset()
			return len(d)
		}},
		{"formatters", 300, func(t *fw.T, i int) int {
			tmpl := fmt.Sprintf(`%s {{.Message}} {{.Query}}`, word(t, i)) + oneOf(t, "", "", "{{.Nothing}}", "{{if}}")
			f, err := fmtmsg.NewFormatter(tmpl, i%2 == 0, 20+t.Intn(80))
			if err != nil {
				return len(tmpl)
			}
			q := fmt.Sprintf(`%s:"%s"`, word(t, i), pad[:300])
			defer func() { _ = recover() }()
			f.WithQuery(q).Fprint(io.Discard, &parser.ParserMessage{Position: ast.Pos{Line: 1, Col: 2, Offset: 1, Len: 5}, Msg: word(t, i), Type: parser.MsgHint})
			return len(tmpl) + len(q)
		}},
		{"build", 3000, func(t *fw.T, i int) int {
			q := fmt.Sprintf(`%s:("%s","%s*","大%s") AND b:/%s.*/ OR c:>%d OR d:%d.%d.0.0/16 OR e:~"%s"`, word(t, i), word(t, i), word(t, i), word(t, i), word(t, i), t.Int63(), t.Intn(256), t.Intn(256), word(t, i))
			m, err := jsonmatcher.NewMatcher(q)
			if err != nil {
				t.Failf("%q: %v", q, err)
			}
			_, _ = m.Match([]byte(`{"b":"x"}`))
			_ = m.Stats()
			return len(q)
		}},
		{"match", 5000, func(t *fw.T, i int) int {
			d := fmt.Sprintf(`{"a":"%s %s","b":"%s","c":"10.%d.%d.1","d":1,"e":"2021-01-%02d","f":"大 %s","%s":{"z":%d},"g":["%s",{"q":1}],"i":{"j":{"k":1}}}`, word(t, i), pad, word(t, i), t.Intn(256), t.Intn(256), 1+t.Intn(28), word(t, i), word(t, i), t.Int63(), word(t, i))
			ok, err := shared.Match([]byte(d))
			if err != nil || ok {
				t.Failf("%v, %v for %s", ok, err, clip(d))
			}
			_ = shared.Stats()
			return len(d)
		}},
		{"broken", 5000, func(t *fw.T, i int) int {
			d := fmt.Sprintf(`{"a":"%s %s","%s":}`, word(t, i), pad, word(t, i))
			if _, err := shared.Match([]byte(d)); err == nil {
				t.Failf("a broken document was accepted: %s", clip(d))
			}
			return len(d)
		}},
		{"sample", 5000, func(t *fw.T, i int) int {
			d := fmt.Sprintf(`{"a":"%s %s","b":{"c":["%s",{"d":1}]},"e":%d}`, word(t, i), pad, word(t, i), t.Int63())
			if err := smp.Sample([]byte(d)); err != nil {
				t.Failf("%v", err)
			}
			_, _ = smp.Keys(), smp.KeysAtThreshold(50)
			return len(d)
		}},
		{"sample broken", 5000, func(t *fw.T, i int) int {
			d := fmt.Sprintf(`{"a":1,"%s":"%s","%s":x}`, word(t, i), pad, word(t, i))
			if err := smp.Sample([]byte(d)); err == nil {
				t.Failf("a broken document was sampled: %s", clip(d))
			}
			return len(d)
		}},
		{"print", 5000, func(t *fw.T, i int) int {
			q := fmt.Sprintf(`%s:"%s"`, word(t, i), pad)
			out := printer.WithQuery(q).Sprint(&parser.ParserMessage{Position: ast.Pos{Line: 1, Col: 2, Offset: t.Intn(1000), Len: 5}, Msg: word(t, i), Type: parser.MsgWarning})
			return len(out) + len(q)
		}},
		{"visit", 3000, func(t *fw.T, i int) int {
			q := fmt.Sprintf(`%s:1 AND (b:2 OR c:"%s")`, word(t, i), pad[:500])
			mv := parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error { tape.Hint("%s", q); return nil })
			if _, err := parser.ParseQuery(q, parser.Visitors(parser.VisitorFunc(vis), mv)); err != nil {
				t.Failf("%v", err)
			}
			return len(q)
		}},
	}
	// queries full of one kind of thing
	letters := func(t *fw.T, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + t.Intn(26))
		}
		return string(b)
	}
	for _, k := range []struct {
		name string
		one  func(t *fw.T, i int) string
	}{
		{"expressions", func(t *fw.T, i int) string {
			return "/" + letters(t, 80) + oneOf(t, "", ".*", `\d`, "[ab]+", "$") + "/"
		}},
		{"broken expressions", func(t *fw.T, i int) string { return "/" + letters(t, 80) + "(/" }},
		{"strings", func(t *fw.T, i int) string { return `"` + letters(t, 80) + oneOf(t, "", "!", " x") + `"` }},
		{"wildcards", func(t *fw.T, i int) string { return `"` + letters(t, 40) + oneOf(t, "*", "?") + letters(t, 40) + `"` }},
		{"unicode", func(t *fw.T, i int) string { return `"大` + letters(t, 80) + `é"` }},
		{"numbers", func(t *fw.T, i int) string { return fmt.Sprintf("%d", t.Int63()) }},
		{"floats", func(t *fw.T, i int) string { return fmt.Sprintf("%d.%d", t.Int63(), t.Int63()) }},
		{"addresses", func(t *fw.T, i int) string { return fmt.Sprintf("%s/%d", dotted(t.Uint32()), 20+t.Intn(13)) }},
		{"times", func(t *fw.T, i int) string { return time.Unix(t.Int63n(4e9), 0).UTC().Format(time.RFC3339) }},
	} {
		for _, op := range []string{"", "~"} {
			if op == "~" && k.name != "expressions" && k.name != "strings" {
				continue
			}
			kinds = append(kinds, struct {
				name string
				n    int
				f    func(t *fw.T, i int) int
			}{"many " + k.name + op, 150, func(t *fw.T, i int) int {
				var vs []string
				for j := 0; j < 20; j++ {
					vs = append(vs, k.one(t, i))
				}
				q := fmt.Sprintf(`"%s".%s:%s(%s)`, letters(t, 100), letters(t, 100), op, strings.Join(vs, ","))
				m, err := jsonmatcher.NewMatcher(q)
				if (err == nil) != (k.name != "broken expressions") {
					t.Failf("%s: %v", q, err)
				}
				if err == nil {
					_, _ = m.Match([]byte(`{"` + letters(t, 100) + `":[1,"` + letters(t, 100) + `"]}`))
					_, _ = m.Stats(), m.Messages()
				}
				return len(q)
			}})
		}
	}
	// documents full of one kind of value, with a matcher that is kept
	asked, err := jsonmatcher.NewMatcher(`v:"never" OR v:/never/ OR v:255.255.255.255 OR v:><(-2.5,-2.25) OR v:1901-02-03 OR v:>2999-01-01 OR v:"大*never" OR v:"大" OR v:true OR v:null OR v:(0.125,"ever?") OR v.w:exists OR v:~/^$/`)
	if err != nil {
		c.Fatalf("%v", err)
	}
	for _, k := range []struct {
		name string
		one  func(t *fw.T) string
	}{
		{"dates", func(t *fw.T) string {
			at := time.Unix(t.Int63n(1e9)+1e9, t.Int63n(1e9)).UTC()
			return strconv.Quote(at.Format(oneOf(t, time.RFC3339Nano, "2006-01-02 15:04:05.000000", "Mon Jan _2 15:04:05 2006", "1/2/2006 15:04:05")))
		}},
		{"numbers", func(t *fw.T) string { return fmt.Sprintf("%d.%d", t.Intn(1e6), t.Int63()) }},
		{"numbers in strings", func(t *fw.T) string { return fmt.Sprintf(`"%d.%de%d"`, t.Intn(1e6), t.Int63(), t.Intn(9)) }},
		{"addresses", func(t *fw.T) string {
			return fmt.Sprintf(`"%s to %s/%d"`, dotted(t.Uint32()>>1), dotted(t.Uint32()>>1), 8+t.Intn(25))
		}},
		{"strings", func(t *fw.T) string { return `"` + letters(t, 60) + `"` }},
		{"strings with escapes", func(t *fw.T) string {
			return fmt.Sprintf(`"%s\u00%02x \n%s"`, letters(t, 30), 0xa0+t.Intn(90), letters(t, 30))
		}},
		{"other scripts", func(t *fw.T) string {
			return `"é` + letters(t, 40) + string(rune(0x4e00+t.Intn(2000))) + letters(t, 10) + `"`
		}},
		{"objects", func(t *fw.T) string {
			return fmt.Sprintf(`{"%s":["%s"],"x":%d}`, letters(t, 40), letters(t, 40), t.Int63())
		}},
	} {
		kinds = append(kinds, struct {
			name string
			n    int
			f    func(t *fw.T, i int) int
		}{"documents of " + k.name, 150, func(t *fw.T, i int) int {
			var vs []string
			for j := 0; j < 40; j++ {
				vs = append(vs, k.one(t))
			}
			d := `{"v":[` + strings.Join(vs, ",") + `],"` + letters(t, 20) + `":0}`
			ok, err := asked.Match([]byte(d))
			// (random letters may well hold what is asked for)
			if err != nil || ok && !strings.Contains(d, "大") && !strings.Contains(d, "ever") {
				t.Failf("%v, %v for %s", ok, err, clip(d))
			}
			return len(d)
		}})
	}
	one := printer.WithQuery(`a:"` + pad + `" OR b:2`)
	kinds = append(kinds, struct {
		name string
		n    int
		f    func(t *fw.T, i int) int
	}{"print about one query", 3000, func(t *fw.T, i int) int {
		return len(one.Sprint(&parser.ParserMessage{Position: ast.Pos{Line: 1, Col: 2, Offset: t.Intn(1000), Len: 1 + t.Intn(500)}, Msg: letters(t, 100), Type: parser.MsgHint})) + i
	}})
	c.RunSeq("growth", len(kinds), func(t *fw.T) {
		k := kinds[atoiKey(t.Key)]
		t.Note("%s", k.name)
		in := 0
		rounds := c.N(3, 20)
		passed := make([]int, 0, k.n*(1+3*rounds)) // allocated before measuring
		round := func() {
			for i := 0; i < k.n; i++ {
				t.Call(k.name, func() { in += k.f(t, i) })
				t.Eval()
				passed = append(passed, in)
			}
		}
		round() // set-up and warm-up
		g0, h0 := runtime.NumGoroutine(), heap()
		for i := 0; i < rounds; i++ {
			round()
		}
		h1 := heap()
		g1 := runtime.NumGoroutine()
		for i := 0; i < 200 && g1 > g0; i++ {
			runtime.Gosched()
			time.Sleep(10 * time.Millisecond)
			g1 = runtime.NumGoroutine()
		}
		if g1 > g0+2 {
			t.Failf("%d goroutines before %d calls, %d after\n%s", g0, rounds*k.n, g1, clip(string(allStacks())))
		}
		if h1-h0 > limit {
			// make sure before reporting: growth has to go on
			h2 := h1
			grown := true
			for k := 0; k < 2 && grown; k++ {
				before := h2
				for i := 0; i < rounds; i++ {
					round()
				}
				h2 = heap()
				grown = h2-before > limit/2
			}
			if grown {
				t.Failf("%.0f bytes in use before, %.0f after %d calls, %.0f after %d calls", h0, h1, rounds*k.n, h2, 3*rounds*k.n)
			}
		}
		for _, n := range passed {
			t.Distinct(fmt.Sprint(k.name, n)) // no input is the same as another
		}
		t.Count("rounds")
		c.Extra("growth "+k.name, map[string]any{"calls": rounds * k.n, "bytes_passed_in": in, "heap_before": h0, "heap_after": h1, "goroutines_before": g0, "goroutines_after": g1})
		t.Sample(map[string]any{"calls": k.name, "bytes_passed_in": in, "heap_growth": h1 - h0})
	})
	// documents that were passed in are let go while matcher and sampler live
	c.RunSeq("release", c.N(40, 200), func(t *fw.T) {
		q := gen.Config{MaxNodes: 6, MaxList: 4}.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		m := matcher(t, text)
		s := sampler.New(-1)
		const n = 30
		freed := make(chan int, 2*n)
		for i := 0; i < n; i++ {
			func() {
				d := gen.Doc(t.Rand, q)
				d2 := d
				if d.Kind != ref.JObj {
					d2 = ref.Obj("a", d)
				}
				b := make([]byte, 0, 16<<10)
				b = append(b, d.Text()...)
				if chance(t, 20) {
					b = append(b, '!')
				}
				b2 := append(make([]byte, 0, 16<<10), d2.Text()...)
				runtime.SetFinalizer(&b[0], func(*byte) { freed <- 1 })
				runtime.SetFinalizer(&b2[0], func(*byte) { freed <- 1 })
				t.Call("matching", func() { _, _ = m.Match(b) })
				t.Call("sampling", func() { _ = s.Sample(b2) })
				t.Eval()
			}()
		}
		got := 0
		for i := 0; i < 400 && got < 2*n-2; i++ {
			runtime.GC()
			time.Sleep(time.Millisecond)
			for len(freed) > 0 {
				got += <-freed
			}
		}
		if got < 2*n-2 { // one of each may still be on a stack
			t.Failf("of %d documents passed to a matcher and a sampler still in use, only %d were let go\n  query: %s", 2*n, got, clip(text))
		}
		c.Count("released", int64(got))
		runtime.KeepAlive(m)
		runtime.KeepAlive(s)
		t.Distinct(text)
	})
	// each of many matchers and samplers has seen a few documents, good and bad
	c.RunSeq("apart", c.N(30, 150), func(t *fw.T) {
		q := gen.Config{MaxNodes: 4, MaxList: 3}.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		const n = 20
		freed := make(chan int, 8*n)
		given := 0
		var ms []*jsonmatcher.Matcher
		var ss []*sampler.Sampler
		bad := t.Intn(3) // how the last document is
		for i := 0; i < n; i++ {
			m, s := matcher(t, text), sampler.New(-1)
			ms, ss = append(ms, m), append(ss, s)
			last := 1 + t.Intn(3)
			for k := 0; k < last; k++ {
				func() {
					d := ref.Obj("a", gen.Doc(t.Rand, q)).Text()
					switch {
					case k == last-1 && bad == 1, k < last-1 && chance(t, 30):
						d = d[:1+t.Intn(len(d)-1)]
					case k == last-1 && bad == 2:
						d += oneOf(t, "!", "}", "{}", "x}")
					}
					b := append(make([]byte, 0, 16<<10), d...)
					b2 := append(make([]byte, 0, 16<<10), d...)
					runtime.SetFinalizer(&b[0], func(*byte) { freed <- 1 })
					runtime.SetFinalizer(&b2[0], func(*byte) { freed <- 1 })
					t.Call("matching", func() { _, _ = m.Match(b) })
					t.Call("sampling", func() { _ = s.Sample(b2) })
					given += 2
					t.Eval()
				}()
			}
		}
		got := 0
		for i := 0; i < 400 && got < given-4; i++ {
			runtime.GC()
			time.Sleep(time.Millisecond)
			for len(freed) > 0 {
				got += <-freed
			}
		}
		if got < given-4 { // some may still be on a stack
			t.Failf("of %d documents passed to %d matchers and samplers still in use, only %d were let go\n  query: %s", given, n, got, clip(text))
		}
		c.Count("released_apart", int64(got))
		runtime.KeepAlive(ms)
		runtime.KeepAlive(ss)
		t.Distinct("apart" + text)
	})
	c.Require("released_apart", 1000)
	c.Require("rounds", int64(len(kinds)))
	c.Require("released", 1000)
}

func allStacks() []byte {
	b := make([]byte, 1<<20)
	return b[:runtime.Stack(b, true)]
}

func runValidity(c *fw.Ctx) {
	check := func(t *fw.T, m *jsonmatcher.Matcher, d string) {
		want := ref.ValidJSON(d)
		before, _ := json.Marshal(m.Stats())
		var ok bool
		var err error
		b := []byte(d)
		t.Call("matching", func() { ok, err = m.Match(b) })
		t.Eval()
		if want != (err == nil) {
			t.Failf("the document is valid: %v, matching says %v, %v\n  document: %q", want, ok, err, clip(d))
		}
		if !bytes.Equal(b, []byte(d)) {
			t.Failf("matching changed the document %q", clip(d))
		}
		if want {
			t.Count("valid")
			return
		}
		t.Count("invalid")
		if ok || err.Error() == "" {
			t.Failf("an invalid document gave %v, %q", ok, err)
		}
		after, _ := json.Marshal(m.Stats())
		if !bytes.Equal(before, after) {
			t.Failf("an invalid document was counted: %s before, %s after\n  document: %q", clip(string(before)), clip(string(after)), clip(d))
		}
	}
	cfg := gen.Config{MaxNodes: 5, MaxList: 4}
	c.Run("mutated", c.N(8000, 80000), func(t *fw.T) {
		q := cfg.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{})
		m := matcher(t, text)
		t.Note("query: %s", clip(text))
		for i := 0; i < 10; i++ {
			d := gen.Doc(t.Rand, q)
			s := d.Write(gen.DocStyle(t.Rand))
			switch t.Intn(10) {
			case 0:
				s = jsonSoup(t)
			case 1:
			case 2: // two documents, or one and a rest
				s += oneOf(t, "{}", "1", ",", "}", "]", " x", "\x00", "\ufeff", " null", `""`)
			case 3:
				s = oneOf(t, "\ufeff", "x", ",", "]", "\x00", "\v", "\u00a0", "//\n", "1 ") + s
			case 4:
				s = s[:t.Intn(len(s)+1)]
			default:
				s = hostile(t, s)
			}
			check(t, m, s)
			t.Sample(map[string]any{"document": fmt.Sprintf("%q", clip(s)), "valid": ref.ValidJSON(s)})
			t.Distinct(s)
		}
		// and the matcher is as good as before
		d := gen.Doc(t.Rand, q)
		same(t, m, q, d, d.Text())
	})
	// one wrong thing, deep inside or after what the query needs
	c.Run("placed", c.N(6000, 60000), func(t *fw.T) {
		bad := oneOf(t, "tru", "nul", "falsee", "+1", "01", "-", "1.", ".5", "1e", "1e+", "0x1", "NaN", "Infinity", "'a'", `"\x"`, `"\u12"`, `"\u12g4"`, "\"\t\"", "\"\n\"", "\"\x00\"", "[1,]", "[,1]", "[1 2]", `{"a"}`, `{"a":}`, `{"a":1,}`, `{,}`, `{1:2}`, `{"a" 1}`, `{"a":1 "b":2}`, "", "True", "--1", "1-", "[", "{", "]", "}", `"`, "undefined", "/**/1", "1_000", "\\", "[1}", `{"a":1]`)
		good := oneOf(t, "true", "null", "-0", "1E+5", "1.0e-7", `"\u00e9\"\\\/\b\f\n\r\t"`, "[[],{}]", `{"":{}}`, "\"\u2028\x7f\"", "12345678901234567890", `"\ud800"`, "[ ]", "{ }")
		x := bad
		if chance(t, 40) {
			x = good
		}
		wrap := func(x string) string {
			switch t.Intn(4) {
			case 0:
				return `{"a":1,"z":` + x + `}`
			case 1:
				return `[1,` + x + `]`
			case 2:
				return `{"z":` + x + `,"a":1}`
			}
			return x
		}
		for k := t.Intn(4); k > 0; k-- {
			x = wrap(x)
		}
		d := oneOf(t, x, `{"a":1,"b":`+x+`}`, `{"b":`+x+`,"a":1}`, `[{"a":1},`+x+`]`)
		m := matcher(t, oneOf(t, "a:1", "a:exists", "!a:1", "b:null", "a:1 OR zz:1", "zz:exists", "b.a:1 AND a:1"))
		check(t, m, d)
		t.Distinct(d)
	})
	c.Run("short", 1, func(t *fw.T) {
		// all short texts over the characters that matter
		m := matcher(t, "a:1 OR b:exists")
		alphabet := []string{"{", "}", "[", "]", ",", ":", `"`, "1", "-", ".", "0", "e", " ", "a", `\`, "true"}
		var rec func(s string, k int)
		rec = func(s string, k int) {
			check(t, m, s)
			if k == 0 {
				return
			}
			for _, a := range alphabet {
				rec(s+a, k-1)
			}
		}
		rec("", c.N(4, 5))
	})
	c.Require("valid", 10000)
	c.Require("invalid", 20000)
}
