package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"aqlverif/fw"
	"aqlverif/gen"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/fmtmsg"
	"github.com/flowchartsman/aql/sampler"
)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C36",
		Rule: "queries with documents given to processes that differ in time zone, language, directory, processors, garbage collection, order and repetition of the calls, and debugging output; everything that can be observed is compared; non-trivial: a distinct query with its documents",
		Run:  runSameEverywhere,
	})
	fw.Register(&fw.Prop{
		ID:    "C38",
		Level: "translation_validation",
		Rule:  "queries given to the library as it is and to a copy whose parser was generated anew from the grammar; trees, positions and errors are compared; non-trivial: a distinct query",
		Run:   runRegenerated,
		Assumptions: []string{
			"the generator is the version the module requires, found in the module cache",
		},
	})
}

// probeIn is a query and documents for it.
type probeIn struct {
	Query []byte
	Docs  [][]byte
}

// observe gives everything a client can see of a query and its documents.
func observe(in probeIn, debug, matching bool) string {
	var b strings.Builder
	q := string(in.Query)
	var opts []parser.Option
	if debug {
		opts = append(opts, parser.Debug())
	}
	n, err := parser.ParseQuery(q, opts...)
	if err != nil {
		fmt.Fprintf(&b, "error %T %q", err, err.Error())
		var pe *parser.ParseError
		if errors.As(err, &pe) {
			fmt.Fprintf(&b, " %+v %q %q\n%s", pe.Pos(), pe.Message(), pe.Expected, fmtmsg.NewTerminalFormatter(40).WithQuery(q).Sprint(pe))
		}
	} else {
		fmt.Fprintf(&b, "tree %s\n%s", treeForm2(n), n.String())
	}
	if !matching {
		return b.String()
	}
	m, err := jsonmatcher.NewMatcher(q)
	if err != nil {
		fmt.Fprintf(&b, "\nmatcher error %q", err.Error())
	} else {
		fmt.Fprintf(&b, "\nmatcher of %q", m.Query())
		for _, x := range m.Messages() {
			fmt.Fprintf(&b, "\nmessage %q %+v", x.String(), x.Pos())
		}
		for _, d := range in.Docs {
			ok, err := m.Match(d)
			fmt.Fprintf(&b, "\nmatch %v %v", ok, err)
		}
		st, _ := json.Marshal(m.Stats())
		fmt.Fprintf(&b, "\nstatistics %s", st)
	}
	s := sampler.New(5)
	for _, d := range in.Docs {
		fmt.Fprintf(&b, "\nsample %v", s.Sample(d))
	}
	for _, keys := range [][]string{s.Keys(), s.KeysAtThreshold(50)} {
		sort.Strings(keys)
		fmt.Fprintf(&b, "\nkeys %q", keys)
	}
	fmt.Fprintf(&b, " of %d", s.Scanned())
	return b.String()
}

// Probe is the process that observes: it reads inputs and writes what it sees of
// each. The arguments are words: reversed, twice, parallel, debug, parse.
func Probe(inFile, outFile string, how []string) {
	if inFile == "clock" {
		fmt.Print(time.Now().Unix())
		return
	}
	if inFile == "count" {
		each, err := strconv.Atoi(outFile)
		if err != nil {
			panic(err)
		}
		probeCount(each)
		return
	}
	is := map[string]bool{}
	for _, h := range how {
		is[h] = true
	}
	f, err := os.Open(inFile)
	if err != nil {
		panic(err)
	}
	var ins []probeIn
	dec := json.NewDecoder(bufio.NewReader(f))
	for dec.More() {
		var in probeIn
		if err := dec.Decode(&in); err != nil {
			panic(err)
		}
		ins = append(ins, in)
	}
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	outs := make([]string, len(ins))
	one := func(i int) { outs[i] = observe(ins[i], is["debug"], !is["parse"]) }
	passes := 1
	if is["twice"] {
		passes = 2
	}
	for ; passes > 0; passes-- {
		switch {
		case is["parallel"]:
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := g; i < len(ins); i += 4 {
						one(i)
					}
				}()
			}
			wg.Wait()
		case is["reversed"]:
			for i := len(ins) - 1; i >= 0; i-- {
				one(i)
			}
		default:
			for i := range ins {
				one(i)
			}
		}
	}
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	for _, o := range outs {
		enc.Encode([]byte(o))
	}
	if err := os.WriteFile(outFile, b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}

// runProbe runs a process that observes the inputs of a file.
func runProbe(t *fw.T, prog, dir, cwd, inFile string, n int, env []string, how ...string) []string {
	outFile := filepath.Join(dir, "out")
	os.Remove(outFile)
	o := fw.ProcessEnv(t.C, cwd, append([]string{"VERIF_PROBE=1"}, env...), prog, append([]string{inFile, outFile}, how...)...)
	b, err := os.ReadFile(outFile)
	if err != nil {
		if strings.Contains(o.Stderr, "flowchartsman/aql") {
			t.Failf("the process with %q %q ended: %s", env, how, clip(o.Stderr))
		}
		t.C.Fatalf("the process with %q %q failed: status %d %s", env, how, o.Code, clip(o.Stderr))
	}
	var outs []string
	dec := json.NewDecoder(bytes.NewReader(b))
	for dec.More() {
		var o []byte
		if err := dec.Decode(&o); err != nil {
			t.C.Fatalf("%v", err)
		}
		outs = append(outs, string(o))
	}
	if len(outs) != n {
		t.C.Fatalf("%d observations of %d inputs", len(outs), n)
	}
	return outs
}

func writeIns(t *fw.T, dir string, ins []probeIn) string {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	for _, in := range ins {
		enc.Encode(in)
	}
	f := filepath.Join(dir, "in")
	fw.Write(t.C, f, b.String())
	return f
}

// differ shows the first lines that differ.
func differ(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			rest := ""
			if i < len(y) {
				rest = y[i]
			}
			return fmt.Sprintf("%s\n  and\n    %s", clip(x[i]), clip(rest))
		}
	}
	return "nothing more\n  and\n    " + clip(y[len(x)])
}

// otherLetters is a query for text that languages compare differently, with
// documents that have it in several spellings.
func otherLetters(t *fw.T) probeIn {
	groups := [][]string{
		{"ö", "o", "ø", "o\u0308", "oe", "Ö", "ő"}, {"ä", "a", "æ", "ae", "a\u0308", "Ä", "ạ", "ă", "â"}, {"å", "a", "aa", "Å", "a\u030a", "\u212b"},
		{"ü", "u", "y", "ue", "Ü", "ű", "ư"}, {"ñ", "n", "n\u0303", "Ñ", "ŋ"}, {"ı", "i", "I", "İ", "i\u0307", "í"}, {"ß", "ss", "ẞ", "SS", "s"},
		{"ç", "c", "č", "ć", "c\u030c", "ch", "C"}, {"ł", "l", "ll", "ĺ", "ľ", "L"}, {"š", "s", "ş", "ș", "z", "ž"}, {"đ", "d", "ð", "dž", "ǆ", "dz"},
		{"w", "v", "W", "V"}, {"þ", "th", "Þ"}, {"ě", "e", "é", "ê", "è", "ę", "ё", "е"}, {"й", "и", "и\u0306"}, {"ґ", "г", "ѓ"},
		{"あ", "ア", "ｱ", "ぁ"}, {"は", "ば", "バ"}, {"가", "ᄀ\u1161"}, {"ﬀ", "ff"}, {"①", "1"}, {"ی", "ي", "ى"}, {"ک", "ك"}, {"ο", "ό", "ω"}, {"ς", "σ", "Σ"}, {"th", "t", "ng", "n"},
	}
	g := groups[t.Intn(len(groups))]
	pre, post := oneOf(t, "", "h", "k", "x ", "É "), oneOf(t, "", "k", "r", " y", "n")
	quote := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	pick := func() string {
		x := g[t.Intn(len(g))]
		if chance(t, 10) {
			o := groups[t.Intn(len(groups))]
			x += o[t.Intn(len(o))]
		}
		return pre + x + post
	}
	q := "a:"
	switch t.Intn(8) {
	case 0:
		q += oneOf(t, "<", "<=", ">", ">=") + quote(pick())
	case 1:
		q += "><(" + quote(pick()) + "," + quote(pick()+"z") + ")"
	case 2:
		q += "~" + quote(pick())
	case 3:
		q += "(" + quote(pick()) + "," + quote(pick()) + ")"
	case 4:
		q += "/(?i)" + pick() + "/"
	case 5:
		q = quote(pick()) + ":exists"
	default:
		q += quote(pick())
	}
	in := probeIn{Query: []byte(q)}
	for _, x := range g {
		s := oneOf(t, "", "", "the ", "(") + pre + x + post + oneOf(t, "", "", " end", "!")
		doc := `{"a":` + quote(s) + `}`
		if chance(t, 20) {
			doc = `{` + quote(s) + `:1,"a":[` + quote(pick()) + `]}`
		}
		in.Docs = append(in.Docs, []byte(doc))
	}
	return in
}

// loose are comparisons with dates and times that lack something, which another
// reader could take from the clock.
func loose(t *fw.T) probeIn {
	day := func() string {
		return fmt.Sprintf("%04d-%02d-%02d", gen.Pick(t.Rand, 1, 1900, 1969, 1970, 1999, 2000, 2020, 2024, 2025, 2026, 2027, 2038, 9999), 1+t.Intn(12), 1+t.Intn(28))
	}
	in := probeIn{Query: []byte(oneOf(t, "a:<", "a:<=", "a:>", "a:>=", "a:", "NOT a:<") + oneOf(t, day(), day()+"T12:00:00Z"))}
	if chance(t, 20) {
		in.Query = []byte("a:><(" + "0001-01-01," + day() + ")")
	}
	for k := 0; k < 6; k++ {
		s := oneOf(t, "12:30", "3:04pm", "Jan 2", "2 Jan", "May 8", "Monday", "Mon Jan 2", "01/02", "1/2", "02.01.", "now", "today", "yesterday", "tomorrow", "10:11:12", "23:59:59.999", "Jan 2 15:04:05", "01/02/70", "01/02/99", "1/2/06", "06-01-02", "70", "99", "2024", "202401", "20240102", "2024-01", "2024-W01", "1", "-1", "1d", "5 minutes ago", "oct 7", "oct. 7 '70", "7 oct 69", "MON", "T12:00", "12:00Z", "2020-01-01T00:00", "Sat, 14 Mar 15:04:05 GMT", "--01-02", "0", day(), day()+" 12:00", strings.ReplaceAll(day(), "-", "/"))
		in.Docs = append(in.Docs, []byte(`{"a":`+strconv.Quote(s)+`}`))
	}
	return in
}

// local are comparisons with numbers as they are written in some places.
func local(t *fw.T) probeIn {
	in := probeIn{Query: []byte(oneOf(t, "a:<", "a:<=", "a:>", "a:>=", "a:", "NOT a:<") + oneOf(t, "1", "1.5", "0", "-1", "1234", "1234.5", "12", "1000000"))}
	for k := 0; k < 6; k++ {
		s := oneOf(t, "1,5", "1.234,5", "1,234.5", "1.234", "1 234", "1\u00a0234,5", "1\u202f234", "1'234.5", "1\u2019234", "-1,5", "\u22121", "1-", "12,34,567", "\u0661\u0662", "\u06f1\u06f2", "\uff11\uff12", "\u0967\u0968", "1\u066b5", "1234", "1.5", "0,0", ",5", "1,", "1\u00b75", "USD 12", "12 \u20ac", "12%", "1e3", "1E+3", "0x1p4", "1_000")
		in.Docs = append(in.Docs, []byte(`{"a":`+strconv.Quote(s)+`}`))
	}
	return in
}

func runSameEverywhere(c *fw.Ctx) {
	self, err := os.Executable()
	if err != nil {
		c.Fatalf("%v", err)
	}
	type world struct {
		env []string
		how []string
		// the clock is set to some other time
		clock bool
	}
	setClock := filepath.Join(os.Getenv("VERIF_BUILD"), "probe-clock")
	if _, err := os.Stat(setClock); err != nil {
		c.Fatalf("%v", err)
	}
	out := fw.ProcessEnv(c, "", []string{"VERIF_PROBE=1", "VERIF_CLOCK=-1000000000"}, setClock, "clock", "")
	if then, err := strconv.ParseInt(out.Stdout, 10, 64); err != nil || time.Now().Unix()-then < 900000000 {
		c.Fatalf("the clock cannot be set: %q %q", out.Stdout, out.Stderr)
	}
	worlds := []world{
		{[]string{"TZ=America/St_Johns", "LANG=de_DE.UTF-8", "LC_ALL=de_DE.UTF-8"}, nil, false},
		{[]string{"TZ=Pacific/Kiritimati", "GOMAXPROCS=1"}, []string{"reversed"}, true},
		{[]string{"TZ=UTC", "LC_ALL=C", "GOGC=1"}, []string{"twice"}, false},
		{[]string{"TZ=Asia/Kathmandu", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "GOMAXPROCS=8"}, []string{"parallel"}, true},
		{[]string{"TZ=nowhere", "GOGC=off", "TMPDIR=/nonexistent", "USER=x"}, []string{"parallel", "twice"}, false},
		{[]string{"TZ="}, []string{"debug"}, false},
		{[]string{"TZ=Europe/Berlin"}, nil, true},
	}
	languages := []string{"de_DE", "fr_FR", "sv_SE", "da_DK", "nb_NO", "fi_FI", "hu_HU", "es_ES@traditional", "cs_CZ", "pl_PL", "lt_LT", "et_EE", "tr_TR", "az_AZ", "de_AT@phonebook", "fr_CA", "ja_JP", "zh_TW", "ko_KR", "ar_EG", "he_IL", "fa_IR", "hi_IN", "th_TH", "C", "POSIX", "en_US", "is_IS", "cy_GB", "hr_HR", "ro_RO", "vi_VN", "xx", "", "de_CH.ISO-8859-1", "ja_JP.EUC-JP"}
	c.Run("processes", c.N(40, 400), func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		var ins []probeIn
		for i := 0; i < 60; i++ {
			cfg := gen.Config{MaxNodes: gen.Pick(t.Rand, 1, 4, 12), MaxList: 5}
			if chance(t, 25) {
				cfg.Types = gen.Pick(t.Rand, gen.Types[len(gen.Types)-1:], gen.Types)
			}
			q := cfg.Query(t.Rand)
			text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: 20})
			switch t.Intn(8) {
			case 0, 1:
				text = mutate(t, text)
			case 2:
				text = faulty(t)
			}
			in := probeIn{Query: []byte(text)}
			for k := 1 + t.Intn(5); k > 0; k-- {
				doc := gen.Doc(t.Rand, q).Write(gen.DocStyle(t.Rand))
				if chance(t, 8) {
					doc = hostile(t, doc)
				}
				in.Docs = append(in.Docs, []byte(doc))
			}
			if chance(t, 15) {
				in = otherLetters(t)
				t.Count("other_letters")
			}
			if chance(t, 10) {
				in = loose(t)
				t.Count("incomplete_dates")
			}
			if chance(t, 8) {
				in = local(t)
				t.Count("local_numbers")
			}
			if i > 0 && chance(t, 10) {
				in = ins[t.Intn(i)]
			}
			ins = append(ins, in)
		}
		here := make([]string, len(ins))
		for i, in := range ins {
			t.ClearNotes()
			t.Note("query: %q", clip(string(in.Query)))
			t.Call("observing", func() { here[i] = observe(in, false, true) })
		}
		file := writeIns(t, dir, ins)
		cwd := filepath.Join(dir, "deep", "дир")
		if err := os.MkdirAll(cwd, 0o755); err != nil {
			c.Fatalf("%v", err)
		}
		for _, w := range worlds {
			t.ClearNotes()
			env := append([]string{}, w.env...)
			for _, k := range []string{"LANG", "LC_ALL", "LC_COLLATE", "LC_CTYPE", "LC_TIME", "LC_NUMERIC", "LANGUAGE", "LC_MESSAGES"} {
				if chance(t, 60) {
					l := languages[t.Intn(len(languages))]
					if l != "" && !strings.ContainsAny(l, ".@") && len(l) > 2 && chance(t, 70) {
						l += ".UTF-8"
					}
					env = append(env, k+"="+l)
				}
			}
			// whatever the source calls by a name that a variable could have
			for _, k := range gen.Variables() {
				if chance(t, 50) {
					env = append(env, k+"="+oneOf(t, "1", "true", "0", "", "yes", "debug", "de", "UTC", "-1", "strict", "/tmp"))
					t.Count("variables_set")
				}
			}
			prog := self
			if w.clock {
				// seconds of minutes, hours of days, and years
				prog = setClock
				shift := t.Int63n(400*365*86400) - 100*365*86400
				if chance(t, 50) {
					shift = t.Int63n(2*366*86400) - 366*86400
				}
				env = append(env, fmt.Sprintf("VERIF_CLOCK=%d", shift))
				t.Count("clock_set")
			}
			// by another name and with other arguments
			how := append([]string{}, w.how...)
			if chance(t, 70) {
				word := func() string {
					if chance(t, 70) {
						return strings.NewReplacer("/", "", "\x00", "").Replace(gen.Dict(t.Rand))
					}
					return oneOf(t, "debug", "test", "v", "verbose", "aql", "strict", "go", "exe", "x")
				}
				name := oneOf(t, "aqltest", "aqlgraph", "server", "main", "a", "") + oneOf(t, "-", ".", "_", "") + word()
				bin, err := os.MkdirTemp(dir, "bin")
				if err != nil {
					c.Fatalf("%v", err)
				}
				link := filepath.Join(bin, name+oneOf(t, "", "", ".test", ".exe", "-debug", "x"))
				if err := os.Symlink(prog, link); err == nil {
					prog = link
					t.Count("named_otherwise")
				}
				for k := t.Intn(3); k > 0; k-- {
					how = append(how, oneOf(t, "-", "--", "-test.", "/")+word())
				}
			}
			t.Note("environment: %q", env)
			t.Note("program: %q %q", filepath.Base(prog), how)
			outs := runProbe(t, prog, dir, cwd, file, len(ins), env, how...)
			for i, in := range ins {
				t.Eval()
				if outs[i] != here[i] {
					t.Note("query: %q", clip(string(in.Query)))
					for _, d := range in.Docs {
						t.Note("document: %s", clip(string(d)))
					}
					t.Failf("a process with %q %q saw\n    %s", w.env, w.how, differ(outs[i], here[i]))
				}
				t.Count("compared")
			}
			t.Count("world " + strings.Join(append(w.env[:1:1], w.how...), " "))
		}
		for i, in := range ins {
			t.Distinct(string(in.Query) + "\x00" + string(bytes.Join(in.Docs, []byte{0})))
			if strings.HasPrefix(here[i], "error") {
				t.Count("rejected")
			} else {
				t.Count("accepted")
			}
			if strings.Contains(here[i], "match true") {
				t.Count("matching")
			}
		}
		if left, _ := os.ReadDir(cwd); len(left) > 0 {
			t.Failf("the processes left %v in their directory", left)
		}
		t.Sample(map[string]any{"query": clip(string(ins[0].Query)), "seen": clip(here[0])})
	})
	c.Require("named_otherwise", 100)
	c.Run("again", c.N(3000, 30000), func(t *fw.T) {
		// in one process, over and over
		q := gen.Config{MaxNodes: 6, MaxList: 5}.Query(t.Rand)
		text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: 20})
		switch t.Intn(10) {
		case 0, 1:
			text = mutate(t, text)
		case 2, 3, 4:
			text = faulty(t)
		}
		in := probeIn{Query: []byte(text), Docs: [][]byte{[]byte(gen.Doc(t.Rand, q).Text()), []byte(gen.Doc(t.Rand, q).Text())}}
		t.Note("query: %q", clip(text))
		var first, next string
		t.Call("observing", func() { first = observe(in, false, true) })
		for i := 0; i < 5; i++ {
			t.Call("observing", func() { next = observe(in, i == 4, true) })
			t.Eval()
			if next != first {
				t.Failf("the next time gave\n    %s", differ(next, first))
			}
		}
		t.Count("again")
		t.Distinct("again" + text)
	})
	c.Require("compared", 5000)
	c.Require("clock_set", 100)
	c.Require("incomplete_dates", 100)
	c.Require("local_numbers", 100)
	c.Require("variables_set", 100)
	c.Require("accepted", 500)
	c.Require("rejected", 200)
	c.Require("matching", 300)
	c.Require("again", 1000)
}

func runRegenerated(c *fw.Ctx) {
	if b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_BUILD"), "regen.err")); err == nil {
		c.Run("generator", 1, func(t *fw.T) {
			t.Eval()
			t.Failf("no parser can be generated from the grammar: %s", clip(string(b)))
		})
		return
	}
	prog := fw.Built(c, "probe-regen")
	batch := func(section string, n, size int, mk func(t *fw.T) string) {
		c.Run(section, n, func(t *fw.T) {
			dir, done := fw.CaseDir(t)
			defer done()
			var ins []probeIn
			for i := 0; i < size; i++ {
				ins = append(ins, probeIn{Query: []byte(mk(t))})
			}
			outs := runProbe(t, prog, dir, dir, writeIns(t, dir, ins), len(ins), nil, "parse")
			for i, in := range ins {
				var here string
				t.ClearNotes()
				t.Note("query: %q", clip(string(in.Query)))
				t.Call("observing", func() { here = observe(in, false, false) })
				t.Eval()
				if here != outs[i] {
					t.Failf("the generated parser and the one of the library say\n    %s", differ(outs[i], here))
				}
				if strings.HasPrefix(here, "error") {
					t.Count("rejected")
				} else {
					t.Count("accepted")
				}
				t.Distinct(string(in.Query))
			}
			t.Count("batch " + section)
			t.Sample(map[string]any{"query": clip(string(ins[0].Query)), "both": clip(outs[0])})
		})
	}
	batch("written", c.N(16, 160), 500, func(t *fw.T) string {
		return gen.Text(t.Rand, gen.Config{MaxNodes: 40}.Query(t.Rand), gen.TextStyle{Stars: true, Parens: gen.Pick(t.Rand, 0, 10, 40)})
	})
	batch("mutated", c.N(16, 160), 1000, func(t *fw.T) string {
		return mutate(t, gen.Text(t.Rand, gen.Config{MaxNodes: 6, MaxList: 5}.Query(t.Rand), gen.TextStyle{Stars: true, Parens: 20}))
	})
	batch("soup", c.N(16, 160), 1000, soup)
	batch("faulty", c.N(8, 80), 1000, faulty)
	batch("broken", c.N(8, 80), 500, func(t *fw.T) string {
		return hostile(t, gen.Text(t.Rand, gen.Config{MaxNodes: 6, MaxList: 5}.Query(t.Rand), gen.TextStyle{}))
	})
	lits := literals()
	batch("literals", c.N(16, 160), 500, func(t *fw.T) string {
		l := lits[t.Intn(len(lits))]
		return gen.Pick(t.Rand, "a:"+l, "a:"+l+" ", "a: ("+l+",7)", "a:(7 , "+l+" )", "a:"+l+" AND b:1", "(a:"+l+")", "a:<"+l, "a:~"+l, "a:><("+l+",9223372036854775807)", l+":1", "a."+l+":exists")
	})
	// characters of all kinds at all places
	batch("characters", c.N(13, 200), 1000, func(t *fw.T) string {
		r := rune(t.Intn(0x3100))
		if chance(t, 20) {
			r = rune(t.Intn(0x110000))
		}
		s := string(r)
		return oneOf(t, "a"+s+":1", s+"a:1", "a:"+s+"1", "a:1"+s, "a:1 AND"+s+"b:2", "a:1"+s+"AND b:2", "a:(1"+s+"2)", "NOT"+s+"a:1", s+"(a:1)", `a:"`+s+`"`, `"`+s+`":1`, `a:/`+s+`/`, `a:"\`+s+`"`, `a:/\`+s+`/`)
	})
	batch("long", c.N(2, 10), 10, func(t *fw.T) string { return longQuery(t, 1+around(t, 20000)) })
	c.Require("accepted", 5000)
	c.Require("rejected", 5000)
}
