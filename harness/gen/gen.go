// Package gen generates queries and documents. Everything is a function of the
// random source it is given.
package gen

import (
	"fmt"
	"math/rand"
	"slices"
	"strconv"
	"strings"
	"time"

	"aqlverif/ref"
)

// Rand is the source of choices.
type Rand = rand.Rand

// Pick chooses one of the given.
func Pick[T any](r *Rand, v ...T) T { return v[r.Intn(len(v))] }

// Chance is true in pct percent of cases.
func Chance(r *Rand, pct int) bool { return r.Intn(100) < pct }

// Size gives mostly small numbers with a tail up to about max.
func Size(r *Rand, small, max int) int {
	if r.Intn(100) < 4 {
		if n := DictInt(r); n >= 1 && n <= max {
			return n
		}
	}
	switch {
	case r.Intn(100) < 80 || max <= small:
		return 1 + r.Intn(small)
	case r.Intn(100) < 75:
		return 1 + r.Intn(min(max, small*6))
	}
	return 1 + r.Intn(max)
}

var bareNames = []string{"a", "b", "c", "d", "foo", "bar", "Foo", "FOO", "x_1", "x-y", "0", "1", "42", "-", "_", "-1",
	"exists", "null", "NOT", "AND", "OR", "true", "false", "level1", "level2", "level3", "inner", "outer", "T", "Z", "e", "user_id", "camelCase", "1e5"}

var quotedNames = []string{"long key", "a.b", "", "*", "**", "[0]", "[1]", "[", "ключ", "大", "懒虫", `q"uote`, `back\slash`, "tab\tkey", "new\nline",
	"é", "é", "😀", ":", "/", "(", ")", "a b.c", " ", "a ", " a", "!", "?", "\u0000", "\u001f", "\u007f", " ", "�", "a:b", "#", "@timestamp", "$ref", "ß", "K2", "\\u0061", "\\", "\"", "{}", ","}

// Name gives a field name.
func Name(r *Rand) string {
	switch n := r.Intn(100); {
	case n < 55:
		return bareNames[r.Intn(8)]
	case n < 75:
		return Pick(r, bareNames...)
	case n < 95:
		return Pick(r, quotedNames...)
	case n < 97:
		return strings.Repeat(Pick(r, "k", "long", "é", "a b"), 1+r.Intn(60))
	case n < 99:
		return Dict(r)
	}
	return Word(r)
}

// Path gives a field path.
func Path(r *Rand) []string {
	n := Size(r, 3, 12)
	if Chance(r, 1) {
		n = 12 + r.Intn(30)
	}
	p := make([]string, n)
	for i := range p {
		p[i] = Name(r)
	}
	return p
}

// BarePath gives a path of plain names.
func BarePath(r *Rand, n int) []string {
	p := make([]string, n)
	for i := range p {
		p[i] = bareNames[r.Intn(6)]
	}
	return p
}

const letters = "abcdefghijklmnopqrstuvwxyz"

// Word gives a short word.
func Word(r *Rand) string {
	n := 1 + r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[r.Intn(len(letters))]
	}
	return string(b)
}

var words = []string{"hello", "world", "from", "AQL", "food", "pizza", "the", "a", "I", "x", "foot", "cat", "dog", "attack", "Andy", "42", "1", "under_score", "x1", "kelvin", "sister", "here", "true", "null"}

// Common gives a common word.
func Common(r *Rand) string { return Pick(r, words...) }

// WS gives whitespace, at least min characters.
func WS(r *Rand, min int) string {
	n := min
	switch {
	case Chance(r, 30):
		n += r.Intn(3)
	case Chance(r, 2):
		n += r.Intn(40)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = ' '
		if Chance(r, 25) {
			b[i] = " \t\n\r"[r.Intn(4)]
		}
	}
	return string(b)
}

// QuoteAQL writes a string literal of the query language.
func QuoteAQL(r *Rand, s string, esc int) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		short := byte(0)
		switch c {
		case '"', '\\':
			short = byte(c)
		case '\b':
			short = 'b'
		case '\f':
			short = 'f'
		case '\n':
			short = 'n'
		case '\r':
			short = 'r'
		case '\t':
			short = 't'
		}
		force := c < 0x20 || c == '"' || c == '\\'
		want := esc > 0 && Chance(r, esc)
		switch {
		case (!force && !want) || c > 0xffff:
			b.WriteRune(c)
		case short != 0 && r.Intn(3) > 0:
			b.WriteByte('\\')
			b.WriteByte(short)
		default:
			fmt.Fprintf(&b, Pick(r, `\u%04x`, `\u%04X`), c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func bare(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-') {
			return false
		}
	}
	return s != ""
}

// FieldText writes a path, sometimes with the redundant stars.
func FieldText(r *Rand, path []string, stars bool) string {
	var ps []string
	for _, p := range path {
		if stars && Chance(r, 4) {
			ps = append(ps, "*")
		}
		if bare(p) && !Chance(r, 15) {
			ps = append(ps, p)
		} else {
			ps = append(ps, QuoteAQL(r, p, Pick(r, 0, 0, 0, 10, 100)))
		}
	}
	if stars && Chance(r, 4) {
		ps = append(ps, "*")
	}
	return strings.Join(ps, ".")
}

// ---- terms

var intPool = []int64{0, 1, -1, 2, 3, 5, 7, 10, 42, 99, 100, 255, 256, 1000, 2014, 65535, 65536, -42, -100, 1 << 31, 1<<31 - 1, -(1 << 31), 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, -(1 << 63), 1e15, 1e18, 123456789, 1500000000}

// Int gives an integer.
func Int(r *Rand) int64 {
	if Chance(r, 4) {
		return int64(DictInt(r))
	}
	switch r.Intn(4) {
	case 0:
		return Pick(r, intPool...)
	case 1:
		return int64(r.Intn(2000) - 1000)
	case 2:
		return int64(r.Intn(10))
	}
	return r.Int63n(1<<uint(1+r.Intn(62))) * int64(1-2*r.Intn(2))
}

// IntVal makes an integer term.
func IntVal(r *Rand, n int64) *ref.Val {
	txt := strconv.FormatInt(n, 10)
	if Chance(r, 5) {
		if n < 0 {
			txt = "-" + strings.Repeat("0", 1+r.Intn(3)) + txt[1:]
		} else {
			txt = strings.Repeat("0", 1+r.Intn(3)) + txt
		}
	}
	if n == 0 && Chance(r, 5) {
		txt = "-0"
	}
	return &ref.Val{Type: ref.VInt, I: n, Text: txt}
}

var floatPool = []string{"0.0", "1.0", "-1.0", "0.1", "0.2", "0.30000000000000004", "1.5", "2.5", "-2.5", "3.14159", "100.25", "0.5", "99999999999999999999.5", "0.000000000001", "-0.0", "1234567890.123456789", "9007199254740993.0", "4.9", "5.0", "7.0", "42.0"}

// FloatVal makes a float term.
func FloatVal(r *Rand, lit string) *ref.Val {
	f, err := strconv.ParseFloat(lit, 64)
	if err != nil {
		panic(err)
	}
	return &ref.Val{Type: ref.VFloat, F: f, Text: lit}
}

// FloatLit gives the literal of a float term.
func FloatLit(r *Rand) string {
	switch r.Intn(5) {
	case 0, 1:
		return Pick(r, floatPool...)
	case 2:
		return fmt.Sprintf("%d.%d", r.Intn(200)-100, r.Intn(100))
	case 3: // long digits
		return fmt.Sprintf("%d.%s", r.Intn(10), digits(r, 1+r.Intn(40)))
	}
	s := strconv.FormatFloat(r.NormFloat64()*1000, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func digits(r *Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

// StrTerm gives the text of a string term.
func StrTerm(r *Rand) string {
	switch n := r.Intn(100); {
	case n < 30:
		return Common(r)
	case n < 40:
		return Common(r) + " " + Common(r)
	case n < 62:
		return WildTerm(r)
	case n < 72:
		return PunctTerm(r)
	case n < 82:
		return UniTerm(r)
	case n < 86:
		return Sentence(r, 3+r.Intn(30))
	case n < 88:
		return ""
	case n < 90:
		return Pick(r, " ", "  ", ".", "-", "_", "0", "1.5", "-1", "1e5", "\\", "\\\\", "?", "*", "**", "??", "?*", "\\?", "\\*", "\\\\*", "*a", "a*", "?a", "a?", "\\*a", "a\\*", "\t", "a\nb", "a.b", "(a)", "[a]", "^a$", "a|b", "{2}", "+", "$1", "a+b", "\\d", "\\b")
	case n < 92:
		return Pick(r, "01", "1500000000", "2014-01-01", "192.168.1.1", "10.0.0.0/8", "true", "false", "null", "exists")
	case n < 95:
		return Dict(r)
	}
	return Word(r)
}

// WildTerm gives a term with wildcards and escaped wildcards.
func WildTerm(r *Rand) string {
	w := []byte(Common(r))
	var b strings.Builder
	for i := 0; i <= len(w); i++ {
		switch r.Intn(9) {
		case 0:
			b.WriteString("?")
		case 1:
			b.WriteString("*")
		case 2:
			if Chance(r, 40) {
				b.WriteString(Pick(r, `\?`, `\*`))
			}
		}
		if i < len(w) && !Chance(r, 15) {
			b.WriteByte(w[i])
		}
	}
	if Chance(r, 20) {
		b.WriteString(" " + Common(r) + Pick(r, "", "*", "?"))
	}
	return b.String()
}

// PunctTerm gives a term with punctuation in it.
func PunctTerm(r *Rand) string {
	p := func() string {
		return Pick(r, "!", ".", ",", "(", ")", "-", "/", "+", "$", "^", "[", "]", "{", "}", "|", "#", "@", "'", "\"", " ", "&", "<", ">", "=", "%", "~", "`", ";", ":", "\t", "\n", "\\")
	}
	switch r.Intn(6) {
	case 0:
		return p() + Common(r)
	case 1:
		return Common(r) + p()
	case 2:
		return Common(r) + p() + Common(r)
	case 3:
		return p() + Common(r) + p()
	case 4:
		return p() + p()
	}
	return Common(r) + p() + p() + Common(r) + p()
}

// UniTerm gives a term outside of ASCII.
func UniTerm(r *Rand) string {
	s := Pick(r, "大", "懒虫", "大懒虫", "ключ", "Привет", "café", "naïve", "Ünïcode", "日本語", "αβγ", "ΑΒΓ", "🙂", "éa", "ß", "привет мир", "Å", "ñandú", "שלום", "ไทย", "한국어")
	if Chance(r, 25) {
		s += " " + Common(r)
	}
	if Chance(r, 15) {
		s += Pick(r, "*", "?", `\*`)
	}
	return s
}

// Sentence gives n words.
func Sentence(r *Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(Pick(r, " ", " ", " ", ", ", "-", "_", ". ", "/", "  "))
		}
		b.WriteString(Common(r))
	}
	return b.String()
}

// StrVal makes a string term.
func StrVal(r *Rand, s string) *ref.Val {
	return &ref.Val{Type: ref.VString, S: s, Text: QuoteAQL(r, s, Pick(r, 0, 0, 0, 5, 30, 100))}
}

// Regexes with texts that match and texts that do not.
var Regexes = []struct {
	Src     string
	Yes, No []string
}{
	{`hello`, []string{"hello", "say hello!", "xhellox"}, []string{"Hello", "hell", "helo"}},
	{`^hello to \d{2} people$`, []string{"hello to 42 people"}, []string{"hello to 4 people", "hello to 42 people!", "x hello to 42 people"}},
	{`(?i)hello`, []string{"HELLO", "hElLo"}, []string{"hell0"}},
	{`attack of the \d+ foot (?:cat|dog)`, []string{"attack of the 50 foot cat", "attack of the 3 foot dogs"}, []string{"attack of the foot cat"}},
	{`^$`, []string{""}, []string{" ", "a"}},
	{``, []string{"", "x"}, nil},
	{`a\/b`, []string{"a/b"}, []string{"a\\/b", "ab"}},
	{`\/`, []string{"/", "a/b"}, []string{"\\", ""}},
	{`\\`, []string{"\\", "a\\b"}, []string{"/", ""}},
	{`\\\/`, []string{"\\/"}, []string{"\\", "/"}},
	{`^\/usr\/bin\/`, []string{"/usr/bin/", "/usr/bin/x"}, []string{"usr/bin/", "/usr/bin"}},
	{`"`, []string{`"`, `say "x"`}, []string{"'"}},
	{`^\d+$`, []string{"1", "42", "0"}, []string{"a1", "1a", "", "1.5"}},
	{`^-?\d+\.\d+$`, []string{"1.5", "-2.25"}, []string{"1", "1."}},
	{`\bcat\b`, []string{"a cat", "cat"}, []string{"cats", "concat"}},
	{`大.虫`, []string{"大懒虫"}, []string{"大虫"}},
	{`[а-я]+`, []string{"ключ"}, []string{"key"}},
	{`^.{3}$`, []string{"abc", "大懒虫"}, []string{"ab", "abcd"}},
	{`(foo|bar)`, []string{"foo", "bar"}, []string{"fo", "ba"}},
	{`foo|bar`, []string{"foo", "xbar"}, []string{"baz"}},
	{`.*foo`, []string{"foo", "xfoo"}, []string{"fo"}},
	{`foo.*`, []string{"foo", "foox"}, []string{"fo"}},
	{`x.*y.*z`, []string{"xyz", "x1y2z"}, []string{"zyx"}},
	{`.*a.*b.*`, []string{"ab", "xaxbx"}, []string{"ba"}},
	{`(?i)é`, []string{"é", "É"}, []string{"e"}},
	{`\s`, []string{" ", "a b", "\t"}, []string{"ab", ""}},
	{`^\x41B?`, nil, nil}, // not valid: \u is no escape of the engine
	{`\p{Lu}`, []string{"A", "É"}, []string{"a", "1"}},
	{`a{2,3}b`, []string{"aab", "aaab"}, []string{"ab"}},
	{`[/]`, nil, nil}, // ends at the slash: not valid
	{`(?s)a.b`, []string{"a\nb", "axb"}, []string{"ab"}},
	{`(?m)^b$`, []string{"a\nb", "b"}, []string{"ab"}},
	{`a.b`, []string{"axb"}, []string{"a\nb", "ab"}},
	{`^1500000000$`, []string{"1500000000"}, []string{"1.5e9"}},
	{`^100$`, []string{"100"}, []string{"1e2"}},
	{`\.\*\?\+`, []string{".*?+"}, []string{"a"}},
	{`^(?:[a-z0-9]+\.)+[a-z]{2,}$`, []string{"example.com", "a.b.co"}, []string{"example", ".com"}},
}

// RegexVal makes a regex term from a source that is valid.
func RegexVal(r *Rand, src string) *ref.Val {
	return &ref.Val{Type: ref.VRegex, S: src, Re: ref.MustRe(src), Text: "/" + src + "/"}
}

func validRegex(i int) bool { return Regexes[i].Yes != nil }

// RegexIdx picks a usable regex.
func RegexIdx(r *Rand) int {
	for {
		if i := r.Intn(len(Regexes)); validRegex(i) {
			return i
		}
	}
}

// NetVal makes a network term.
func NetVal(r *Rand) *ref.Val {
	a := Addr(r)
	txt := fmt.Sprintf("%d.%d.%d.%d", a[0], a[1], a[2], a[3])
	if Chance(r, 65) {
		txt += fmt.Sprintf("/%d", Pick(r, 0, 1, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 28, 30, 31, 32, r.Intn(33)))
	}
	v, err := ref.ParseNet(txt)
	if err != nil {
		panic(err)
	}
	v.Text = txt
	return v
}

// Addr gives an address, often one of a few.
func Addr(r *Rand) [4]byte {
	switch r.Intn(6) {
	case 0:
		return [4]byte{10, byte(r.Intn(3)), byte(r.Intn(3)), byte(r.Intn(256))}
	case 1:
		return [4]byte{192, 168, byte(r.Intn(3)), byte(r.Intn(256))}
	case 2:
		return [4]byte{127, 0, 0, 1}
	case 3:
		return Pick(r, [4]byte{0, 0, 0, 0}, [4]byte{255, 255, 255, 255}, [4]byte{8, 8, 8, 8}, [4]byte{172, 16, 0, 0}, [4]byte{1, 2, 3, 4}, [4]byte{128, 0, 0, 0}, [4]byte{127, 255, 255, 255})
	}
	return [4]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
}

// Instant gives a moment between years 1 and 9999.
func Instant(r *Rand) time.Time {
	switch r.Intn(10) {
	case 0:
		return Pick(r,
			time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
			time.Date(1969, 12, 31, 23, 59, 59, 999999999, time.UTC),
			time.Date(2000, 2, 29, 12, 0, 0, 0, time.UTC),
			time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC),
			time.Date(2023, 12, 31, 23, 59, 59, 0, time.UTC),
			time.Date(1900, 3, 1, 0, 0, 0, 0, time.UTC),
			time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC),
			time.Date(2262, 4, 12, 0, 0, 0, 0, time.UTC),
			time.Date(1677, 9, 21, 0, 0, 0, 0, time.UTC),
			time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
			time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC),
			time.Date(2100, 2, 28, 23, 59, 59, 0, time.UTC))
	case 1:
		return time.Date(1+r.Intn(9998), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	}
	t := time.Date(1970+r.Intn(80), time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	if Chance(r, 20) {
		t = t.Truncate(24 * time.Hour)
	}
	if Chance(r, 20) {
		t = t.Add(time.Duration(r.Intn(1e9)))
	} else if Chance(r, 15) {
		t = t.Add(time.Duration(r.Intn(1000)) * time.Millisecond)
	}
	return t
}

// Zone gives a fixed offset.
func Zone(r *Rand) *time.Location {
	if Chance(r, 40) {
		return time.UTC
	}
	m := Pick(r, -720, -570, -480, -300, -210, -60, 60, 120, 330, 345, 540, 765, 840, r.Intn(1680)-840)
	return time.FixedZone("", m*60)
}

// TimeVal makes a datetime term.
func TimeVal(r *Rand, t time.Time, day bool) *ref.Val {
	if t.UTC().Year() > 9999 {
		t = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
	}
	if day {
		d := t.UTC()
		d = time.Date(d.Year(), d.Month(), d.Day(), 0, 0, 0, 0, time.UTC)
		return &ref.Val{Type: ref.VTime, T: d, Day: true, Text: d.Format("2006-01-02")}
	}
	layout := time.RFC3339Nano
	if t.Nanosecond() == 0 && Chance(r, 20) {
		layout = Pick(r, "2006-01-02T15:04:05.0Z07:00", "2006-01-02T15:04:05.000Z07:00", "2006-01-02T15:04:05.000000000Z07:00")
	}
	z := Zone(r)
	txt := t.In(z).Format(layout)
	if y := t.In(z).Year(); y < 1 || y > 9999 {
		txt = t.UTC().Format(layout)
	}
	if strings.HasSuffix(txt, "Z") && Chance(r, 15) {
		txt = txt[:len(txt)-1] + Pick(r, "+00:00", "-00:00")
	}
	return &ref.Val{Type: ref.VTime, T: t, Text: txt}
}

// BoolVal makes a boolean term.
func BoolVal(b bool) *ref.Val {
	return &ref.Val{Type: ref.VBool, B: b, Text: fmt.Sprint(b)}
}

// Val makes a term of a type.
func Val(r *Rand, t ref.VType) *ref.Val {
	switch t {
	case ref.VInt:
		return IntVal(r, Int(r))
	case ref.VFloat:
		return FloatVal(r, FloatLit(r))
	case ref.VString:
		return StrVal(r, StrTerm(r))
	case ref.VBool:
		return BoolVal(Chance(r, 50))
	case ref.VRegex:
		if Chance(r, 30) {
			return RegexVal(r, RegexSrc(r))
		}
		return RegexVal(r, Regexes[RegexIdx(r)].Src)
	case ref.VNet:
		return NetVal(r)
	case ref.VTime:
		return TimeVal(r, Instant(r), Chance(r, 50))
	}
	panic("type")
}

// Types lists the types of terms.
var Types = []ref.VType{ref.VInt, ref.VFloat, ref.VString, ref.VBool, ref.VRegex, ref.VNet, ref.VTime}

// Config limits what is generated.
type Config struct {
	Types    []ref.VType // for equality; nil: all
	MaxList  int         // longest list of values
	MaxNodes int         // largest query
	Paths    [][]string  // fields to choose from; nil: any
	NoSim    bool
}

func (c Config) path(r *Rand) []string {
	if c.Paths != nil {
		return c.Paths[r.Intn(len(c.Paths))]
	}
	return Path(r)
}

func (c Config) typ(r *Rand) ref.VType {
	if c.Types != nil {
		return c.Types[r.Intn(len(c.Types))]
	}
	return Types[r.Intn(len(Types))]
}

func (c Config) has(ts ...ref.VType) []ref.VType {
	if c.Types == nil {
		return ts
	}
	var out []ref.VType
	for _, t := range ts {
		for _, u := range c.Types {
			if t == u {
				out = append(out, t)
			}
		}
	}
	return out
}

// Expr makes a valid condition.
func (c Config) Expr(r *Rand) *ref.Node {
	for try := 0; ; try++ {
		e := c.expr(r)
		if ref.Validate(e) == nil {
			return e
		}
		if try > 200 {
			return ref.Expr(c.path(r), "exists")
		}
	}
}

func (c Config) expr(r *Rand) *ref.Node {
	p := c.path(r)
	num := c.has(ref.VInt, ref.VFloat, ref.VTime)
	sim := c.has(ref.VString, ref.VRegex, ref.VBool)
	switch n := r.Intn(100); {
	case n < 6:
		return ref.Expr(p, "exists")
	case n < 12:
		return ref.Expr(p, "null")
	case n < 30 && len(num) > 0:
		return ref.Expr(p, Pick(r, "<", "<=", ">", ">="), Val(r, Pick(r, num...)))
	case n < 40 && len(num) > 0:
		return ref.Expr(p, "><", c.rng(r, Pick(r, num...))...)
	case n < 46 && len(sim) > 0 && !c.NoSim:
		return ref.Expr(p, "~", c.list(r, sim)...)
	case n < 70:
		ts := c.Types
		if ts == nil {
			ts = Types
		}
		return ref.Expr(p, "==", c.list(r, ts)...)
	}
	return ref.Expr(p, "==", Val(r, c.typ(r)))
}

func (c Config) rng(r *Rand, t ref.VType) []*ref.Val {
	switch t {
	case ref.VTime:
		a, b := Instant(r), Instant(r)
		if Chance(r, 50) {
			b = a.Add(time.Duration(1+r.Intn(100000)) * time.Second)
		}
		if b.Before(a) {
			a, b = b, a
		}
		return []*ref.Val{TimeVal(r, a, Chance(r, 40)), TimeVal(r, b, Chance(r, 40))}
	}
	one := func(n int64) *ref.Val {
		if t == ref.VFloat && Chance(r, 70) {
			return FloatVal(r, fmt.Sprintf("%d.%d", n, r.Intn(10)))
		}
		return IntVal(r, n)
	}
	a, b := Int(r), Int(r)
	if Chance(r, 60) {
		a = int64(r.Intn(40) - 20)
		b = a + int64(r.Intn(20))
	}
	if b < a {
		a, b = b, a
	}
	return []*ref.Val{one(a), one(b)}
}

// List makes a list of different terms.
func (c Config) list(r *Rand, types []ref.VType) []*ref.Val {
	maxList := c.MaxList
	if maxList == 0 {
		maxList = 40
	}
	n := Size(r, 4, maxList)
	var out []*ref.Val
	same := Chance(r, 50)
	t := Pick(r, types...)
	var kin func() *ref.Val
	if Chance(r, 35) && t != ref.VBool {
		// a list of one narrow kind, often with something odd in it
		same, kin = true, Kin(r, t)
		if Chance(r, 40) {
			odd := kin
			at := r.Intn(n)
			k := 0
			kin = func() *ref.Val {
				if k++; k-1 == at {
					if Chance(r, 50) {
						return TwinVal(r, odd())
					}
					return Val(r, Pick(r, types...))
				}
				return odd()
			}
		}
	}
	for len(out) < n {
		if !same {
			t = Pick(r, types...)
		}
		if t == ref.VBool && n > 2 && Chance(r, 80) {
			if len(types) == 1 {
				n = 1
			} else {
				t = Pick(r, types...)
			}
		}
		var v *ref.Val
		if kin != nil {
			v = kin()
			if !slices.Contains(types, v.Type) {
				v = Val(r, t)
			}
		} else {
			v = Val(r, t)
		}
		out = append(out, v)
		if ref.Validate(&ref.Node{Kind: ref.KExpr, Op: "==", Vals: out}) != nil {
			out = out[:len(out)-1]
			n--
		}
	}
	if len(out) == 0 {
		out = append(out, Val(r, t))
	}
	return out
}

// Query makes a valid query.
func (c Config) Query(r *Rand) *ref.Node {
	maxNodes := c.MaxNodes
	if maxNodes == 0 {
		maxNodes = 60
	}
	return c.Tree(r, Size(r, 5, maxNodes))
}

// Tree makes a valid query of about the given number of operators. Some of its
// conditions come back, as they are or with their field in another condition.
func (c Config) Tree(r *Rand, size int) *ref.Node {
	g := grower{Config: c}
	return g.tree(r, size)
}

type grower struct {
	Config
	leaves, parts []*ref.Node
}

func (g *grower) leaf(r *Rand) *ref.Node {
	var e *ref.Node
	if n := len(g.leaves); n > 0 {
		switch k := r.Intn(100); {
		case k < 10:
			e = Copy(g.leaves[r.Intn(n)])
		case k < 22:
			c := g.Config
			c.Paths = [][]string{g.leaves[r.Intn(n)].Field}
			e = c.Expr(r)
		case k < 32:
			e = g.twin(r, g.leaves[r.Intn(n)])
		}
	}
	if e == nil {
		e = g.Expr(r)
	}
	g.leaves = append(g.leaves, e)
	return e
}

// twin makes a twin of a condition that keeps to the configuration.
func (g *grower) twin(r *Rand, e *ref.Node) *ref.Node {
	t := Twin(r, e)
	if g.NoSim && t.Op == "~" {
		return nil
	}
	for _, v := range t.Vals {
		if g.Types != nil && !slices.Contains(g.Types, v.Type) {
			return nil
		}
	}
	if g.Paths != nil && !Chance(r, 20) {
		t.Field = e.Field
	}
	return t
}

func (g *grower) tree(r *Rand, size int) *ref.Node {
	if size <= 1 {
		if Chance(r, 15) {
			return ref.Not(g.leaf(r))
		}
		return g.leaf(r)
	}
	if n := len(g.parts); n > 0 && Chance(r, 5) {
		if p := g.parts[r.Intn(n)]; p.Size() <= size+2 {
			return Copy(p)
		}
	}
	var out *ref.Node
	switch n := r.Intn(10); {
	case n < 2:
		out = ref.Not(g.tree(r, size-1))
	default:
		l := 1 + r.Intn(size)
		if Chance(r, 30) {
			l = 1
		}
		a, b := g.tree(r, l), g.tree(r, size-l)
		if n < 6 {
			out = ref.And(a, b)
		} else {
			out = ref.Or(a, b)
		}
	}
	g.parts = append(g.parts, out)
	return out
}

// Copy copies a tree; the terms are shared.
func Copy(n *ref.Node) *ref.Node {
	if n == nil {
		return nil
	}
	c := *n
	c.L, c.R = Copy(n.L), Copy(n.R)
	return &c
}

// TextStyle says how a query is written.
type TextStyle struct {
	Stars  bool
	Parens int // chance in percent of redundant parentheses
	Plain  bool
}

// Text writes a query.
func Text(r *Rand, n *ref.Node, s TextStyle) string {
	ws := func(min int) string {
		if s.Plain {
			return strings.Repeat(" ", min)
		}
		return WS(r, min)
	}
	return ws(0) + text(r, n, s, 0) + ws(0)
}

// prec: 0 or-level, 1 and-level, 2 not-operand or left operand of AND
func text(r *Rand, n *ref.Node, s TextStyle, prec int) string {
	ws := func(min int) string {
		if s.Plain {
			return strings.Repeat(" ", min)
		}
		return WS(r, min)
	}
	var out string
	need := false
	switch n.Kind {
	case ref.KOr:
		out = text(r, n.L, s, 1) + ws(1) + "OR" + ws(1) + text(r, n.R, s, 0)
		need = prec > 0
	case ref.KAnd:
		out = text(r, n.L, s, 2) + ws(1) + "AND" + ws(1) + text(r, n.R, s, 1)
		need = prec > 1
	case ref.KNot:
		op := "NOT" + ws(1)
		if Chance(r, 50) {
			op = "!" + ws(0)
		}
		out = op + text(r, n.L, s, 3)
		need = prec > 2
	case ref.KExpr:
		out = ExprText(r, n, s)
	}
	if need {
		out = "(" + ws(0) + out + ws(0) + ")"
	}
	for i := 0; i < 2 && Chance(r, s.Parens); i++ {
		out = "(" + ws(0) + out + ws(0) + ")"
	}
	return out
}

// ExprText writes a condition.
func ExprText(r *Rand, n *ref.Node, s TextStyle) string {
	ws := func() string {
		if s.Plain {
			return ""
		}
		return WS(r, 0)
	}
	out := FieldText(r, n.Field, s.Stars) + ws() + ":" + ws()
	switch n.Op {
	case "exists", "null":
		return out + n.Op
	case "==":
	default:
		out += n.Op + ws()
	}
	if len(n.Vals) == 1 {
		return out + n.Vals[0].Text
	}
	out += "(" + ws()
	for i, v := range n.Vals {
		if i > 0 {
			out += ws() + "," + ws()
		}
		out += v.Text
	}
	return out + ws() + ")"
}
