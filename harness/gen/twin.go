package gen

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"time"
	"unicode"

	"aqlverif/ref"
)

// TwinPath gives a path that is easily taken for the given one.
func TwinPath(r *Rand, p []string) []string {
	q := append([]string(nil), p...)
	i := r.Intn(len(q))
	join := func(sep string) []string {
		if len(q) < 2 {
			return append(q, Pick(r, "", "*", "0", q[0]))
		}
		i := r.Intn(len(q) - 1)
		return append(append(append([]string{}, q[:i]...), q[i]+sep+q[i+1]), q[i+2:]...)
	}
	switch r.Intn(12) {
	case 0, 1:
		return join(".")
	case 2:
		return join(Pick(r, "", "/", "\x00", " ", ":", ",", `"."`, "-", "_", "|", "[]", ".*."))
	case 3, 4: // split
		if k := strings.Index(q[i], "."); k >= 0 {
			return append(append(append([]string{}, q[:i]...), q[i][:k], q[i][k+1:]), q[i+1:]...)
		}
		if n := len([]rune(q[i])); n > 1 {
			rs := []rune(q[i])
			k := 1 + r.Intn(n-1)
			return append(append(append([]string{}, q[:i]...), string(rs[:k]), string(rs[k:])), q[i+1:]...)
		}
		q[i] += "."
	case 5:
		q[i] = swapCase(r, q[i])
	case 6:
		q[i] = Pick(r, q[i]+" ", " "+q[i], q[i]+"\x00", q[i]+q[i], q[i]+"*", q[i]+"1", `"`+q[i]+`"`, q[i]+"\t", "\\"+q[i], q[i]+"́")
	case 7:
		if len(q) > 1 {
			return Pick(r, q[1:], q[:len(q)-1])
		}
		return append(q, q[0])
	case 8:
		return append(q, Pick(r, q[i], "0", "*", "a", ""))
	case 9:
		if len(q) > 1 {
			j := r.Intn(len(q))
			q[i], q[j] = q[j], q[i]
			return q
		}
		return []string{Pick(r, "*", "a", "0"), q[0]}
	case 10: // another ending of the same length
		if rs := []rune(q[i]); len(rs) > 0 {
			rs[len(rs)-1] = Pick(r, 'x', 'z', '0', 'é')
			q[i] = string(rs)
		} else {
			q[i] = "x"
		}
	case 11:
		if rs := []rune(q[i]); len(rs) > 1 {
			rs[r.Intn(len(rs))] = Pick(r, 'x', '_', '-', '.', 'é')
			q[i] = string(rs)
		} else {
			q[i] += "x"
		}
	}
	return q
}

func swapCase(r *Rand, s string) string {
	rs := []rune(s)
	for i, c := range rs {
		switch {
		case unicode.IsUpper(c):
			rs[i] = unicode.ToLower(c)
		case unicode.IsLower(c):
			rs[i] = unicode.ToUpper(c)
		}
		if Chance(r, 30) {
			break
		}
	}
	return string(rs)
}

// TwinVal gives a value that is easily taken for the given one.
func TwinVal(r *Rand, v *ref.Val) *ref.Val {
	switch v.Type {
	case ref.VInt:
		switch r.Intn(6) {
		case 0:
			return StrVal(r, strconv.FormatInt(v.I, 10))
		case 1:
			return FloatVal(r, fmt.Sprintf("%d.%s", v.I, Pick(r, "0", "5", "00", "000001", "4999999")))
		case 2:
			return IntVal(r, -v.I)
		case 3:
			return IntVal(r, v.I+Pick(r, int64(1), -1, 256, 1<<16, 1<<32, 10))
		}
		return IntVal(r, v.I^1)
	case ref.VFloat:
		switch r.Intn(5) {
		case 0:
			return StrVal(r, strings.TrimLeft(v.Text, "0"))
		case 1:
			if v.F > -1e15 && v.F < 1e15 {
				return IntVal(r, int64(v.F))
			}
		case 2:
			return FloatVal(r, v.Text+Pick(r, "1", "5", "0001", "00000000001"))
		case 3:
			if i := strings.IndexByte(v.Text, '.'); i > 0 && i+2 < len(v.Text) {
				return FloatVal(r, v.Text[:i+2])
			}
		}
		if v.Text[0] == '-' {
			return FloatVal(r, v.Text[1:])
		}
		return FloatVal(r, "-"+v.Text)
	case ref.VString:
		switch r.Intn(9) {
		case 0:
			return StrVal(r, swapCase(r, v.S))
		case 1:
			return StrVal(r, v.S+Pick(r, "s", " ", "*", "?", "!", "1", ".", "\n", "́"))
		case 2:
			return StrVal(r, Pick(r, "s", " ", "*", "?", "!", "-", `\`)+v.S)
		case 3:
			if rs := []rune(v.S); len(rs) > 0 {
				rs[len(rs)-1] = Pick(r, 'x', 's', '?', '*', '!', 'é')
				return StrVal(r, string(rs))
			}
		case 4:
			if rs := []rune(v.S); len(rs) > 0 {
				rs[r.Intn(len(rs))] = Pick(r, 'x', '?', '*', '-', ' ', 'é')
				return StrVal(r, string(rs))
			}
		case 5:
			if rs := []rune(v.S); len(rs) > 1 {
				return StrVal(r, string(rs[:1+r.Intn(len(rs)-1)]))
			}
		case 6:
			return StrVal(r, strings.NewReplacer(`\*`, "*", `\?`, "?", "*", `\*`, "?", `\?`).Replace(v.S))
		case 7:
			if src := regexp.QuoteMeta(v.S); usableRegex(src) {
				return RegexVal(r, src)
			}
		case 8:
			return StrVal(r, strings.NewReplacer("*", "?", "?", "*").Replace(v.S))
		}
		return StrVal(r, v.S+"x")
	case ref.VBool:
		return Pick(r, BoolVal(!v.B), StrVal(r, fmt.Sprint(v.B)))
	case ref.VRegex:
		var src string
		switch r.Intn(8) {
		case 0:
			src = "(?i)" + v.S
		case 1:
			src = "^" + v.S
		case 2:
			src = v.S + "$"
		case 3:
			src = swapCase(r, v.S)
		case 4:
			src = v.S + Pick(r, "x", ".", "s?", ".*", " ", "+", "?", "1")
		case 5:
			if n := len(v.S); n > 0 && v.S[n-1] < 0x80 {
				src = v.S[:n-1] + Pick(r, "x", ".", "s", "1")
			}
		case 6:
			if rs := []rune(v.S); len(rs) > 0 {
				rs[r.Intn(len(rs))] = Pick(r, 'x', '.', 'a', '1')
				src = string(rs)
			}
		case 7:
			return StrVal(r, v.S)
		}
		if !usableRegex(src) {
			src = "(?:" + v.S + ")x"
			if !usableRegex(src) {
				src = "x"
			}
		}
		return RegexVal(r, src)
	case ref.VNet:
		a, bits := v.Addr, v.Bits
		switch r.Intn(5) {
		case 0:
			return StrVal(r, v.Text)
		case 1:
			bits = Pick(r, max(0, bits-1), min(32, bits+1), 32, 24, 0)
		case 2:
			a[r.Intn(4)] ^= 1 << uint(r.Intn(8))
		case 3:
			a[0], a[3] = a[3], a[0]
		case 4:
			i := r.Intn(3)
			a[i], a[i+1] = a[i+1], a[i]
		}
		return NetOf(a, bits)
	case ref.VTime:
		t := v.T
		switch r.Intn(6) {
		case 0:
			return StrVal(r, v.Text)
		case 1:
			return TimeVal(r, t, !v.Day)
		case 2:
			return TimeVal(r, t.Add(Pick(r, 1, -1, time.Second, -time.Second, time.Millisecond)), false)
		case 3:
			return TimeVal(r, clampTime(t.AddDate(0, 0, Pick(r, 1, -1))), v.Day)
		case 4:
			return TimeVal(r, clampTime(t.AddDate(Pick(r, 1, -1, 100), 0, 0)), v.Day)
		case 5:
			return TimeVal(r, clampTime(t.Add(time.Duration(Pick(r, 1, -1))*time.Hour)), false)
		}
		return TimeVal(r, t, v.Day)
	}
	panic("type")
}

func clampTime(t time.Time) time.Time {
	if y := t.UTC().Year(); y < 2 || y > 9998 {
		return time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	}
	return t
}

// NetOf makes a network term from its parts.
func NetOf(a [4]byte, bits int) *ref.Val {
	txt := fmt.Sprintf("%d.%d.%d.%d", a[0], a[1], a[2], a[3])
	if bits < 32 {
		txt += fmt.Sprintf("/%d", bits)
	}
	v, err := ref.ParseNet(txt)
	if err != nil {
		panic(err)
	}
	v.Text = txt
	return v
}

// Twin gives a condition that is easily taken for the given one.
func Twin(r *Rand, e *ref.Node) *ref.Node {
	for try := 0; try < 20; try++ {
		n := *e
		n.Vals = append([]*ref.Val(nil), e.Vals...)
		k := r.Intn(10)
		if k < 4 || k == 9 || len(n.Vals) == 0 && k < 7 {
			n.Field = TwinPath(r, e.Field)
		}
		if k >= 4 && len(n.Vals) > 0 {
			i := r.Intn(len(n.Vals))
			if k == 8 {
				n.Op = Pick(r, "<", "<=", ">", ">=", "==", "~")
				if len(n.Vals) == 2 && Chance(r, 50) {
					n.Op = "><"
				}
			} else {
				n.Vals[i] = TwinVal(r, n.Vals[i])
			}
		} else if k >= 7 && len(n.Vals) == 0 {
			n.Op = Pick(r, "exists", "null")
		}
		if ref.Validate(&n) == nil {
			return &n
		}
	}
	return Copy(e)
}

// Family gives up to n different terms of a type that are easily taken for one
// another: most share length, beginning and end.
func Family(r *Rand, t ref.VType, n int) []*ref.Val {
	var out []*ref.Val
	seen := map[string]bool{}
	add := func(v *ref.Val) {
		if v.Type != t || seen[v.Canon()] {
			return
		}
		for _, e := range []*ref.Node{ref.Expr([]string{"a"}, "==", append(append([]*ref.Val{}, out...), v)...)} {
			if ref.Validate(e) != nil {
				return
			}
		}
		seen[v.Canon()] = true
		out = append(out, v)
	}
	length := Pick(r, 1, 2, 3, 5, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300)
	if Chance(r, 30) {
		length = 1 + r.Intn(300)
	}
	base := make([]byte, length)
	w := Common(r)
	for i := range base {
		base[i] = letters[(i*7+int(w[i%len(w)]))%len(letters)]
		if Chance(r, 5) {
			base[i] = ' '
		}
	}
	if base[0] == ' ' {
		base[0] = 'a'
	}
	if base[length-1] == ' ' {
		base[length-1] = 'b'
	}
	at := r.Intn(length)
	if Chance(r, 50) {
		at = Pick(r, 0, length-1, length/2)
	}
	var first *ref.Val
	for try := 0; len(out) < n && try < 20*n; try++ {
		switch t {
		case ref.VString, ref.VRegex:
			b := append([]byte(nil), base...)
			if Chance(r, 20) {
				at = r.Intn(length)
			}
			b[at] = letters[r.Intn(len(letters))]
			if t == ref.VString {
				add(StrVal(r, string(b)))
			} else {
				add(RegexVal(r, string(b)))
			}
		case ref.VBool:
			add(BoolVal(Chance(r, 50)))
		default:
			if first == nil {
				first = Val(r, t)
				add(first)
			}
			v := TwinVal(r, Pick(r, append(out, first)...))
			add(v)
		}
	}
	if len(out) == 0 {
		out = append(out, Val(r, t))
	}
	return out
}

// Kin gives a maker of terms of one narrow kind of a type.
func Kin(r *Rand, t ref.VType) func() *ref.Val {
	switch t {
	case ref.VInt:
		a := Int(r) >> 4
		w := Pick(r, 5, 100, 5000)
		return func() *ref.Val { return IntVal(r, a+int64(r.Intn(w))) }
	case ref.VFloat:
		d := Pick(r, 1, 2, 5, 9)
		a := r.Intn(50)
		return func() *ref.Val { return FloatVal(r, fmt.Sprintf("%d.%s", a+r.Intn(3), digits(r, d))) }
	case ref.VString:
		switch r.Intn(8) {
		case 0:
			return func() *ref.Val { return StrVal(r, Word(r)+Word(r)) }
		case 1:
			return func() *ref.Val { return StrVal(r, Common(r)) }
		case 2, 3: // without wildcards and in ASCII
			return func() *ref.Val {
				if Chance(r, 50) {
					return StrVal(r, Word(r))
				}
				return StrVal(r, strings.NewReplacer("*", "x", "?", "y", `\`, "z").Replace(PunctTerm(r)))
			}
		case 4:
			return func() *ref.Val { return StrVal(r, UniTerm(r)) }
		case 5:
			return func() *ref.Val { return StrVal(r, WildTerm(r)) }
		case 6:
			return func() *ref.Val { return StrVal(r, Word(r)+Pick(r, "*", "?")) }
		}
		return func() *ref.Val { return StrVal(r, Word(r)+" "+Word(r)) }
	case ref.VRegex:
		switch r.Intn(3) {
		case 0:
			return func() *ref.Val { return RegexVal(r, Word(r)) }
		case 1:
			return func() *ref.Val { return RegexVal(r, "^"+Word(r)+"$") }
		}
		return func() *ref.Val { return RegexVal(r, Pick(r, "", "(?i)", "^")+Word(r)+Pick(r, "", ".*", `\d`)) }
	case ref.VNet:
		bits := Pick(r, 32, 32, 24, 16, 30, 8)
		a := Addr(r)
		return func() *ref.Val {
			b := a
			b[3] = byte(r.Intn(256))
			b[2] = byte(r.Intn(256))
			if bits < 20 {
				b[1] = byte(r.Intn(256))
				b[0] = byte(r.Intn(256))
			}
			return NetOf(b, bits)
		}
	case ref.VTime:
		day := Chance(r, 50)
		a := clampTime(Instant(r))
		return func() *ref.Val {
			return TimeVal(r, clampTime(a.Add(time.Duration(r.Intn(4000))*Pick(r, time.Hour, time.Second))), day)
		}
	}
	return func() *ref.Val { return Val(r, t) }
}

// usableRegex says whether a source can be written between slashes.
func usableRegex(src string) bool {
	for i := 0; i < len(src); i++ {
		switch {
		case src[i] == '\\':
			i++
			if i == len(src) {
				return false
			}
		case src[i] == '/' || src[i] < 0x20:
			return false
		}
	}
	_, err := regexp.Compile(strings.ReplaceAll(src, `\/`, "/"))
	if err != nil {
		return false
	}
	_, err = ref.ParseOnly("a:/" + src + "/")
	return err == nil
}

// RegexSample gives a text an expression is likely to match.
func RegexSample(r *Rand, re string) string {
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return StrText(r)
	}
	var b strings.Builder
	sample(r, p, &b, 0)
	return b.String()
}

func sample(r *Rand, p *syntax.Regexp, b *strings.Builder, depth int) {
	if depth > 50 || b.Len() > 2000 {
		return
	}
	rep := func(lo, hi int) {
		n := lo
		if hi < 0 {
			hi = lo + 3
		}
		if hi > lo {
			n += r.Intn(hi - lo + 1)
		}
		for ; n > 0; n-- {
			sample(r, p.Sub[0], b, depth+1)
		}
	}
	switch p.Op {
	case syntax.OpLiteral:
		s := string(p.Rune)
		if p.Flags&syntax.FoldCase != 0 {
			s = recase(r, s)
		}
		b.WriteString(s)
	case syntax.OpCharClass:
		for try := 0; try < 10 && len(p.Rune) > 0; try++ {
			i := 2 * r.Intn(len(p.Rune)/2)
			lo, hi := p.Rune[i], p.Rune[i+1]
			if lo < 0x20 && hi > 0x20 {
				lo = 0x20
			}
			if hi > lo+200 {
				hi = lo + 200
			}
			c := lo + rune(r.Intn(int(hi-lo)+1))
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			b.WriteRune(c)
			break
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteString(Pick(r, "a", "x", "1", " ", "é", "大", "-"))
	case syntax.OpCapture:
		sample(r, p.Sub[0], b, depth+1)
	case syntax.OpStar:
		rep(0, -1)
	case syntax.OpPlus:
		rep(1, -1)
	case syntax.OpQuest:
		rep(0, 1)
	case syntax.OpRepeat:
		rep(p.Min, p.Max)
	case syntax.OpConcat:
		for _, s := range p.Sub {
			sample(r, s, b, depth+1)
		}
	case syntax.OpAlternate:
		sample(r, p.Sub[r.Intn(len(p.Sub))], b, depth+1)
	}
}

var regexParts = []string{"a", "b", "c", "ab", "foo", ".", `\d`, `\w+`, `[a-c]`, `[^a]`, "(a|b)", "(?:foo|bar)", `\/`, `\\`, `\.`, " ", "é", "大", `\s`, `\b`, "x*", "y+", "z?", "1", "-", `"`, "(", ")", "{2}", `\pL`, "cat", "hello", "|", `\d{2,4}`, "[[:alpha:]]", `\x41`, `\W`, "(?i)b", "(?:c)?", "X", "É", ".+?", "a{0}", `\Qa.b\E`, "(?P<n>a)", `\D`, "[^0-9]", `[\w-]`, "_", ",", ":", "=", "&", "<", "#", "'"}

// RegexSrc gives the source of an expression that can be written.
func RegexSrc(r *Rand) string {
	for {
		var b strings.Builder
		if Chance(r, 20) {
			b.WriteString(Pick(r, "^", "(?i)", ".*", "(?s)"))
		}
		for i := Size(r, 5, 20); i > 0; i-- {
			if Chance(r, 8) {
				b.WriteString(regexp.QuoteMeta(Pick(r, Common(r), Dict(r))))
			} else {
				b.WriteString(Pick(r, regexParts...))
			}
		}
		if Chance(r, 20) {
			b.WriteString(Pick(r, "$", ".*"))
		}
		if usableRegex(b.String()) {
			return b.String()
		}
	}
}

// NearRegex gives a text that matches an expression or nearly does.
func NearRegex(r *Rand, re *regexp.Regexp) string {
	s := RegexSample(r, re.String())
	switch r.Intn(10) {
	case 0:
		s = Common(r) + " " + s
	case 1:
		s += Pick(r, "x", " ", "!", "\n", "1")
	case 2:
		s = Pick(r, "x", " ", "!", "\n", "1") + s
	case 3:
		s = swapCase(r, s)
	case 4:
		if rs := []rune(s); len(rs) > 0 {
			i := r.Intn(len(rs))
			s = string(rs[:i]) + string(rs[i+1:])
		}
	case 5:
		if rs := []rune(s); len(rs) > 0 {
			rs[r.Intn(len(rs))] = Pick(r, 'x', ' ', '0', 'é')
			s = string(rs)
		}
	}
	return s
}
