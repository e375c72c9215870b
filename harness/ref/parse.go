package ref

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// SyntaxError says that a query is not in the language.
type SyntaxError struct{ Msg string }

func (e *SyntaxError) Error() string { return e.Msg }

// SemanticError says that a well-formed query uses an operator wrongly. Lo and
// Hi are the offending part of the query in bytes.
type SemanticError struct {
	Msg    string
	Lo, Hi int
}

func (e *SemanticError) Error() string { return e.Msg }

type rp struct {
	s    string
	bad  error // set once a token is malformed: the query is rejected
	memo map[memoKey]memoVal
}

type memoKey struct {
	rule byte
	pos  int
}

type memoVal struct {
	n   *Node
	end int
}

// Parse parses and validates a query.
func Parse(q string) (*Node, error) {
	n, err := ParseOnly(q)
	if err != nil {
		return nil, err
	}
	var sem error
	n.Walk(func(e *Node) {
		if sem == nil && e.Kind == KExpr {
			if se := Validate(e); se != nil {
				sem = se
			}
		}
	})
	if sem != nil {
		return nil, sem
	}
	return n, nil
}

// ParseOnly parses a query without checking the use of operators.
func ParseOnly(q string) (*Node, error) {
	if !utf8.ValidString(q) {
		return nil, &SyntaxError{"not UTF-8"}
	}
	p := &rp{s: q, memo: map[memoKey]memoVal{}}
	n, end := p.or(p.ws(0))
	if n == nil {
		return nil, p.err("no query")
	}
	end = p.ws(end)
	if end != len(q) {
		return nil, p.err(fmt.Sprintf("unexpected input at %d", end))
	}
	if p.bad != nil {
		return nil, p.bad
	}
	return n, nil
}

func (p *rp) err(msg string) error {
	if p.bad != nil {
		return p.bad
	}
	return &SyntaxError{msg}
}

func (p *rp) fail(format string, a ...any) {
	if p.bad == nil {
		p.bad = &SyntaxError{fmt.Sprintf(format, a...)}
	}
}

func (p *rp) at(i int) byte {
	if i < len(p.s) {
		return p.s[i]
	}
	return 0
}

func isWS(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

func (p *rp) ws(i int) int {
	for i < len(p.s) && isWS(p.s[i]) {
		i++
	}
	return i
}

// word matches mandatory space, a keyword and mandatory space.
func (p *rp) word(i int, kw string) (int, bool) {
	j := p.ws(i)
	if j == i || !strings.HasPrefix(p.s[j:], kw) {
		return i, false
	}
	j += len(kw)
	k := p.ws(j)
	return k, k > j
}

func (p *rp) memoize(rule byte, i int, f func() (*Node, int)) (*Node, int) {
	k := memoKey{rule, i}
	if v, ok := p.memo[k]; ok {
		return v.n, v.end
	}
	n, end := f()
	p.memo[k] = memoVal{n, end}
	return n, end
}

func (p *rp) or(i int) (*Node, int) {
	return p.memoize('o', i, func() (*Node, int) {
		l, end := p.and(i)
		if l == nil {
			return nil, i
		}
		if j, ok := p.word(end, "OR"); ok {
			if r, rend := p.or(j); r != nil {
				return Or(l, r), rend
			}
		}
		return l, end
	})
}

func (p *rp) and(i int) (*Node, int) {
	return p.memoize('a', i, func() (*Node, int) {
		l, end := p.not(i)
		if l == nil {
			return nil, i
		}
		if j, ok := p.word(end, "AND"); ok {
			if r, rend := p.and(j); r != nil {
				return And(l, r), rend
			}
		}
		return l, end
	})
}

func (p *rp) not(i int) (*Node, int) {
	return p.memoize('n', i, func() (*Node, int) {
		j := i
		ok := false
		if strings.HasPrefix(p.s[i:], "NOT") {
			j = p.ws(i + 3)
			ok = j > i+3
		} else if p.at(i) == '!' {
			j = p.ws(i + 1)
			ok = true
		}
		if ok {
			if n, end := p.cmp(j); n != nil {
				return Not(n), end
			}
		}
		return p.cmp(i)
	})
}

func (p *rp) cmp(i int) (*Node, int) {
	return p.memoize('c', i, func() (*Node, int) {
		if p.at(i) == '(' {
			n, end := p.or(p.ws(i + 1))
			if n == nil {
				return nil, i
			}
			end = p.ws(end)
			if p.at(end) != ')' {
				return nil, i
			}
			return n, end + 1
		}
		field, end, ok := p.field(i)
		if !ok {
			return nil, i
		}
		j := p.ws(end)
		if p.at(j) != ':' {
			return nil, i
		}
		j = p.ws(j + 1)
		for _, op := range []string{"exists", "null"} {
			if strings.HasPrefix(p.s[j:], op) {
				return &Node{Kind: KExpr, Field: field, Op: op, Lo: i, Hi: j + len(op)}, j + len(op)
			}
		}
		op := "=="
		for _, o := range []string{"><", "~", "<=", "<", ">=", ">"} {
			if strings.HasPrefix(p.s[j:], o) {
				op = o
				j = p.ws(j + len(o))
				break
			}
		}
		vals, end, ok := p.values(j)
		if !ok {
			return nil, i
		}
		return &Node{Kind: KExpr, Field: field, Op: op, Vals: vals, Lo: i, Hi: end}, end
	})
}

// bare is the length of the character at i if it can be part of a bare name. The
// letters of the grammar are taken in any case, which includes the two letters
// outside of ASCII that have one of them as their lower case.
func (p *rp) bare(i int) int {
	if i >= len(p.s) {
		return 0
	}
	switch c := p.s[i]; {
	case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '-':
		return 1
	}
	for _, x := range []string{"\u0130", "\u212a"} {
		if strings.HasPrefix(p.s[i:], x) {
			return len(x)
		}
	}
	return 0
}

func (p *rp) field(i int) (field []string, end int, ok bool) {
	j := i
	for {
		switch c := p.at(j); {
		case c == '"':
			k, s, good := p.quoted(j)
			if !good {
				if len(field) == 0 && j == i {
					return nil, i, false
				}
				goto done
			}
			field = append(field, s)
			j = k
		case p.bare(j) > 0:
			k := j
			for n := p.bare(k); n > 0; n = p.bare(k) {
				k += n
			}
			field = append(field, p.s[j:k])
			j = k
		case c == '*':
			j++
		default:
			if j == i {
				return nil, i, false
			}
			goto done
		}
		end, ok = j, true
		if p.at(j) != '.' {
			goto done
		}
		j++
	}
done:
	if !ok {
		return nil, i, false
	}
	if len(field) == 0 {
		p.fail("field of stars only")
	}
	return field, end, true
}

// quoted matches a string literal; a literal that cannot be decoded makes the
// query malformed.
func (p *rp) quoted(i int) (end int, s string, ok bool) {
	var b strings.Builder
	j := i + 1
	for {
		if j >= len(p.s) {
			return i, "", false
		}
		c := p.s[j]
		switch {
		case c == '"':
			return j + 1, b.String(), true
		case c < 0x20:
			return i, "", false
		case c == '\\':
			switch e := p.at(j + 1); e {
			case '"', '\\':
				b.WriteByte(e)
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'u':
				if j+6 > len(p.s) {
					return i, "", false
				}
				n := 0
				for _, h := range []byte(p.s[j+2 : j+6]) {
					d := strings.IndexByte("0123456789abcdef", h|0x20)
					if d < 0 || h < '0' {
						return i, "", false
					}
					n = n*16 + d
				}
				if n >= 0xd800 && n <= 0xdfff {
					p.fail("surrogate escape")
				}
				b.WriteRune(rune(n))
				j += 4
			default:
				return i, "", false
			}
			j += 2
		default:
			b.WriteByte(c)
			j++
		}
	}
}

func (p *rp) values(i int) (vals []*Val, end int, ok bool) {
	if p.at(i) == '(' {
		v, j, good := p.value(p.ws(i + 1))
		if good {
			vals = append(vals, v)
			for {
				k := p.ws(j)
				if p.at(k) != ',' {
					break
				}
				v, k, good := p.value(p.ws(k + 1))
				if !good {
					break
				}
				vals = append(vals, v)
				j = k
			}
			if k := p.ws(j); p.at(k) == ')' {
				if len(vals) == 1 {
					p.fail("parentheses around one value")
				}
				return vals, k + 1, true
			}
		}
	}
	v, j, good := p.value(i)
	if !good {
		return nil, i, false
	}
	return []*Val{v}, j, true
}

func (p *rp) digits(i, min, max int) (int, bool) {
	j := i
	for j < len(p.s) && j-i < max && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	return j, j-i >= min
}

func (p *rp) value(i int) (*Val, int, bool) {
	if i >= len(p.s) {
		return nil, i, false
	}
	mk := func(v *Val, end int) (*Val, int, bool) {
		v.Lo, v.Hi, v.Text = i, end, p.s[i:end]
		return v, end, true
	}
	if p.s[i] == '"' {
		if end, s, ok := p.quoted(i); ok {
			return mk(&Val{Type: VString, S: s}, end)
		}
	}
	if p.s[i] == '/' {
		j := i + 1
		for j < len(p.s) && p.s[j] != '/' && p.s[j] != '\n' {
			if p.s[j] == '\\' {
				if j+1 >= len(p.s) || p.s[j+1] == '\n' {
					break
				}
				_, w := utf8.DecodeRuneInString(p.s[j+1:])
				j += 1 + w
				continue
			}
			j++
		}
		if p.at(j) == '/' {
			src := p.s[i+1 : j]
			re, err := regexp.Compile(src)
			if err != nil {
				p.fail("regex: %v", err)
				re = nil
			}
			return mk(&Val{Type: VRegex, S: src, Re: re}, j+1)
		}
	}
	if end, ok := p.date(i); ok {
		if j, ok := p.clock(end); ok {
			t, err := time.Parse(time.RFC3339, p.s[i:j])
			if err != nil {
				p.fail("datetime: %v", err)
			}
			return mk(&Val{Type: VTime, T: t}, j)
		}
		t, err := time.Parse("2006-01-02", p.s[i:end])
		if err != nil {
			p.fail("date: %v", err)
		}
		return mk(&Val{Type: VTime, T: t, Day: true}, end)
	}
	if end, ok := p.ip(i); ok {
		v, err := ParseNet(p.s[i:end])
		if err != nil {
			p.fail("network: %v", err)
			v = &Val{Type: VNet}
		}
		return mk(v, end)
	}
	j := i
	if p.at(j) == '-' {
		j++
	}
	if k, ok := p.digits(j, 1, math.MaxInt); ok {
		if p.at(k) == '.' {
			if e, ok := p.digits(k+1, 1, math.MaxInt); ok {
				f, err := strconv.ParseFloat(p.s[i:e], 64)
				if err != nil {
					p.fail("float: %v", err)
				}
				return mk(&Val{Type: VFloat, F: f}, e)
			}
		}
		n, err := strconv.ParseInt(p.s[i:k], 10, 64)
		if err != nil {
			p.fail("integer: %v", err)
		}
		return mk(&Val{Type: VInt, I: n}, k)
	}
	for _, w := range []string{"false", "true"} {
		if strings.HasPrefix(p.s[i:], w) {
			return mk(&Val{Type: VBool, B: w == "true"}, i+len(w))
		}
	}
	if !isWS(p.s[i]) {
		p.fail("unknown type of value at %d", i)
	}
	return nil, i, false
}

func (p *rp) date(i int) (int, bool) {
	j, ok := p.digits(i, 4, 4)
	if !ok || p.at(j) != '-' {
		return i, false
	}
	j, ok = p.digits(j+1, 2, 2)
	if !ok || p.at(j) != '-' {
		return i, false
	}
	return p.digits(j+1, 2, 2)
}

func (p *rp) clock(i int) (int, bool) {
	switch p.at(i) {
	case 'T', 't', ' ':
	default:
		return i, false
	}
	j, ok := p.digits(i+1, 2, 2)
	if !ok || p.at(j) != ':' {
		return i, false
	}
	j, ok = p.digits(j+1, 2, 2)
	if !ok || p.at(j) != ':' {
		return i, false
	}
	j, ok = p.digits(j+1, 2, 2)
	if !ok {
		return i, false
	}
	if p.at(j) == '.' {
		if k, ok := p.digits(j+1, 1, math.MaxInt); ok {
			j = k
		}
	}
	switch p.at(j) {
	case 'Z', 'z':
		return j + 1, true
	case '+', '-':
		j, ok = p.digits(j+1, 2, 2)
		if !ok || p.at(j) != ':' {
			return i, false
		}
		return p.digits(j+1, 2, 2)
	}
	return i, false
}

func (p *rp) ip(i int) (int, bool) {
	j := i
	for n := 0; n < 4; n++ {
		if n > 0 {
			if p.at(j) != '.' {
				return i, false
			}
			j++
		}
		var ok bool
		if j, ok = p.digits(j, 1, 3); !ok {
			return i, false
		}
	}
	if p.at(j) == '/' {
		if k, ok := p.digits(j+1, 1, 2); ok {
			j = k
		}
	}
	return j, true
}

// ParseNet parses a dotted address with an optional prefix length.
func ParseNet(s string) (*Val, error) {
	v := &Val{Type: VNet, Bits: 32, Text: s}
	if i := strings.IndexByte(s, '/'); i >= 0 {
		b := s[i+1:]
		s = s[:i]
		if len(b) > 1 && b[0] == '0' {
			return nil, fmt.Errorf("bad prefix length")
		}
		n := 0
		for _, c := range []byte(b) {
			n = n*10 + int(c-'0')
		}
		if b == "" || n > 32 {
			return nil, fmt.Errorf("bad prefix length")
		}
		v.Bits = n
	}
	for i, o := range strings.Split(s, ".") {
		if len(o) > 1 && o[0] == '0' {
			return nil, fmt.Errorf("octet with leading zero")
		}
		n := 0
		for _, c := range []byte(o) {
			n = n*10 + int(c-'0')
		}
		if n > 255 {
			return nil, fmt.Errorf("octet too large")
		}
		v.Addr[i] = byte(n)
	}
	return v, nil
}

// Validate checks that a condition uses its operator rightly.
func Validate(e *Node) *SemanticError {
	at := func(v *Val, msg string) *SemanticError { return &SemanticError{msg, v.Lo, v.Hi} }
	switch e.Op {
	case "<", "<=", ">", ">=", "><":
		for _, v := range e.Vals {
			if v.Type != VInt && v.Type != VFloat && v.Type != VTime {
				return at(v, "operator needs numbers or times")
			}
		}
	case "~":
		for _, v := range e.Vals {
			if v.Type != VString && v.Type != VRegex && v.Type != VBool {
				return at(v, "operator needs strings")
			}
		}
	}
	switch e.Op {
	case "<", "<=", ">", ">=":
		if len(e.Vals) != 1 {
			return &SemanticError{"operator needs one argument", e.Lo, e.Hi}
		}
	case "><":
		if len(e.Vals) != 2 {
			return &SemanticError{"operator needs two arguments", e.Lo, e.Hi}
		}
	}
	seen := map[string]bool{}
	for _, v := range e.Vals {
		k := v.dupKey()
		if seen[k] {
			return at(v, "duplicate argument")
		}
		if e.Op == "==" && (k == "true" && seen["false"] || k == "false" && seen["true"]) {
			return at(v, "conflicting booleans")
		}
		seen[k] = true
	}
	if e.Op == "><" {
		l, r := e.Vals[0], e.Vals[1]
		if (l.Type == VTime) != (r.Type == VTime) {
			return at(r, "range of mixed kinds")
		}
		if l.Type == VTime && !r.T.After(l.T) || l.Type != VTime && !(r.Number() > l.Number()) {
			return at(r, "empty range")
		}
	}
	return nil
}

// Number is the numeric value of an integer or float.
func (v *Val) Number() float64 {
	if v.Type == VInt {
		return float64(v.I)
	}
	return v.F
}
