package ref

import (
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/araddon/dateparse"
	"golang.org/x/text/language"
	"golang.org/x/text/search"
)

// Stat is the expected count of a node.
type Stat struct {
	Checked, Matched int64
}

// Eval decides whether a query matches a document. With stats, the checks made
// under left-to-right short-circuit evaluation are added to it.
func Eval(n *Node, doc *J, stats map[*Node]*Stat) bool {
	var res bool
	switch n.Kind {
	case KAnd:
		res = Eval(n.L, doc, stats)
		if res {
			res = Eval(n.R, doc, stats)
		}
	case KOr:
		res = Eval(n.L, doc, stats)
		if !res {
			res = Eval(n.R, doc, stats)
		}
	case KNot:
		res = !Eval(n.L, doc, stats)
	case KExpr:
		res = EvalExpr(n, doc)
	}
	if stats != nil {
		s := stats[n]
		if s == nil {
			s = &Stat{}
			stats[n] = s
		}
		s.Checked++
		if res {
			s.Matched++
		}
	}
	return res
}

// Resolve finds the values a path leads to.
func Resolve(path []string, v *J) []*J {
	switch v.Kind {
	case JObj:
		c := v.Get(path[0])
		if c == nil {
			return nil
		}
		if len(path) == 1 {
			return []*J{c}
		}
		return Resolve(path[1:], c)
	case JArr:
		var out []*J
		for _, e := range v.Arr {
			if e.Kind == JObj {
				out = append(out, Resolve(path, e)...)
			}
		}
		return out
	}
	return nil
}

// Scalars lists the scalars to compare: those found, and those in arrays found.
func Scalars(found []*J) []*J {
	var out []*J
	for _, f := range found {
		switch f.Kind {
		case JObj:
		case JArr:
			for _, e := range f.Arr {
				if e.Kind != JObj && e.Kind != JArr {
					out = append(out, e)
				}
			}
		default:
			out = append(out, f)
		}
	}
	return out
}

// EvalExpr decides a single condition.
func EvalExpr(n *Node, doc *J) bool {
	found := Resolve(n.Field, doc)
	if len(found) == 0 {
		return false
	}
	switch n.Op {
	case "exists":
		return true
	case "null":
		for _, f := range found {
			if f.Kind != JNull {
				return false
			}
		}
		return true
	}
	sc := Scalars(found)
	any := func(f func(s *J) bool) bool {
		for _, s := range sc {
			if f(s) {
				return true
			}
		}
		return false
	}
	switch n.Op {
	case "==", "~":
		for _, v := range n.Vals {
			if any(func(s *J) bool { return EqScalar(v, s) }) {
				return true
			}
		}
		return false
	case "><":
		a, b := n.Vals[0], n.Vals[1]
		return any(func(s *J) bool {
			c1, ok1 := compare(s, a)
			c2, ok2 := compare(s, b)
			return ok1 && ok2 && c1 >= 0 && c2 <= 0
		})
	}
	return any(func(s *J) bool {
		c, ok := compare(s, n.Vals[0])
		if !ok {
			return false
		}
		switch n.Op {
		case "<":
			return c < 0
		case "<=":
			return c <= 0
		case ">":
			return c > 0
		case ">=":
			return c >= 0
		}
		panic("op " + n.Op)
	})
}

// compare orders a scalar of the document against a number or a time.
func compare(s *J, v *Val) (int, bool) {
	if v.Type == VTime {
		t, ok := TimeOf(s)
		if !ok {
			return 0, false
		}
		return t.Compare(v.T), true
	}
	f, ok := NumberOf(s)
	if !ok || f != f {
		return 0, false
	}
	w := v.Number()
	switch {
	case f < w:
		return -1, true
	case f > w:
		return 1, true
	}
	return 0, true
}

// NumberOf is the numeric reading of a scalar.
func NumberOf(s *J) (float64, bool) {
	lit := ""
	switch s.Kind {
	case JNum:
		lit = s.Num
	case JStr:
		lit = s.Str
	default:
		return 0, false
	}
	f, err := strconv.ParseFloat(lit, 64)
	return f, err == nil
}

// TextOf is the textual reading of a scalar.
func TextOf(s *J) (string, bool) {
	switch s.Kind {
	case JStr:
		return s.Str, true
	case JNum:
		f, err := strconv.ParseFloat(s.Num, 64)
		if err != nil {
			return "", false
		}
		return strconv.FormatFloat(f, 'f', -1, 64), true
	}
	return "", false
}

// TimeOf is the instant a scalar stands for. The reading of free-form dates is
// the date library's; the timestamp check uses instants known by construction.
func TimeOf(s *J) (time.Time, bool) {
	txt, ok := TextOf(s)
	if !ok {
		return time.Time{}, false
	}
	t, err := dateparse.ParseAny(txt)
	return t, err == nil
}

// EqScalar decides a term against a scalar.
func EqScalar(v *Val, s *J) bool {
	switch v.Type {
	case VInt, VFloat:
		c, ok := compare(s, v)
		return ok && c == 0
	case VBool:
		return s.Kind == JBool && s.Bool == v.B
	case VTime:
		t, ok := TimeOf(s)
		if !ok {
			return false
		}
		if v.Day {
			return !t.Before(v.T) && t.Before(v.T.AddDate(0, 0, 1))
		}
		return t.Equal(v.T)
	}
	txt, ok := TextOf(s)
	if !ok {
		return false
	}
	switch v.Type {
	case VRegex:
		return v.Re.MatchString(txt)
	case VNet:
		return NetMatch(v, txt)
	case VString:
		return StringMatch(v.S, txt)
	}
	panic("type " + string(v.Type))
}

// NetMatch extracts addresses and blocks from text and compares each.
func NetMatch(v *Val, txt string) bool {
	for i := 0; i < len(txt); {
		end, ok := netAt(txt, i)
		if !ok {
			i++
			continue
		}
		if w, err := ParseNet(txt[i:end]); err == nil {
			bits := v.Bits
			if w.Bits < bits {
				bits = w.Bits
			}
			a, b := num(v.Addr), num(w.Addr)
			if bits == 0 || a>>(32-bits) == b>>(32-bits) {
				return true
			}
		}
		i = end
	}
	return false
}

func num(a [4]byte) uint32 {
	return uint32(a[0])<<24 | uint32(a[1])<<16 | uint32(a[2])<<8 | uint32(a[3])
}

// netAt finds an address at i: four groups of one to three digits.
func netAt(s string, i int) (int, bool) {
	p := &rp{s: s}
	j := i
	for n := 0; n < 4; n++ {
		if n > 0 {
			if p.at(j) != '.' {
				return 0, false
			}
			j++
		}
		var ok bool
		if j, ok = p.digits(j, 1, 3); !ok {
			return 0, false
		}
	}
	if p.at(j) == '/' {
		if k, ok := p.digits(j+1, 1, 2); ok {
			j = k
		}
	}
	return j, true
}

// piece of a string term
type piece struct {
	any  bool // any run
	one  bool // any character
	char rune
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func wordChar(r rune) bool {
	return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
}

// StringMatch decides a string term against text.
func StringMatch(term, txt string) bool {
	if !ascii(term) && !strings.ContainsAny(term, "?*") {
		start, _ := search.New(language.Und, search.Loose).CompileString(term).IndexString(txt)
		return start >= 0
	}
	var ps []piece
	rs := []rune(term)
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == '?' || rs[i+1] == '*'):
			i++
			ps = append(ps, piece{char: rs[i]})
		case rs[i] == '?':
			ps = append(ps, piece{one: true})
		case rs[i] == '*':
			ps = append(ps, piece{any: true})
		default:
			ps = append(ps, piece{char: rs[i]})
		}
	}
	// a word at an end of the term has to be a word of its own in the text;
	// only terms in ASCII have words
	edge := func(p piece) bool { return p.any || p.one || wordChar(p.char) }
	lead := ascii(term) && (len(ps) == 0 || edge(ps[0]))
	trail := ascii(term) && (len(ps) == 0 || edge(ps[len(ps)-1]))
	// the pieces run as a set of positions, like an automaton
	ts := []rune(txt)
	cur, next := make([]bool, len(ts)+1), make([]bool, len(ts)+1)
	for start := range cur {
		cur[start] = !lead || boundary(ts, start)
	}
	for _, p := range ps {
		some, run := false, false
		for i := range next {
			next[i] = false
		}
		for i, here := range cur {
			switch {
			case p.any:
				run = run || here
				next[i] = run
				run = run && i < len(ts) && ts[i] != '\n'
			case p.one:
				if here && i < len(ts) && ts[i] != '\n' {
					next[i+1] = true
				}
			default:
				if here && i < len(ts) && sameFold(ts[i], p.char) {
					next[i+1] = true
				}
			}
			some = some || next[i]
		}
		if cur, next = next, cur; !some {
			return false
		}
	}
	for i, here := range cur {
		if here && (!trail || boundary(ts, i)) {
			return true
		}
	}
	return false
}

func boundary(ts []rune, i int) bool {
	before := i > 0 && wordChar(ts[i-1])
	after := i < len(ts) && wordChar(ts[i])
	return before != after
}

func sameFold(a, b rune) bool {
	if a == b {
		return true
	}
	for r := unicode.SimpleFold(a); r != a; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
	}
	return false
}

// MustRe compiles an expression of the generator's own.
func MustRe(s string) *regexp.Regexp { return regexp.MustCompile(s) }
