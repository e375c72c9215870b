package gen

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"aqlverif/ref"
)

var numPool = []string{"0", "-0", "1", "-1", "2", "3", "5", "7", "10", "42", "99", "100", "1e2", "1E2", "1e+2", "1.0", "1.50", "0.1", "0.30000000000000004", "2.5", "-2.5", "1e-3", "1e308", "1e309", "-1e400", "1e-400", "5e-324",
	"9007199254740992", "9007199254740993", "9007199254740994", "9223372036854775807", "9223372036854775808", "18446744073709551616", "123456789012345678901234567890", "1500000000", "1500000000.5", "1.5e9", "1500000000000", "2014", "20140722", "65536", "255", "0.000000000001", "4.9", "5.0", "7.0"}

// NumLit gives a number literal.
func NumLit(r *Rand) string {
	switch r.Intn(5) {
	case 0, 1:
		return Pick(r, numPool...)
	case 2:
		return strconv.FormatInt(Int(r), 10)
	case 3:
		return fmt.Sprint(r.Intn(10))
	}
	f := math.Round(r.NormFloat64()*1000) / Pick(r, 1.0, 10, 100, 1000)
	return strconv.FormatFloat(f, 'g', -1, 64)
}

var strPool = []string{"", " ", "hello", "Hello World", "from AQL", "AQL", "food", "here!", "pizza (food)", "1", "1.0", "-1", "1e2", "0x10", "0x1p4", "Inf", "-inf", "NaN", "nan", "+5", " 5", "5 ", "1_000", ".5", "5.", "1e400", "42", "42.0", "true", "false", "null", "2014-01-01", "1970-01-02", "2020-02-30", "1500000000", "192.168.1.1", "10.0.0.0/8", "host 10.1.2.3:80 and 10.0.0.0/33", "大懒虫", "café", "CAFÉ", "café", "a\nb", "Kelvin", "ſister", "😀 smile", "under_score", "x1 x2", "\"quoted\"", "back\\slash", "/usr/bin/x", "a.b", "foo|bar", "*", "?", "a*b", "\u0000", "�", " "}

// StrText gives the text of a string value.
func StrText(r *Rand) string {
	switch n := r.Intn(100); {
	case n < 40:
		return Pick(r, strPool...)
	case n < 60:
		return Common(r)
	case n < 80:
		return Sentence(r, 1+r.Intn(6))
	case n < 81:
		return Dict(r)
	case n < 83:
		return Sentence(r, 20+r.Intn(200))
	case n < 88:
		return UniTerm(r) + Pick(r, "", " "+Common(r))
	case n < 92:
		return TimeText(r, Instant(r))
	case n < 96:
		a := Addr(r)
		return fmt.Sprintf("%d.%d.%d.%d", a[0], a[1], a[2], a[3])
	}
	return Word(r)
}

// Scalar gives a scalar value.
func Scalar(r *Rand) *ref.J {
	switch r.Intn(10) {
	case 0:
		return ref.Null()
	case 1:
		return ref.Bool(Chance(r, 50))
	case 2, 3, 4:
		return ref.Num(NumLit(r))
	}
	return ref.Str(StrText(r))
}

// Any gives any value up to a depth.
func Any(r *Rand, depth int) *ref.J {
	if depth > 0 {
		switch r.Intn(5) {
		case 0:
			a := ref.Arr()
			for i := r.Intn(5); i > 0; i-- {
				a.Arr = append(a.Arr, Any(r, depth-1))
			}
			return a
		case 1:
			o := ref.Obj()
			for i := r.Intn(4); i > 0; i-- {
				o.Set(Name(r), Any(r, depth-1))
			}
			return o
		}
	}
	return Scalar(r)
}

func recase(r *Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

// NearString gives text that matches a string term or nearly does.
func NearString(r *Rand, term string) string {
	var b strings.Builder
	rs := []rune(term)
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == '?' || rs[i+1] == '*'):
			i++
			if Chance(r, 15) {
				b.WriteRune('x')
			} else {
				b.WriteRune(rs[i])
			}
		case rs[i] == '?':
			b.WriteString(Pick(r, "x", "?", "大", " ", "", "xy", "\n", "-", "7"))
		case rs[i] == '*':
			b.WriteString(Pick(r, "", "x", "abc def", "*", "\n", "é", "--", strings.Repeat("z", r.Intn(80))))
		default:
			if Chance(r, 3) {
				continue
			}
			b.WriteRune(rs[i])
		}
	}
	s := recase(r, b.String())
	switch r.Intn(10) {
	case 0, 1, 2:
		return s
	case 3:
		return s + Pick(r, "s", "_", "1", "é")
	case 4:
		return Pick(r, "s", "_", "1", "é") + s
	case 5:
		return Common(r) + " " + s + " " + Common(r)
	case 6:
		return Pick(r, "(", "-", "\"", ".", "大") + s + Pick(r, ")", "-", "!", ",", "大")
	case 7:
		return Sentence(r, 1+r.Intn(60)) + " " + s
	case 8:
		return "\n" + s + "\n"
	}
	return s + " " + Sentence(r, 1+r.Intn(20))
}

// NearNumber gives a number or numeric string around a number.
func NearNumber(r *Rand, f float64, lit string) *ref.J {
	g := func(x float64) string {
		return strconv.FormatFloat(x, Pick(r, byte('g'), byte('f'), byte('e')), -1, 64)
	}
	var s string
	switch r.Intn(9) {
	case 0, 1, 2:
		s = lit
	case 3:
		s = g(f)
	case 4:
		s = g(math.Nextafter(f, math.Inf(1)))
	case 5:
		s = g(math.Nextafter(f, math.Inf(-1)))
	case 6:
		s = g(f + float64(Pick(r, 1, -1)))
	case 7:
		s = g(-f)
	case 8:
		s = g(f * Pick(r, 10, 0.1, 2))
	}
	if strings.Contains(s, "Inf") || strings.Contains(s, "NaN") {
		s = "0"
	}
	if Chance(r, 30) {
		return ref.Str(Pick(r, "", "", "", "", "+", " ", "$", "0") + s + Pick(r, "", "", "", "", " ", "x", "%"))
	}
	// a JSON number has no leading zeros
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	for len(s) > 1 && s[0] == '0' && s[1] >= '0' && s[1] <= '9' {
		s = s[1:]
	}
	if neg {
		s = "-" + s
	}
	return ref.Num(s)
}

// TimeFormats are ways of writing an instant that read the same everywhere.
// Each drops the precision it does not have.
var TimeFormats = []struct {
	Layout string
	Zoned  bool
	Prec   time.Duration
}{
	{time.RFC3339Nano, true, 1},
	{time.RFC3339, true, time.Second},
	{"2006-01-02T15:04:05.000Z07:00", true, time.Millisecond},
	{"2006-01-02 15:04:05 -0700", true, time.Second},
	{"2006-01-02 15:04:05.000 -0700", true, time.Millisecond},
	{"2006-01-02 15:04:05", false, time.Second},
	{"2006-01-02 15:04:05.000", false, time.Millisecond},
	{"2006-01-02T15:04:05", false, time.Second},
	{"2006-01-02 15:04", false, time.Minute},
	{"2006-01-02", false, 24 * time.Hour},
	{"2006/01/02", false, 24 * time.Hour},
	{"2006/01/02 15:04:05", false, time.Second},
	{"01/02/2006", false, 24 * time.Hour},
	{"01/02/2006 15:04:05", false, time.Second},
	{"Jan 2, 2006", false, 24 * time.Hour},
	{"January 2, 2006", false, 24 * time.Hour},
	{"Jan 2, 2006 3:04:05 PM", false, time.Second},
	{"2 Jan 2006", false, 24 * time.Hour},
	{"2 January 2006", false, 24 * time.Hour},
	{"Mon, 02 Jan 2006 15:04:05 -0700", true, time.Second},
	{"Mon Jan _2 15:04:05 2006", false, time.Second},
	{"20060102150405", false, time.Second},
	{"20060102", false, 24 * time.Hour},
}

// TimeText writes an instant in one of the formats.
func TimeText(r *Rand, t time.Time) string {
	s, _ := TimeTextAt(r, t)
	return s
}

// TimeTextAt writes an instant, and says which instant was written.
func TimeTextAt(r *Rand, t time.Time) (string, time.Time) {
	f := TimeFormats[r.Intn(len(TimeFormats))]
	if t.Year() < 1000 {
		f = TimeFormats[r.Intn(2)]
	}
	w := t.UTC()
	w = w.Add(-time.Duration(w.Nanosecond()) % f.Prec)
	if f.Prec > time.Second {
		w = time.Date(w.Year(), w.Month(), w.Day(), w.Hour(), w.Minute(), 0, 0, time.UTC)
	}
	if f.Prec > time.Minute {
		w = time.Date(w.Year(), w.Month(), w.Day(), 0, 0, 0, 0, time.UTC)
	}
	z := time.UTC
	if f.Zoned {
		z = Zone(r)
		if y := w.In(z).Year(); y < 1 || y > 9999 {
			z = time.UTC
		}
	}
	return w.In(z).Format(f.Layout), w
}

// Epoch writes an instant as seconds, milli-, micro- or nanoseconds since 1970.
func Epoch(r *Rand, t time.Time) (string, time.Time, bool) {
	if y := t.Year(); y < 2002 || y > 2200 {
		return "", t, false
	}
	switch r.Intn(4) {
	case 0:
		return fmt.Sprint(t.Unix()), t.Truncate(time.Second), true
	case 1:
		return fmt.Sprint(t.UnixMilli()), t.Truncate(time.Millisecond), true
	case 2:
		return fmt.Sprint(t.UnixMicro()), t.Truncate(time.Microsecond), true
	}
	return fmt.Sprint(t.UnixNano()), t, true
}

// NearTime gives a value for a moment at or near t.
func NearTime(r *Rand, t time.Time) *ref.J {
	switch r.Intn(8) {
	case 0:
		t = t.Add(time.Duration(Pick(r, 1, -1)) * Pick(r, time.Nanosecond, time.Millisecond, time.Second, time.Minute, time.Hour))
	case 1:
		t = t.Add(time.Duration(Pick(r, 1, -1)) * Pick(r, 24*time.Hour, 24*time.Hour-1, 12*time.Hour, 366*24*time.Hour))
	case 2:
		t = t.UTC().Truncate(24 * time.Hour).Add(Pick(r, 0, -1, 24*time.Hour-1, 24*time.Hour, 86399*time.Second))
	}
	if Chance(r, 15) {
		if s, _, ok := Epoch(r, t); ok {
			if Chance(r, 50) && len(s) <= 13 {
				return ref.Num(s)
			}
			return ref.Str(s)
		}
	}
	if y := t.Year(); y < 1 || y > 9999 {
		return ref.Str("never")
	}
	if Chance(r, 50) {
		return ref.Str(t.In(Zone(r)).Format(time.RFC3339Nano))
	}
	return ref.Str(TimeText(r, t))
}

// NearNet gives text with addresses or blocks around a network.
func NearNet(r *Rand, v *ref.Val) string {
	base := uint32(v.Addr[0])<<24 | uint32(v.Addr[1])<<16 | uint32(v.Addr[2])<<8 | uint32(v.Addr[3])
	host := uint32(1)<<uint(32-v.Bits) - 1
	if v.Bits == 0 {
		host = math.MaxUint32
	}
	netw := base &^ host
	var n uint32
	switch r.Intn(8) {
	case 0:
		n = base
	case 1:
		n = netw
	case 2:
		n = netw | host
	case 3:
		n = netw - 1
	case 4:
		n = (netw | host) + 1
	case 5:
		n = netw | uint32(r.Int63())&host
	case 6:
		n = base ^ 1<<uint(r.Intn(32))
	default:
		n = uint32(r.Int63())
	}
	s := fmt.Sprintf("%d.%d.%d.%d", n>>24, n>>16&255, n>>8&255, n&255)
	if Chance(r, 35) {
		s += fmt.Sprintf("/%d", Pick(r, v.Bits, v.Bits, max(0, v.Bits-1), min(32, v.Bits+1), r.Intn(33), 33, 99))
		if Chance(r, 5) {
			s = s[:strings.LastIndexByte(s, '/')+1] + Pick(r, "0", "00", "01", "08", "032", "-1", "+8", "")
		}
	}
	switch r.Intn(12) {
	case 0:
		s = Common(r) + " " + s + " " + Common(r)
	case 1:
		s = "ip=" + s + ":8080"
	case 2:
		s = "8.8.8.8, " + s
	case 3:
		s = s + "," + s
	case 4:
		s = "999.1.1.1 " + s
	case 5:
		s = "[" + s + "]"
	case 6:
		s = "01.2.3.4 300.300.300.300 " + s
	case 7:
		s = Pick(r, "1", "9", "x", ".") + s
	case 8:
		s = s + Pick(r, "1", ".5", "x", "/", "/8")
	case 9:
		s = Sentence(r, r.Intn(50)) + " " + s
	}
	return s
}

// Near gives a value that matches a term or nearly does.
func Near(r *Rand, v *ref.Val) *ref.J {
	if Chance(r, 8) {
		return Scalar(r)
	}
	switch v.Type {
	case ref.VInt, ref.VFloat:
		lit := strconv.FormatInt(v.I, 10)
		if v.Type == ref.VFloat {
			lit = strconv.FormatFloat(v.F, 'f', -1, 64)
		}
		return NearNumber(r, v.Number(), lit)
	case ref.VString:
		s := NearString(r, v.S)
		if _, err := strconv.ParseFloat(s, 64); err == nil && Chance(r, 30) && jsonNumber(s) {
			return ref.Num(s)
		}
		return ref.Str(s)
	case ref.VBool:
		return Pick(r, ref.Bool(v.B), ref.Bool(v.B), ref.Bool(!v.B), ref.Str(fmt.Sprint(v.B)), ref.Num("1"), ref.Num("0"), ref.Null(), ref.Str(""))
	case ref.VRegex:
		for _, re := range Regexes {
			if re.Src == v.S && Chance(r, 70) {
				c := append(append([]string{}, re.Yes...), re.No...)
				s := Pick(r, c...)
				if Chance(r, 10) {
					s = Common(r) + " " + s
				}
				if jsonNumber(s) && Chance(r, 40) {
					return ref.Num(s)
				}
				return ref.Str(s)
			}
		}
		s := NearRegex(r, v.Re)
		if jsonNumber(s) && Chance(r, 30) {
			return ref.Num(s)
		}
		if Chance(r, 10) {
			s = StrText(r)
		}
		return ref.Str(s)
	case ref.VNet:
		return ref.Str(NearNet(r, v))
	case ref.VTime:
		return NearTime(r, v.T)
	}
	panic("type")
}

func jsonNumber(s string) bool {
	if s == "" {
		return false
	}
	i := 0
	if s[0] == '-' {
		i = 1
	}
	if i >= len(s) {
		return false
	}
	if s[i] == '0' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
		return false
	}
	dot := false
	last := byte('.')
	for ; i < len(s); i++ {
		if s[i] == '.' {
			if dot || last == '.' {
				return false
			}
			dot = true
		} else if s[i] < '0' || s[i] > '9' {
			return false
		}
		last = s[i]
	}
	return last != '.'
}

// Leaf gives a value to put at the end of a condition's path.
func Leaf(r *Rand, e *ref.Node) *ref.J {
	one := func() *ref.J {
		if len(e.Vals) == 0 {
			return Pick(r, ref.Null(), ref.Null(), Scalar(r), ref.Obj(), ref.Arr())
		}
		return Near(r, e.Vals[r.Intn(len(e.Vals))])
	}
	switch n := r.Intn(100); {
	case n < 60:
		return one()
	case n < 66:
		return ref.Null()
	case n < 86: // array
		a := ref.Arr()
		k := Size(r, 4, 60)
		if Chance(r, 2) {
			k = 100 + r.Intn(900)
		}
		hit := r.Intn(k)
		for i := 0; i < k; i++ {
			switch {
			case i == hit || Chance(r, 10):
				a.Arr = append(a.Arr, one())
			case Chance(r, 15):
				a.Arr = append(a.Arr, ref.Arr(one()))
			case Chance(r, 10):
				a.Arr = append(a.Arr, ref.Obj("a", one()))
			default:
				a.Arr = append(a.Arr, Scalar(r))
			}
		}
		return a
	case n < 90:
		return Any(r, 2)
	case n < 93:
		return ref.Obj(Name(r), one())
	case n < 95:
		return ref.Arr(ref.Arr(one()))
	}
	return one()
}

// Put adds a value at a path, through objects and arrays of objects.
func Put(r *Rand, o *ref.J, path []string, leaf *ref.J) {
	for i, p := range path {
		if i == len(path)-1 {
			if o.Get(p) == nil || Chance(r, 50) {
				o.Set(p, leaf)
			}
			return
		}
		c := o.Get(p)
		if c == nil || c.Kind != ref.JObj && c.Kind != ref.JArr {
			n := ref.Obj()
			c = n
			switch {
			case Chance(r, 25):
				c = ref.Arr(n)
				for k := r.Intn(3); k > 0; k-- {
					c.Arr = append(c.Arr, Any(r, 1))
				}
				if Chance(r, 5) {
					for k := r.Intn(80); k > 0; k-- {
						c.Arr = append([]*ref.J{Any(r, 1)}, c.Arr...)
					}
				}
				r.Shuffle(len(c.Arr), func(a, b int) { c.Arr[a], c.Arr[b] = c.Arr[b], c.Arr[a] })
			case Chance(r, 4):
				c = ref.Arr(ref.Arr(n))
			}
			o.Set(p, c)
		}
		if c.Kind == ref.JArr {
			// an object of the array, or a new one
			var objs []*ref.J
			for _, e := range c.Arr {
				if e.Kind == ref.JObj {
					objs = append(objs, e)
				}
			}
			if len(objs) == 0 || Chance(r, 30) {
				n := ref.Obj()
				c.Arr = append(c.Arr, n)
				objs = []*ref.J{n}
			}
			c = objs[r.Intn(len(objs))]
		}
		o = c
	}
}

// Doc makes a document on which a query is likely to be close.
func Doc(r *Rand, q *ref.Node) *ref.J {
	root := ref.Obj()
	noise := func() {
		for k := r.Intn(3); k > 0; k-- {
			n := Name(r)
			if root.Get(n) == nil {
				root.Set(n, Any(r, 2))
			}
		}
	}
	noise()
	if Chance(r, 3) {
		for k := r.Intn(150); k > 0; k-- {
			root.Set(Word(r)+fmt.Sprint(k), Any(r, 1))
		}
	}
	for _, e := range q.Exprs() {
		if Chance(r, 12) {
			continue
		}
		path := e.Field
		if Chance(r, 4) && len(path) > 1 {
			path = path[:1+r.Intn(len(path)-1)]
		}
		Put(r, root, path, Leaf(r, e))
		for Chance(r, 20) {
			Put(r, root, e.Field, Leaf(r, e))
		}
	}
	noise()
	switch n := r.Intn(100); {
	case n < 3:
		return ref.Arr(root, Any(r, 2))
	case n < 5:
		return ref.Arr(Scalar(r), ref.Obj(), root)
	case n < 6:
		return Scalar(r)
	case n < 7:
		return ref.Arr(ref.Arr(root))
	}
	return root
}

// DocStyle gives a style for writing a document.
func DocStyle(r *Rand) ref.Style {
	if Chance(r, 40) {
		return ref.Style{}
	}
	return ref.Style{R: r, Space: Pick(r, 0, 5, 30, 60), Esc: Pick(r, 0, 0, 10, 50, 100), Shuffle: Chance(r, 50)}
}
