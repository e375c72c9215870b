// Package ref is an independent reference model of the query language and of
// matching, written from the documentation. It shares no code with the
// repository.
package ref

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf16"
)

// JKind is the kind of a JSON value.
type JKind int

// Kinds of JSON values.
const (
	JNull JKind = iota
	JBool
	JNum
	JStr
	JArr
	JObj
)

// J is a JSON value.
type J struct {
	Kind JKind
	Bool bool
	Num  string // the literal
	Str  string
	Arr  []*J
	Keys []string // in document order
	Vals []*J
}

// Null makes a null.
func Null() *J { return &J{Kind: JNull} }

// Bool makes a boolean.
func Bool(b bool) *J { return &J{Kind: JBool, Bool: b} }

// Num makes a number from its literal.
func Num(lit string) *J { return &J{Kind: JNum, Num: lit} }

// Str makes a string.
func Str(s string) *J { return &J{Kind: JStr, Str: s} }

// Arr makes an array.
func Arr(v ...*J) *J { return &J{Kind: JArr, Arr: v} }

// Obj makes an object from alternating keys and values.
func Obj(kv ...any) *J {
	o := &J{Kind: JObj}
	for i := 0; i < len(kv); i += 2 {
		o.Set(kv[i].(string), kv[i+1].(*J))
	}
	return o
}

// Get finds a member.
func (j *J) Get(key string) *J {
	for i, k := range j.Keys {
		if k == key {
			return j.Vals[i]
		}
	}
	return nil
}

// Set adds or replaces a member.
func (j *J) Set(key string, v *J) {
	for i, k := range j.Keys {
		if k == key {
			j.Vals[i] = v
			return
		}
	}
	j.Keys = append(j.Keys, key)
	j.Vals = append(j.Vals, v)
}

// Style says how a value is written out.
type Style struct {
	R *rand.Rand // nil: compact, minimal escapes
	// Space is the chance in percent of whitespace around a token.
	Space int
	// Esc is the chance in percent of escaping a character that needs none.
	Esc int
	// Shuffle writes members in a random order.
	Shuffle bool
	// Respell rewrites numbers to another literal of the same value.
	Respell bool
}

// Text writes a value compactly.
func (j *J) Text() string { return j.Write(Style{}) }

// Write writes a value in a style.
func (j *J) Write(s Style) string {
	var b strings.Builder
	s.ws(&b)
	j.write(&b, s)
	s.ws(&b)
	return b.String()
}

func (s Style) ws(b *strings.Builder) {
	if s.R == nil || s.Space == 0 {
		return
	}
	for s.R.Intn(100) < s.Space {
		b.WriteByte(" \t\r\n"[s.R.Intn(4)])
	}
}

func (j *J) write(b *strings.Builder, s Style) {
	switch j.Kind {
	case JNull:
		b.WriteString("null")
	case JBool:
		fmt.Fprint(b, j.Bool)
	case JNum:
		if s.Respell && s.R != nil {
			b.WriteString(Respell(s.R, j.Num))
		} else {
			b.WriteString(j.Num)
		}
	case JStr:
		QuoteJSON(b, j.Str, s.R, s.Esc)
	case JArr:
		b.WriteByte('[')
		for i, v := range j.Arr {
			if i > 0 {
				b.WriteByte(',')
			}
			s.ws(b)
			v.write(b, s)
			s.ws(b)
		}
		if len(j.Arr) == 0 {
			s.ws(b)
		}
		b.WriteByte(']')
	case JObj:
		b.WriteByte('{')
		order := make([]int, len(j.Keys))
		for i := range order {
			order[i] = i
		}
		if s.Shuffle && s.R != nil {
			s.R.Shuffle(len(order), func(a, c int) { order[a], order[c] = order[c], order[a] })
		}
		for n, i := range order {
			if n > 0 {
				b.WriteByte(',')
			}
			s.ws(b)
			QuoteJSON(b, j.Keys[i], s.R, s.Esc)
			s.ws(b)
			b.WriteByte(':')
			s.ws(b)
			j.Vals[i].write(b, s)
			s.ws(b)
		}
		if len(j.Keys) == 0 {
			s.ws(b)
		}
		b.WriteByte('}')
	}
}

// QuoteJSON writes a JSON string literal.
func QuoteJSON(b *strings.Builder, str string, r *rand.Rand, esc int) {
	b.WriteByte('"')
	for _, c := range str {
		short := byte(0)
		switch c {
		case '"', '\\', '/':
			short = byte(c)
		case '\b':
			short = 'b'
		case '\f':
			short = 'f'
		case '\n':
			short = 'n'
		case '\r':
			short = 'r'
		case '\t':
			short = 't'
		}
		force := c < 0x20 || c == '"' || c == '\\'
		want := r != nil && esc > 0 && r.Intn(100) < esc
		switch {
		case !force && !want:
			b.WriteRune(c)
		case short != 0 && (r == nil || r.Intn(3) > 0):
			b.WriteByte('\\')
			b.WriteByte(short)
		default:
			f := `\u%04x`
			if r != nil && r.Intn(2) == 0 {
				f = `\u%04X`
			}
			if c > 0xffff {
				hi, lo := utf16.EncodeRune(c)
				fmt.Fprintf(b, f, hi)
				fmt.Fprintf(b, f, lo)
			} else {
				fmt.Fprintf(b, f, c)
			}
		}
	}
	b.WriteByte('"')
}

// Respell gives another literal for exactly the same decimal value.
func Respell(r *rand.Rand, lit string) string {
	neg := strings.HasPrefix(lit, "-")
	body := strings.TrimPrefix(lit, "-")
	exp := 0
	if i := strings.IndexAny(body, "eE"); i >= 0 {
		if _, err := fmt.Sscanf(body[i+1:], "%d", &exp); err != nil {
			return lit
		}
		body = body[:i]
	}
	frac := ""
	if i := strings.IndexByte(body, '.'); i >= 0 {
		frac = body[i+1:]
		body = body[:i]
	}
	digits := body + frac
	exp -= len(frac)
	switch r.Intn(5) {
	case 0: // as it was
		return lit
	case 1: // trailing zeros after a point
		if exp == 0 {
			digits += "." + strings.Repeat("0", 1+r.Intn(3))
		} else {
			return lit
		}
	case 2: // an exponent of the digits as they are
		d := strings.TrimLeft(digits, "0")
		if d == "" {
			d = "0"
		}
		digits = d + "e" + fmt.Sprint(exp)
	case 3: // scientific
		d := strings.TrimLeft(digits, "0")
		if d == "" {
			return lit
		}
		e := exp + len(d) - 1
		sign := ""
		if e >= 0 && r.Intn(2) == 0 {
			sign = "+"
		}
		digits = d[:1]
		if len(d) > 1 {
			digits += "." + d[1:]
		}
		digits += "E" + sign + fmt.Sprint(e)
	case 4: // longer digits, smaller exponent
		d := strings.TrimLeft(digits, "0")
		if d == "" {
			return lit
		}
		n := 1 + r.Intn(3)
		digits = d + strings.Repeat("0", n) + "e" + fmt.Sprint(exp-n)
	}
	if neg {
		digits = "-" + digits
	}
	return digits
}
