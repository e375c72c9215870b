package ref

import "unicode/utf8"

// ValidJSON decides whether a text is exactly one JSON document (RFC 8259).
// Strings may hold any bytes that are not control characters, quotes or
// backslashes, as in the Go library.
func ValidJSON(s string) bool {
	v := &vp{s: s}
	v.ws()
	if !v.value(0) {
		return false
	}
	v.ws()
	return v.i == len(s)
}

type vp struct {
	s string
	i int
}

func (v *vp) peek() byte {
	if v.i < len(v.s) {
		return v.s[v.i]
	}
	return 0
}

func (v *vp) ws() {
	for v.i < len(v.s) && (v.s[v.i] == ' ' || v.s[v.i] == '\t' || v.s[v.i] == '\n' || v.s[v.i] == '\r') {
		v.i++
	}
}

func (v *vp) word(w string) bool {
	if len(v.s)-v.i >= len(w) && v.s[v.i:v.i+len(w)] == w {
		v.i += len(w)
		return true
	}
	return false
}

func (v *vp) value(depth int) bool {
	if depth > 10000 {
		return false
	}
	switch c := v.peek(); {
	case c == '{':
		v.i++
		v.ws()
		if v.word("}") {
			return true
		}
		for {
			v.ws()
			if !v.str() {
				return false
			}
			v.ws()
			if !v.word(":") {
				return false
			}
			v.ws()
			if !v.value(depth + 1) {
				return false
			}
			v.ws()
			if v.word("}") {
				return true
			}
			if !v.word(",") {
				return false
			}
		}
	case c == '[':
		v.i++
		v.ws()
		if v.word("]") {
			return true
		}
		for {
			v.ws()
			if !v.value(depth + 1) {
				return false
			}
			v.ws()
			if v.word("]") {
				return true
			}
			if !v.word(",") {
				return false
			}
		}
	case c == '"':
		return v.str()
	case c == '-' || c >= '0' && c <= '9':
		return v.num()
	}
	return v.word("true") || v.word("false") || v.word("null")
}

func (v *vp) digits() bool {
	n := v.i
	for v.peek() >= '0' && v.peek() <= '9' {
		v.i++
	}
	return v.i > n
}

func (v *vp) num() bool {
	v.word("-")
	if !v.word("0") && !v.digits() {
		return false
	}
	if v.word(".") && !v.digits() {
		return false
	}
	if v.word("e") || v.word("E") {
		if !v.word("+") {
			v.word("-")
		}
		return v.digits()
	}
	return true
}

func (v *vp) str() bool {
	if !v.word(`"`) {
		return false
	}
	for v.i < len(v.s) {
		c := v.s[v.i]
		switch {
		case c == '"':
			v.i++
			return true
		case c < 0x20:
			return false
		case c == '\\':
			v.i++
			switch v.peek() {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				v.i++
			case 'u':
				v.i++
				for k := 0; k < 4; k++ {
					h := v.peek()
					if !(h >= '0' && h <= '9' || h >= 'a' && h <= 'f' || h >= 'A' && h <= 'F') {
						return false
					}
					v.i++
				}
			default:
				return false
			}
		default:
			_, n := utf8.DecodeRuneInString(v.s[v.i:])
			v.i += n
		}
	}
	return false
}
