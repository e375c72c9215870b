package gen

import (
	"fmt"
	"strings"
)

// RegexTree grows an expression from the syntax of the engine: alternations,
// sequences, every kind of repetition, groups, flags, classes and anchors.
func RegexTree(r *Rand) string {
	for {
		src := regexAlt(r, 1+r.Intn(4))
		if Chance(r, 15) {
			src = Pick(r, "(?i)", "(?s)", "(?U)", "(?m)", "(?i-s)", "^", ".*", `\A`) + src
		}
		if Chance(r, 10) {
			src += Pick(r, "$", ".*", `\z`)
		}
		if len(src) < 400 && usableRegex(src) {
			return src
		}
	}
}

func regexAlt(r *Rand, depth int) string {
	n := Pick(r, 1, 1, 1, 2, 2, 3)
	parts := make([]string, n)
	for i := range parts {
		parts[i] = regexSeq(r, depth)
	}
	return strings.Join(parts, "|")
}

func regexSeq(r *Rand, depth int) string {
	var b strings.Builder
	for i := Pick(r, 0, 1, 1, 1, 2, 2, 3, 5); i > 0; i-- {
		b.WriteString(regexAtom(r, depth))
		if Chance(r, 40) {
			m := r.Intn(4)
			b.WriteString(Pick(r, "*", "+", "?", fmt.Sprintf("{%d}", m), fmt.Sprintf("{%d,}", m), fmt.Sprintf("{%d,%d}", m, m+r.Intn(4))))
			if Chance(r, 25) {
				b.WriteString("?")
			}
		}
	}
	return b.String()
}

func regexAtom(r *Rand, depth int) string {
	if depth > 0 && Chance(r, 35) {
		return Pick(r, "(", "(", "(?:", "(?:", "(?i:", "(?s-i:", "(?P<n>", "(?U:") + regexAlt(r, depth-1) + ")"
	}
	switch r.Intn(8) {
	case 0:
		return Pick(r, ".", "^", "$", `\b`, `\B`, `\A`, `\z`)
	case 1:
		return Pick(r, `\d`, `\D`, `\s`, `\S`, `\w`, `\W`, `\pL`, `\p{Lu}`, `\PN`, `\p{Greek}`, "[[:alpha:]]", "[[:^space:]]")
	case 2:
		lo := 'a' + rune(r.Intn(20))
		return fmt.Sprintf("[%s%c-%c%s]", Pick(r, "", "^"), lo, lo+rune(r.Intn(6)), Pick(r, "", "0-9", `\d`, "_", "é", `\]`, "A-Z", `\/`))
	case 3:
		return Pick(r, `\x41`, `\x{e9}`, `\t`, `\n`, `\.`, `\\`, `\*`, `\/`, `\-`, `\Qa.b*\E`, `\101`, `\(`)
	case 4:
		return Pick(r, "é", "大", "😀", "É", "ß", "ſ", "K")
	}
	return Pick(r, "a", "b", "c", "x", "ab", "foo", "cat", "A", "1", "0", " ", "-", "_", `"`, ",", "'", "<")
}
