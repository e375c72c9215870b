package props

import (
	"strings"
	"unicode"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"
)

// cased are all letters that have another case, and the two that have one only
// by the rules of some language.
var cased = func() []rune {
	out := []rune{'İ', 'ı'}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.SimpleFold(r) != r {
			out = append(out, r)
		}
	}
	return out
}()

// cases are the other cases of a letter, with what conversion makes of it.
func cases(r rune) []rune {
	out := []rune{r, unicode.ToLower(r), unicode.ToUpper(r), unicode.ToTitle(r), unicode.ToLower(unicode.ToUpper(r)), unicode.ToUpper(unicode.ToLower(r)), r + 1}
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		out = append(out, x)
	}
	return out
}

func init() {
	fw.Extend("C07", func(c *fw.Ctx) {
		c.Run("letters", len(cased), func(t *fw.T) {
			r := cased[mustIndex(t.Key)]
			all := cases(r)
			for i := 0; i < 6; i++ {
				pre, post := oneOf(t, "", "d", "d ", "-", "1"), oneOf(t, "", "d", " d", "-", "1")
				if i == 0 {
					pre, post = "d", "d"
				}
				core := pre + string(gen.Pick(t.Rand, all...)) + post
				if i < 2 {
					core = pre + string(r) + post
				}
				term := core
				switch t.Intn(5) {
				case 0:
					term = core + "*"
				case 1:
					term = "?" + core
				case 2:
					term = core + `\?`
				case 3:
					term = strings.Replace(core, post, "*"+post, 1)
				}
				e := ref.Expr(vpath, "==", gen.StrVal(t.Rand, term))
				for _, x := range all {
					s := pre + string(x) + post
					if single(t, e, ref.Str(oneOf(t, "", "", "e", "é", " ", "x ")+s+oneOf(t, "", "", "e", "é", "?", " y"))) {
						t.Count("letters_found")
					}
				}
				t.Distinct("letter " + term)
			}
			t.Count("letters")
		})
		c.Require("letters", 2000)
		c.Require("letters_found", 5000)
	})
	// expressions that ignore case, all letters
	fw.Extend("C08", func(c *fw.Ctx) {
		c.Run("letters", len(cased), func(t *fw.T) {
			r := cased[mustIndex(t.Key)]
			if !unicode.IsLetter(r) {
				return
			}
			all := cases(r)
			for i := 0; i < 3; i++ {
				x := string(r)
				if y := gen.Pick(t.Rand, all...); unicode.IsLetter(y) {
					x = string(y)
				}
				v := gen.RegexVal(t.Rand, oneOf(t, "(?i)", "(?i:)", "")+oneOf(t, "", "d", "^", `\b`)+oneOf(t, x, "["+x+"]", "[^"+x+"]", x+"+")+oneOf(t, "", "d", "$", `\b`))
				e := ref.Expr(vpath, "==", v)
				for _, y := range all {
					if single(t, e, ref.Str(oneOf(t, "", "d", "x ")+string(y)+oneOf(t, "", "d", " y"))) {
						t.Count("letters_found")
					}
				}
				t.Distinct("letter " + v.Text)
			}
			t.Count("letters")
		})
		c.Require("letters", 2000)
	})
}
