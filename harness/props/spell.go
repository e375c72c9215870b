package props

import (
	"fmt"
	"strings"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"
)

// spellings gives ways to write a number of the given digits.
func spellings(t *fw.T, sign, digits string, exp int) []string {
	whole := digits
	if exp >= 0 {
		whole += strings.Repeat("0", exp)
	} else if -exp < len(digits) {
		whole = digits[:len(digits)+exp] + "." + digits[len(digits)+exp:]
	} else {
		whole = "0." + strings.Repeat("0", -exp-len(digits)) + digits
	}
	out := []string{whole}
	e := oneOf(t, "e", "E")
	if strings.Contains(whole, ".") {
		out = append(out, whole+"0", whole+"000", whole+e+"0")
	} else {
		out = append(out, whole+".0", whole+".000", whole+e+"0", whole+e+"+00", whole+"0e-1")
	}
	out = append(out, fmt.Sprintf("%s%s%d", digits, e, exp))
	if len(digits) > 1 {
		k := 1 + t.Intn(len(digits)-1)
		out = append(out, fmt.Sprintf("%s.%s%s%d", digits[:k], digits[k:], e, exp+len(digits)-k))
		out = append(out, fmt.Sprintf("0.%s%s%d", digits, e, exp+len(digits)))
	}
	for i := range out {
		out[i] = sign + out[i]
	}
	return out
}

func init() {
	// conditions on the text of a number see the number, not its spelling
	fw.Extend("C14", func(c *fw.Ctx) {
		c.Run("numbers", c.N(6000, 60000), func(t *fw.T) {
			n := gen.Pick(t.Rand, 1, 2, 3, 6, 15, 16, 17, 18, 19, 20, 22, 30, 60, 320)
			digits := fmt.Sprint(1 + t.Intn(9))
			for len(digits) < n {
				digits += fmt.Sprint(t.Intn(10))
			}
			if chance(t, 20) {
				digits = digits[:1] + strings.Repeat(oneOf(t, "0", "9"), n-1)
			}
			if digits[len(digits)-1] == '0' {
				digits = digits[:len(digits)-1] + "5"
			}
			exp := gen.Pick(t.Rand, 0, 0, 0, 0, 1, 2, 10, 20, 21, 22, 300-n, -1, -2, -5, -6, -7, -n, -n-3, -n-7, -300)
			sign := oneOf(t, "", "", "-")
			all := spellings(t, sign, digits, exp)
			if chance(t, 4) {
				all = []string{"0", "0.0", "0e0", "0E+5", "0.00e-3"}
				for i := range all {
					all[i] = sign + all[i]
				}
				t.Count("spelled_zero")
			}
			part := strings.TrimPrefix(all[0], "-")
			if chance(t, 60) {
				i := t.Intn(len(part))
				part = part[i : i+1+t.Intn(len(part)-i)]
			}
			last := part[max(0, len(part)-2):]
			q := "v:" + gen.Pick(t.Rand,
				"/"+strings.ReplaceAll(part, ".", `\.`)+oneOf(t, "", "$", "0")+"/", "/"+strings.ReplaceAll(last, ".", `\.`)+"$/", `/[eE.]/`, `/^-?\d+$/`, `/00/`, `/^-/`, `/-/`, `/^`+all[0][:1]+`/`,
				`"`+part+`"`, `"*`+last+`"`, `"`+part[:1]+`*"`, `"`+all[0]+`"`, `"`+oneOf(t, all...)+`"`,
				`("`+part+`","zz")`, "1970-01-01", ">1971-01-01", "1.2.3.4", `~"`+part+`"`)
			m := matcher(t, q)
			var first bool
			for i, s := range all {
				text := ref.Obj("v", ref.Num(s)).Text()
				if chance(t, 30) {
					text = `{"v":[` + s + `]}`
				}
				t.ClearNotes()
				t.Note("query: %s", clip(q))
				t.Note("numbers: %s and %s", clip(all[0]), clip(s))
				got := guarded(t, m, text)
				t.Eval()
				if i == 0 {
					first = got
				} else if got != first {
					t.Failf("the first matches: %v, the second: %v", first, got)
				}
				t.Count(fmt.Sprint("spelled_", got))
			}
			t.Distinct(q + all[0])
		})
		c.Require("spelled_zero", 100)
		c.Require("spelled_true", 2000)
		c.Require("spelled_false", 2000)
	})
}
