package props

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"aqlverif/fw"
	"aqlverif/gen"
	"aqlverif/ref"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

// agree parses a query with both parsers and compares acceptance and structure.
func agree(t *fw.T, q string) *ref.Node {
	want, werr := ref.Parse(q)
	t.ClearNotes()
	t.Note("query: %q", clip(q))
	n, err := parse(t, q)
	t.Eval()
	if (err == nil) != (werr == nil) {
		if err == nil {
			t.Failf("the query was accepted as %s, expected it to be rejected: %v", clip(n.String()), werr)
		}
		t.Failf("the query was rejected (%v), expected it to be accepted as %s", err, clip(want.Dump()))
	}
	if err != nil {
		t.Count("rejected")
		var pe *parser.ParseError
		if !errors.As(err, &pe) || pe.Message() == "" || pe.Error() == "" {
			t.Failf("rejected without a parse error with a message: %T %v", err, err)
		}
		return nil
	}
	t.Count("accepted")
	got, cerr := fromAST(n)
	if cerr != nil {
		t.Failf("bad tree: %v", cerr)
	}
	if got.Dump() != want.Dump() {
		t.Failf("the query was parsed as\n    %s\n  expected\n    %s", clip(got.Dump()), clip(want.Dump()))
	}
	return want
}

func init() {
	fw.Register(&fw.Prop{
		ID:   "C02",
		Rule: "queries written from random trees with random spacing and parentheses, mutations of them, and token soup, parsed by the library and by an independent parser; non-trivial: a distinct query text",
		Run: func(c *fw.Ctx) {
			c.Run("written", c.N(15000, 150000), func(t *fw.T) {
				q := gen.Config{MaxNodes: 80}.Query(t.Rand)
				text := gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: gen.Pick(t.Rand, 0, 10, 40)})
				got := agree(t, text)
				if got == nil {
					t.Failf("valid query rejected")
				}
				if got.Dump() != q.Dump() {
					t.C.Fatalf("reference parser and writer differ on %q:\n%s\n%s", text, got.Dump(), q.Dump())
				}
				t.Distinct(text)
				t.Sample(map[string]any{"query": clip(text), "tree": clip(q.Dump())})
			})
			c.Run("mutated", c.N(30000, 300000), func(t *fw.T) {
				q := gen.Config{MaxNodes: 8, MaxList: 5}.Query(t.Rand)
				text := mutate(t, gen.Text(t.Rand, q, gen.TextStyle{Stars: true, Parens: 20}))
				agree(t, text)
				t.Distinct(text)
			})
			c.Run("soup", c.N(40000, 400000), func(t *fw.T) {
				text := soup(t)
				agree(t, text)
				t.Distinct(text)
			})
			// every sequence of three tokens between conditions
			toks := []string{" ", "AND", "OR", "NOT", "!", "(", ")", "a:1", "b:(1,2)", ":", "1", "\n", "\t"}
			n := len(toks)
			c.Run("tokens", n*n*n*n, func(t *fw.T) {
				i := mustIndex(t.Key)
				mid := toks[i%n] + toks[i/n%n] + toks[i/n/n%n] + toks[i/n/n/n]
				for _, q := range []string{mid, "x:1" + mid + "y:2", "x:1 " + mid + " y:2", "(" + mid + ")"} {
					agree(t, q)
				}
				t.Count("token_sequences")
				t.Distinct("tok" + mid)
			})
			c.Run("nested", c.N(60, 400), func(t *fw.T) {
				d := 1 + t.Intn(300)
				text := strings.Repeat("(", d) + "a:1" + strings.Repeat(")", d)
				if chance(t, 30) {
					text = strings.Repeat("!(", d) + "a:1" + strings.Repeat(")", d)
				}
				if chance(t, 30) {
					text = text[1:]
				}
				agree(t, text)
				t.Count("nested")
				t.Distinct(text)
			})
			c.Run("long", c.N(60, 400), func(t *fw.T) {
				var parts []string
				for i, n := 0, 50+t.Intn(800); i < n; i++ {
					parts = append(parts, oneOf(t, "a:1", "!b:2", "NOT c:3", "(d:4 OR e:5)", "f:(1,2,3)"))
				}
				text := parts[0]
				for _, p := range parts[1:] {
					text += oneOf(t, " AND ", " OR ") + p
				}
				agree(t, text)
				t.Count("long_chains")
				t.Distinct(text)
			})
			c.Require("accepted", 10000)
			c.Require("rejected", 10000)
		},
	})

	fw.Register(&fw.Prop{
		ID:   "C03",
		Rule: "literals of every type at and beyond their limits, in every escape and spelling, alone and in lists; non-trivial: a distinct literal text",
		Run: func(c *fw.Ctx) {
			lits := literals()
			c.Extra("literal_table", len(lits))
			c.Run("table", len(lits), func(t *fw.T) {
				l := lits[mustIndex(t.Key)]
				for _, q := range []string{"a:" + l, "a:" + l + " ", "a: (" + l + ",7)", "a:(7 , " + l + " )", "a:" + l + " AND b:1", "(a:" + l + ")", "a:<" + l, "a:~" + l, "a:><(" + l + ",9223372036854775807)"} {
					agree(t, q)
				}
				t.Distinct(l)
				t.Sample(map[string]any{"literal": l})
			})
			c.Run("fields", c.N(6000, 60000), func(t *fw.T) {
				// as a quoted name, every string is kept exactly
				name := gen.Pick(t.Rand, gen.Name(t.Rand), gen.StrText(t.Rand), randRunes(t))
				q := gen.QuoteAQL(t.Rand, name, gen.Pick(t.Rand, 0, 20, 100)) + ":1"
				got := agree(t, q)
				if got == nil || got.Field[0] != name {
					t.Failf("quoted name %q was not kept", name)
				}
				t.Count("names")
				t.Distinct("name" + q)
			})
			c.Run("strings", c.N(15000, 150000), func(t *fw.T) {
				s := gen.Pick(t.Rand, gen.StrText(t.Rand), randRunes(t), gen.StrTerm(t.Rand))
				if chance(t, 3) {
					s = strings.Repeat(s, 1+t.Intn(300))
				}
				lit := gen.QuoteAQL(t.Rand, s, gen.Pick(t.Rand, 0, 20, 100))
				got := agree(t, "a:"+lit)
				if got == nil || got.Vals[0].S != s {
					t.Failf("string %q was not kept", s)
				}
				if chance(t, 20) {
					agree(t, "a:"+mutate(t, lit))
				}
				t.Count("strings")
				t.Distinct(lit)
			})
			c.Run("values", c.N(15000, 150000), func(t *fw.T) {
				v := gen.Val(t.Rand, gen.Pick(t.Rand, gen.Types...))
				got := agree(t, "a:"+v.Text)
				if got == nil || got.Vals[0].Canon() != v.Canon() {
					t.Failf("literal %s was not kept as %s", v.Text, v.Canon())
				}
				if chance(t, 30) {
					agree(t, "a:"+mutate(t, v.Text))
				}
				t.Count("values")
				t.Distinct(v.Text)
			})
			c.Run("lists", c.N(1500, 15000), func(t *fw.T) {
				// long lists keep every value, in order
				n := 2 + gen.Size(t.Rand, 30, 1500)
				e := ref.Expr(vpath, "==")
				for i := 0; i < n; i++ {
					switch t.Intn(3) {
					case 0:
						e.Vals = append(e.Vals, gen.IntVal(t.Rand, int64(i)))
						e.Vals[i].Text = itoa(i)
					case 1:
						e.Vals = append(e.Vals, gen.StrVal(t.Rand, "s"+itoa(i)))
					default:
						e.Vals = append(e.Vals, gen.FloatVal(t.Rand, itoa(i)+".5"))
					}
				}
				got := agree(t, gen.ExprText(t.Rand, e, gen.TextStyle{}))
				if got == nil || got.Dump() != e.Dump() {
					t.Failf("the list was not kept")
				}
				t.Count("lists")
				t.Distinct(t.Key)
			})
			c.Require("accepted", 5000)
			c.Require("rejected", 1500)
		},
	})

	fw.Register(&fw.Prop{
		ID:   "C13",
		Rule: "every operator with zero to four values of every combination of types, ordered, equal and reversed, with duplicates under different spellings; non-trivial: a distinct condition text",
		Run: func(c *fw.Ctx) {
			allOps := []string{"", "<", "<=", ">", ">=", "><", "~"}
			nt := len(gen.Types)
			c.Run("pairs", len(allOps)*nt*nt*nt*c.N(10, 60), func(t *fw.T) {
				i := mustIndex(t.Key)
				op := allOps[i%len(allOps)]
				i /= len(allOps)
				ts := []ref.VType{gen.Types[i%nt], gen.Types[i/nt%nt], gen.Types[i/nt/nt%nt]}
				var vals []*ref.Val
				for k := 1 + t.Intn(4); k > 0; k-- {
					vals = append(vals, smallVal(t, ts[k%3]))
				}
				semantic(t, op, vals)
			})
			c.Run("order", c.N(10000, 100000), func(t *fw.T) {
				ty := gen.Pick(t.Rand, ref.VInt, ref.VFloat, ref.VTime)
				a, b := smallVal(t, ty), smallVal(t, gen.Pick(t.Rand, ty, ty, ty, ref.VInt, ref.VTime))
				semantic(t, "><", []*ref.Val{a, b})
				semantic(t, "><", []*ref.Val{b, a})
				semantic(t, "><", []*ref.Val{a, a})
			})
			c.Run("duplicates", c.N(6000, 60000), func(t *fw.T) {
				n := 2 + gen.Size(t.Rand, 6, 200)
				var vals []*ref.Val
				for i := 0; i < n; i++ {
					vals = append(vals, &ref.Val{Type: ref.VString, S: "s" + itoa(i), Text: fmt.Sprintf("%q", "s"+itoa(i))})
				}
				i, j := t.Intn(n), t.Intn(n)
				v := smallVal(t, gen.Pick(t.Rand, gen.Types...))
				vals[i] = v
				if i != j {
					vals[j] = respell(t, v)
				}
				semantic(t, oneOf(t, "", "~"), vals)
			})
			c.Run("placed", c.N(4000, 40000), func(t *fw.T) {
				// a wrong condition is found wherever it is in a query
				q := gen.Config{MaxNodes: 20, MaxList: 3}.Query(t.Rand)
				bad := ref.Expr(vpath, oneOf(t, "<", ">", "><", "~", "<=", ">="), smallVal(t, gen.Pick(t.Rand, gen.Types...)), smallVal(t, gen.Pick(t.Rand, gen.Types...)))
				q = place(t, q, bad)
				text := gen.Text(t.Rand, q, gen.TextStyle{})
				agreeAt(t, text)
				t.Distinct(text)
			})
			c.Require("accepted", 2000)
			c.Require("rejected", 5000)
			c.Require("semantic_rejections", 5000)
		},
	})
}

// smallVal gives a term from a small pool, so that terms repeat.
func smallVal(t *fw.T, ty ref.VType) *ref.Val {
	lit := ""
	switch ty {
	case ref.VInt:
		lit = oneOf(t, "0", "1", "2", "-1", "01", "10", "-0", "9007199254740992", "9007199254740993")
	case ref.VFloat:
		lit = oneOf(t, "1.0", "1.00", "2.0", "1.5", "-1.0", "0.0", "-0.0", "10.0", "9007199254740992.0")
	case ref.VString:
		lit = oneOf(t, `"a"`, `"b"`, `"\u0061"`, `"1"`, `"true"`, `"A"`, `""`, `"a "`)
	case ref.VBool:
		lit = oneOf(t, "true", "false")
	case ref.VRegex:
		lit = oneOf(t, "/a/", "/b/", "/true/", "/1/", "//")
	case ref.VNet:
		lit = oneOf(t, "1.2.3.4", "1.2.3.4/32", "1.2.3.4/31", "1.2.3.0/24", "1.2.3.5/24")
	case ref.VTime:
		lit = oneOf(t, "2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T00:00:00+00:00", "2020-01-01T01:00:00+01:00", "2020-01-02", "2019-12-31T23:59:59.999999999Z", "1600-01-01", "3000-01-01")
	}
	n, err := ref.ParseOnly("a:" + lit)
	if err != nil {
		t.C.Fatalf("bad literal %s: %v", lit, err)
	}
	return n.Vals[0]
}

func respell(t *fw.T, v *ref.Val) *ref.Val {
	if chance(t, 40) {
		return v
	}
	return smallVal(t, v.Type)
}

func semantic(t *fw.T, op string, vals []*ref.Val) {
	if op == "" {
		op = "=="
	}
	e := ref.Expr(vpath, op, vals...)
	text := gen.ExprText(t.Rand, e, gen.TextStyle{})
	agreeAt(t, text)
	t.Distinct(text)
	t.Sample(map[string]any{"query": text})
}

// agreeAt also compares the position of the complaint.
func agreeAt(t *fw.T, q string) {
	agree(t, q)
	_, werr := ref.Parse(q)
	var se *ref.SemanticError
	if !errors.As(werr, &se) {
		return
	}
	t.Count("semantic_rejections")
	_, err := parse(t, q)
	var pe *parser.ParseError
	if !errors.As(err, &pe) {
		t.Failf("no parse error: %v", err)
	}
	want := posOf(q, se.Lo, se.Hi)
	if pe.Pos() != want {
		t.Failf("the complaint %q is at %+v, expected %+v (%s)", pe.Message(), pe.Pos(), want, werr)
	}
}

func posOf(q string, lo, hi int) ast.Pos {
	line := 1 + strings.Count(q[:lo], "\n")
	start := strings.LastIndexByte(q[:lo], '\n') + 1
	return ast.Pos{Line: line, Col: 1 + utf8.RuneCountInString(q[start:lo]), Offset: lo, Len: utf8.RuneCountInString(q[lo:hi])}
}

// place puts a condition somewhere in a tree.
func place(t *fw.T, n, e *ref.Node) *ref.Node {
	switch {
	case n.Kind == ref.KExpr || chance(t, 20):
		switch t.Intn(3) {
		case 0:
			return ref.And(n, e)
		case 1:
			return ref.Or(e, n)
		}
		return ref.And(n, ref.Not(e))
	case n.Kind == ref.KNot:
		return ref.Not(place(t, n.L, e))
	case chance(t, 50):
		return &ref.Node{Kind: n.Kind, L: place(t, n.L, e), R: n.R}
	}
	return &ref.Node{Kind: n.Kind, L: n.L, R: place(t, n.R, e)}
}

func randRunes(t *fw.T) string {
	var b strings.Builder
	for i := t.Intn(12); i > 0; i-- {
		switch t.Intn(8) {
		case 0:
			b.WriteByte(byte(t.Intn(0x20)))
		case 1:
			b.WriteRune(rune(0x80 + t.Intn(0x780)))
		case 2:
			b.WriteRune(rune(0x1f300 + t.Intn(0x200)))
		case 3:
			b.WriteString(oneOf(t, `"`, `\`, "/", "\x7f", "\u2028", "\ufeff", "\ufffd", "\uffff", "\u0301"))
		default:
			b.WriteByte(byte(0x20 + t.Intn(0x5f)))
		}
	}
	return b.String()
}

const mutChars = "()!:.,<>=~\"/\\*? \n\t-_aZ019AND OR NOT|&{}[]'`#\x00é"

// mutate changes a few places of a text.
func mutate(t *fw.T, s string) string {
	for k := 1 + t.Intn(3); k > 0; k-- {
		i := t.Intn(len(s) + 1)
		switch t.Intn(6) {
		case 0: // delete
			j := min(len(s), i+1+t.Intn(3))
			s = s[:i] + s[j:]
		case 1: // insert
			s = s[:i] + string(mutChars[t.Intn(len(mutChars))]) + s[i:]
		case 2: // replace
			if i < len(s) {
				s = s[:i] + string(mutChars[t.Intn(len(mutChars))]) + s[i+1:]
			}
		case 3: // duplicate a part
			j := min(len(s), i+1+t.Intn(10))
			s = s[:j] + s[i:j] + s[j:]
		case 4: // insert a token
			if chance(t, 10) {
				s = s[:i] + gen.Dict(t.Rand) + s[i:]
				break
			}
			s = s[:i] + oneOf(t, "AND", " AND ", "OR", " OR ", "NOT ", "!", "(", ")", "><", "exists", "null", "true", `"x"`, "/x/", "1.2.3.4", "2020-01-01", "*", ".*", "a:1") + s[i:]
		case 5: // cut off
			if chance(t, 30) {
				s = s[:i]
			}
		}
	}
	return s
}

func soup(t *fw.T) string {
	var b strings.Builder
	for i := 1 + t.Intn(14); i > 0; i-- {
		if chance(t, 2) {
			b.WriteString(gen.Dict(t.Rand))
		}
		b.WriteString(oneOf(t, "a", "b", "foo", ":", ":", ":", " ", " ", "AND", "OR", "NOT", "!", "(", ")", ",", ".", "*", `"s"`, `"a b"`, "1", "2.5", "-3", "true", "false", "exists", "null", "/r/", "1.2.3.4/8", "2020-01-01", "2020-01-01T00:00:00Z", "><", "<", ">=", "~", "=", "\n", "\t", `"`, "/", `\`, "é", " AND ", " OR ", "a:1", "b:exists", "c:(1,2)"))
	}
	return b.String()
}

// literals is a table of literals at and beyond the limits of their types, and of
// texts that look like them.
func literals() []string {
	lits := []string{}
	for _, f := range []string{"%d", "-%d", "0%d"} {
		for _, n := range []string{"0", "1", "9", "10", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "99999999999999999999999999"} {
			lits = append(lits, strings.Replace(f, "%d", n, 1))
		}
	}
	for _, a := range []string{"0", "1", "-1", "00", "123456789", "-0", "9007199254740993"} {
		for _, b := range []string{"0", "1", "5", "10", "000", "123456789012345678901234567890", "99999999999999999"} {
			lits = append(lits, a+"."+b)
		}
	}
	lits = append(lits, strings.Repeat("9", 308)+".0", strings.Repeat("9", 309)+".0", strings.Repeat("9", 400)+".5", "0."+strings.Repeat("0", 400)+"1",
		"1.", ".5", "+1", "1e5", "1E5", "1.5e3", "0x10", "1_000", "--1", "- 1", "-", "Inf", "NaN", "TRUE", "True", "true", "false", "FALSE", "truefalse", "tru", "falsey", "nul", "null", "exists", "exist")
	for _, o := range []string{"0", "1", "01", "00", "000", "9", "99", "199", "255", "256", "260", "300", "999", "1000"} {
		for _, s := range []string{"%s.0.0.1", "1.%s.3.4", "1.2.3.%s", "%s.%s.%s.%s"} {
			for _, p := range []string{"", "/0", "/8", "/08", "/00", "/9", "/31", "/32", "/33", "/99", "/100", "/", "/a", "/-1"} {
				lits = append(lits, strings.ReplaceAll(s, "%s", o)+p)
			}
		}
	}
	lits = append(lits, "1.2.3", "1.2", "1.2.3.4.5", "1..2.3", "::1", "fe80::1", "1.2.3.4:80")
	for _, d := range []string{"2020-01-01", "0000-01-01", "0001-01-01", "9999-12-31", "2020-02-29", "2021-02-29", "1900-02-29", "2000-02-29", "2020-13-01", "2020-00-01", "2020-01-00", "2020-01-32", "2020-04-31", "2020-1-1", "20200101", "2020-01-011", "12020-01-01", "-2020-01-01"} {
		lits = append(lits, d)
		for _, k := range []string{"T00:00:00Z", "T23:59:59Z", "T23:59:60Z", "T24:00:00Z", "T12:60:00Z", "T12:00:00", "T12:00Z", "T12:00:00.5Z", "T12:00:00.123456789Z", "T12:00:00.1234567891234Z", "T12:00:00,5Z", "T12:00:00.Z", "T12:00:00+00:00", "T12:00:00-00:00", "T12:00:00+14:00", "T12:00:00-23:59", "T12:00:00+24:00", "T12:00:00+25:00", "T12:00:00+01:60", "T12:00:00+0100", "T12:00:00+01", "t12:00:00Z", "T12:00:00z", " 12:00:00Z", " 12:00:00", "T", "Tfoo", "Z", "T1:00:00Z"} {
			lits = append(lits, d+k)
		}
	}
	for _, s := range []string{`""`, `"a"`, `"\""`, `"\\"`, `"\\\\"`, `"\/"`, `"\b\f\n\r\t"`, `"\u0041"`, `"\u00e9"`, `"\u00E9"`, `"\uFFFF"`, `"\u0000"`, `"\ud83d\ude00"`, `"\ud800"`, `"\u004"`, `"\u004g"`, `"\U0001F600"`, `"\x41"`, `"\101"`, `"\a"`, `"\v"`, `"\'"`, `"'"`, `"\0"`, `"\"`, `"`, `"a`, `a"`, `"a"b`, `"a""b"`, "\"\t\"", "\"\n\"", "\"\x00\"", "\"\x1f\"", "\"\x7f\"", "\"\u0080\"", "\"\u2028\"", "\"😀\"", "\"\uFFFD\"", "\"\xff\"", "`a`", "'a'", "“a”", `"?*\\?\\*"`} {
		lits = append(lits, s)
	}
	for _, s := range []string{`//`, `/a/`, `/a\/b/`, `/\//`, `/\\/`, `/\\\//`, `/a`, `/a\/`, `/\/`, `/[/]/`, `/[\/]/`, `/(/`, `/a/i`, `/(?i)a/`, "/a\nb/", "/a\\\nb/", "/a\tb/", `/"/`, `/\"/`, `/\d+/`, `/\u0041/`, `/\x{41}/`, `/a{1001}/`, `/a**/`, `/(?P<n>a)/`, `/(?<n>a)/`, `/(?=a)/`, `/\1/`, `/[[:alpha:]]/`, `/\pL/`, `/\p{Foo}/`, "/大/", "/\xff/", `/ /`, `/,/`, `/)/`, `/()/`, `/:/`, "/\r/", "/\\\r/", `/\Qa.b\E/`, `/\Qa/`, `/\`} {
		lits = append(lits, s)
	}
	return lits
}
