package regexp

import (
	"regexp/syntax"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

func verifCompile(e string) *Regexp {
	re, err := Compile(e)
	vsym.Assert(err == nil, "an expression does not compile")
	return re
}

// verifUsesText reports whether the expression looks at the ends of the text.
func verifUsesText(re *syntax.Regexp) bool {
	if re.Op == syntax.OpBeginText || re.Op == syntax.OpEndText {
		return true
	}
	for _, x := range re.Sub {
		if verifUsesText(x) {
			return true
		}
	}
	return false
}

// verifLine decides whether e is matched exactly in the lines it should be,
// for every line of n bytes.
func verifLine(e string, n int) {
	re := vref.Parse(e)
	bot, eot := true, true
	if verifUsesText(re) {
		bot, eot = vsym.Choice("bot", 2) == 0, vsym.Choice("eot", 2) == 0
	}
	b := vsym.Bytes("text", n)
	vsym.Assume(vref.Line(b))
	vsym.Assume(vref.Valid(b))
	got := verifCompile(e).Match(b, bot, eot)
	want := vref.NewText(b, bot, eot).Match(re)
	if got < 0 {
		vsym.Assert(vsym.Not(want), "a matching line is missed")
	} else {
		vsym.Assert(got == n, "the match does not end at the end of the line")
		vsym.Assert(want, "a line is reported that does not match")
	}
	vsym.Cover("matched")
}

// Every operator, every line of up to a few bytes.
func VerifC02_line() {
	e := vref.Exprs[vsym.Choice("expr", len(vref.Exprs))]
	if vsym.Choice("flags", 2) == 0 {
		e = "(?m)" + e
	} else if !vsym.Thorough() && !verifUsesText(vref.Parse(e)) {
		return
	}
	m := vsym.Pick(3, 5)
	verifLine(e, vsym.Choice("len", 1+max(m, min(m+1, vref.MinLen(vref.Parse(e))+1))))
}

// Random combinations of operators.
func VerifC02_random() {
	i := vsym.Choice("expr", vsym.Pick(150, 3000))
	r := vref.Seeded(vsym.Seed(), i)
	verifLine("(?m)"+r.Gen(2+i%2, vref.Leaves), vsym.Pick(4, 5))
}

// Several lines: the first matching line is found, and its end.
func VerifC02_lines() {
	exprs := []string{`a`, `^a`, `a$`, `^$`, `\ba`, `a\b`, `\B`, `a|\z`, `\Ab`, `a*b`, `[^a]`, `^a|b\z`, `(a|^b)c?$`, `\z`, `.`, `a\Bb|^-`}
	i := vsym.Choice("expr", 2*len(exprs))
	e := exprs[i/2]
	if i%2 == 0 {
		e = "(?m)" + e
	}
	re := vref.Parse(e)
	if i%2 == 1 && !verifUsesText(re) {
		return
	}
	n := vsym.Pick(4, 6)
	nl := vsym.Choice("newlines", 1<<n)
	bot, eot := true, true
	if verifUsesText(re) {
		bot, eot = vsym.Choice("bot", 2) == 0, vsym.Choice("eot", 2) == 0
	}
	b := vsym.Bytes("text", n)
	for j := range b {
		if nl>>j&1 != 0 {
			b[j] = '\n'
		} else {
			vsym.Assume(vsym.And(b[j] != '\n', b[j] < 0x80))
		}
	}
	got := verifCompile(e).Match(b, bot, eot)
	found := false
	start := 0
	for j := 0; j <= n; j++ {
		if j < n && nl>>j&1 == 0 {
			continue
		}
		m := vref.NewText(b[start:j], bot && start == 0, eot && j == n).Match(re)
		if got == j {
			vsym.Assert(m, "a line is reported that does not match")
			vsym.Cover("found")
			return
		}
		vsym.Assert(vsym.Not(m), "a matching line is missed")
		start = j + 1
	}
	_ = found
	vsym.Assert(got < 0, "the match does not end at the end of a line")
	vsym.Cover("none")
}

// A text given as a string is the same text.
func VerifC02_string() {
	exprs := []string{`(?m)a\b`, `(?m)^a*b`, `(?m)é|\Bk$`, `a\z`, `\Aa|b`, `(?mi)k.`}
	e := exprs[vsym.Choice("expr", len(exprs))]
	n := vsym.Pick(3, 4)
	bot, eot := vsym.Choice("bot", 2) == 0, vsym.Choice("eot", 2) == 0
	b := vsym.Bytes("text", n)
	got := verifCompile(e).MatchString(string(b), bot, eot)
	want := verifCompile(e).Match(b, bot, eot)
	vsym.Assert(got == want, "a string and the same bytes give different answers")
	vsym.Cover("compared")
}

// Expressions whose programs have hundreds or thousands of instructions, many of
// them alive at the same time.
func VerifC02_large() {
	type tc struct {
		e, prefix string
		n         int
		abc       string
	}
	cases := []tc{
		{`ab|x\pL{25}c|[é-ü]e`, "", 3, "aée"}, {`ab|x\pL{3}c|[é-ü]e`, "", 3, "aée"},
		{`(?:abcdefghij){12}k|bc`, "", 3, "abck"}, {`(?:abcdefghij){25}k|b[cd]`, "", 3, "abcd"}, {`ab|(?:abcdefghij){40}k|bd`, "", 3, "abcd"},
		{`.{15}k|qr|^r`, "", 2, "kqrs"}, {`.{30}k|q[rs]$`, "", 2, "kqrsé"}, {`\pL{3}c|bd|^c`, "", 2, "bcdé"}, {`\pL{4}c|b[de]`, "", 3, "bde"}, {`(?i)\pL{2}z|bk`, "", 2, "BKzk"},
		{`\p{Han}\pN|\bb|c.d`, "", 3, "bcd5"}, {`[^a]{20}b`, "xxxxxxxxxxxxxxxxxxé", 3, "abc"}, {`a.{20}b`, "aaxxxaxxxxxxxxxxxxxx", 3, "abc"},
		{`(?:a|b)*a(?:a|b){6}c`, "abba", 5, "abc"}, {`(?:a|b|)a(?:a|b){9}c`, "abbabab", 5, "abc"}, {`^(?:ab?){1,12}$`, "abaab", 5, "abc"}, {`(?:abcdefghij){30}k`, "0abcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefgh", 4, "hijk"},
	}
	c := cases[vsym.Choice("case", len(cases))]
	e := "(?m)" + c.e
	re := vref.Parse(e)
	rx := verifCompile(e)
	b := append([]byte(c.prefix), vsym.Bytes("text", c.n)...)
	for i := len(c.prefix); i < len(b); i++ {
		is := false
		for j := 0; j < len(c.abc); j++ {
			is = vsym.Or(is, b[i] == c.abc[j])
		}
		vsym.Assume(is)
	}
	vsym.Assume(vref.Valid(b))
	got := rx.Match(b, true, true)
	want := vref.NewText(b, true, true).Match(re)
	if got < 0 {
		vsym.Assert(vsym.Not(want), "a matching line is missed")
	} else {
		vsym.Assert(got == len(b), "the match does not end at the end of the line")
		vsym.Assert(want, "a line is reported that does not match")
		vsym.Cover("match")
	}
	vsym.Cover("matched")
}
