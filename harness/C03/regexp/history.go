package regexp

import (
	"regexp/syntax"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

var verifHistory = []string{
	`(?m)a`, `(?m)^a`, `(?m)a$`, `(?m)^$`, `(?m)\ba`, `(?m)a\b`, `(?m)\B`, `a\z`, `\Aa`, `(?m)a*b`, `(?m)[^a]b`, `(?m)\Aa|^b`, `(?m)a$|b\z`, `(?m)(a|^b)c?$`, `(?m)é`, `(?im)k`, `(?m)\b.\b`, `(?m)ab|\Bb`, `(?m)^a\B|-$`, `\z`, `\A`, `(?m)\A^a|b`,
}

// verifUsesText reports whether the expression looks at the ends of the text.
func verifUsesText(re *syntax.Regexp) bool {
	if re.Op == syntax.OpBeginText || re.Op == syntax.OpEndText {
		return true
	}
	for _, x := range re.Sub {
		if verifUsesText(x) {
			return true
		}
	}
	return false
}

func verifAny(tag string, n int) []byte {
	b := vsym.Bytes(tag, n)
	return b
}

func verifNew(e string) *Regexp {
	re, err := Compile(e)
	vsym.Assert(err == nil, "an expression does not compile")
	return re
}

// One expression matches several texts; the last answer is that of a fresh one.
func VerifC03_again() {
	e := verifHistory[vsym.Choice("expr", len(verifHistory))]
	re, fresh := verifNew(e), verifNew(e)
	uses := verifUsesText(vref.Parse(e))
	flag := func(tag string) bool { return uses && vsym.Choice(tag, 2) == 0 }
	first := verifAny("first", vsym.Choice("len", 3))
	re.Match(first, flag("bot"), flag("eot"))
	b := verifAny("second", vsym.Pick(2, 3))
	bot, eot := flag("bot"), flag("eot")
	got := re.Match(b, bot, eot)
	want := fresh.Match(b, bot, eot)
	vsym.Assert(got == want, "an earlier match changes the answer")
	vsym.Cover("compared")
}

// Longer histories over a few bytes, against the meaning of the expression.
func VerifC03_series() {
	e := verifHistory[vsym.Choice("expr", len(verifHistory))]
	re := verifNew(e)
	r := vref.Parse(e)
	for i := 0; i < vsym.Pick(3, 4); i++ {
		b := verifAny("text", vsym.Pick(1, 2))
		vsym.Assume(vref.Line(b))
		for _, c := range b {
			vsym.Assume(c < 0x80)
		}
		bot, eot := vsym.Choice("bot", 2) == 0, vsym.Choice("eot", 2) == 0
		want := vref.NewText(b, bot, eot).Match(r)
		var got int
		if i%2 == 0 {
			got = re.Match(b, bot, eot)
		} else {
			got = re.MatchString(string(b), bot, eot)
		}
		vsym.Assert(vsym.Iff(got == len(b), want), "an earlier match changes the answer")
		vsym.Assert(got == len(b) || got < 0, "the answer is not the end of the line")
	}
	vsym.Cover("series")
}

// Another expression in between.
func VerifC03_others() {
	exprs := []string{`(?m)a`, `(?m)\ba|^$`, `b\z`, `(?m)ab*$`}
	e := exprs[vsym.Choice("expr", len(exprs))]
	f := exprs[vsym.Choice("other", len(exprs))]
	re, other, fresh := verifNew(e), verifNew(f), verifNew(e)
	a := verifAny("first", vsym.Pick(1, 2))
	re.Match(a, true, true)
	other.Match(a, true, true)
	b := verifAny("second", 2)
	other.Match(b, false, false)
	got := re.Match(b, true, true)
	vsym.Assert(got == fresh.Match(b, true, true), "matching another expression changes the answer")
	vsym.Cover("compared")
}

// A text is matched the same way however it was matched before, and is not changed.
func VerifC03_twice() {
	e := verifHistory[vsym.Choice("expr", len(verifHistory))]
	re := verifNew(e)
	n := vsym.Pick(3, 4)
	b := verifAny("text", n)
	c := append([]byte{}, b...)
	bot, eot := vsym.Choice("bot", 2) == 0, vsym.Choice("eot", 2) == 0
	x := re.Match(b, bot, eot)
	vsym.Assert(vsym.EqBytes(b, c), "matching changes the text")
	y := re.MatchString(string(b), bot, eot)
	z := re.Match(b, bot, eot)
	vsym.Assert(x == y && y == z, "the same text gets different answers")
	vsym.Cover("compared")
}
