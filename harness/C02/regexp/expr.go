package regexp

import (
	"regexp/syntax"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// Any expression of a few bytes at all: it is accepted if and only if the
// syntax package accepts it, and then matches what it means.
func VerifC02_anyExpr() {
	b := make([]byte, 1+vsym.Choice("expr length", vsym.Pick(3, 4)))
	for i := range b {
		b[i] = vsym.Byte("expr")
		vsym.Assume(vsym.And(b[i] >= ' ', b[i] < 0x7f))
	}
	e := string(b)
	tree, err := syntax.Parse("(?m)"+e, syntax.Perl)
	re, err2 := Compile("(?m)" + e)
	vsym.Assert((err == nil) == (err2 == nil), "an expression is accepted that is not one, or the other way round")
	if err != nil {
		vsym.Cover("error")
		return
	}
	text := make([]byte, vsym.Choice("len", vsym.Pick(2, 3)))
	for i := range text {
		text[i] = vsym.Byte("text")
		vsym.Assume(vsym.And(text[i] >= ' ', text[i] < 0x7f))
	}
	want := vref.NewText(text, true, true).Match(tree)
	vsym.Assert((re.Match(text, true, true) >= 0) == want, "an expression does not match what it means")
	vsym.Cover("compared")
}
