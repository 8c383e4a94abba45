package index

import (
	"regexp/syntax"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// Any expression of a few bytes at all, for letters a few.
func VerifC01_anyExpr() {
	n := vsym.Pick(5, 7)
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte("expr")
		c := b[i]
		vsym.Assume(vsym.Or(vsym.And(c >= '(', c <= '+'), vsym.Or(vsym.And(c >= 'a', c <= 'c'), vsym.Or(c == '|', vsym.Or(c == '?', c == '.')))))
	}
	tree, err := syntax.Parse(string(b), syntax.Perl)
	if err != nil {
		return
	}
	q := RegexpQuery(tree)
	text := make([]byte, max(vsym.Pick(4, 5), vref.MinLen(tree)+1))
	for i := range text {
		text[i] = vsym.Byte("text")
		vsym.Assume(vsym.And(text[i] >= 'a', text[i] <= 'c'))
	}
	want := vref.NewText(text, false, false).Match(tree)
	vsym.Assert(vsym.Implies(want, verifHolds(q, text)), "a matching line does not satisfy the query")
	vsym.Cover("compared")
}
