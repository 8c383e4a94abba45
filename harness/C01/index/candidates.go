package index

import (
	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// The whole way from an expression to the list of candidate files: files with
// any content of a few letters, indexed, opened and asked.
func VerifC01_candidates() {
	exprs := []string{
		`aba`, `(?i)aBa`, `a.b`, `(aab|bba)`, `a[ab]+b`, `(ab|ba)a`, `ab?ab`, `aba.*aab`, `a(ba)*b`, `ab|b`, `[ab][ab]b`, `^abab$`, `abaa|bbbb`, `(aab|abb)(a|b)`, `\bbaa`, `b{3}a`, `(abb)+`, `xyz`, `a*`, `(aba|bab)b?(aab|)`,
	}
	e := "(?m)" + exprs[vsym.Choice("expr", len(exprs))]
	version := 2
	if vsym.Thorough() {
		version = 1 + vsym.Choice("version", 2)
	}
	n := vsym.Pick(4, 5)
	files := []verifFile{
		{"d/a", verifText("text", n, 2)},
		{"d/b", "aab\nbab\nabba\n"},
		{"d/c", "bbab"},
	}
	ix := verifBuild("candidates", version, []string{"d"}, files)
	got := ix.PostingQuery(RegexpQuery(vref.Parse(e)))
	for i, f := range files {
		m := false
		line := 0
		for j := 0; j <= len(f.data); j++ {
			if j == len(f.data) || !vsym.IsSymbolic(int(f.data[j])) && f.data[j] == '\n' {
				m = vsym.Or(m, vref.NewText([]byte(f.data[line:j]), true, true).Match(vref.Parse(e)))
				line = j + 1
			}
		}
		in := false
		for _, x := range got {
			in = vsym.Or(in, x == i)
		}
		vsym.Assert(vsym.Implies(m, in), "a file with a matching line is not among the candidates")
	}
	vsym.Cover("asked")
}
