package index

import (
	"os"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// An archive is indexed as its members would be as files of their own.
func VerifC22_index() {
	d := vsym.TempDir()
	n := 1 + vsym.Choice("len", vsym.Pick(3, 4))
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte("text")
		vsym.Assume(vsym.Or(b[i] == 'a', vsym.Or(b[i] == '\n', vsym.Or(b[i] == 0, b[i] == 0xff))))
	}
	names := []string{"m", "d/m", "d-m", "d/e/f"}
	i, j := vsym.Choice("first", 4), vsym.Choice("second", 4)
	vsym.Assume(i != j)
	texts := map[string]string{names[i]: string(b), names[j]: "xaaay"}
	z := d + "/x.zip"
	err := os.WriteFile(z, []byte(vref.Zip(vref.Member{Name: names[i], Text: string(b), Kind: 3}, vref.Member{Name: names[j], Text: "xaaay", Kind: vsym.Choice("kind", 4)})), 0600)
	vsym.Assert(err == nil, "setup: cannot write")
	one := Create(d + "/one")
	one.Zip = true
	vsym.Assert(one.AddFile(z) == nil, "an archive is not accepted")
	one.Flush()
	two := Create(d + "/two")
	order := []string{names[i], names[j]}
	vref.PathSort(order)
	for _, n := range order {
		f := d + "/file"
		vsym.Assert(os.WriteFile(f, []byte(texts[n]), 0600) == nil, "setup: cannot write")
		r, err := os.Open(f)
		vsym.Assert(err == nil, "setup: cannot open")
		vsym.Assert(two.Add(z+"-"+n, r) == nil, "setup: cannot index") // a name like that of the member
		r.Close()
	}
	two.Flush()
	x, y := Open(d+"/one"), Open(d+"/two")
	all := x.PostingQuery(&Query{Op: QAll})
	vsym.Assert(len(all) == len(y.PostingQuery(&Query{Op: QAll})), "an archive is not indexed as its members")
	for _, k := range all {
		a, c := x.Name(k).String(), y.Name(k).String()
		vsym.Assert(len(a) == len(c) && a[:len(z)] == z && a[len(z)] == 1 && a[len(z)+1:] == c[len(z)+1:], "a member is not indexed by its name")
	}
	for _, q := range []*Query{{Op: QAll}, {Op: QAnd, Trigram: []string{"aaa"}}, {Op: QAnd, Trigram: []string{"aa\n"}}, {Op: QAnd, Trigram: []string{"a\na"}}, {Op: QAnd, Trigram: []string{"xaa", "aay"}}} {
		p, r := x.PostingQuery(q), y.PostingQuery(q)
		vsym.Assert(len(p) == len(r), "an archive is not indexed as its members")
		for k := range p {
			vsym.Assert(p[k] == r[k], "an archive is not indexed as its members")
		}
	}
	vsym.Cover("same")
}
