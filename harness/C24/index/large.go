package index

import (
	"slices"

	"github.com/google/codesearch/internal/vsym"
)

// An older index with tens of thousands of lists, and merging it with a current
// one.
func VerifC24_large() {
	n := vsym.Pick(7000, 19500)
	var files []verifFile
	var names []string
	for i := 0; i < 4; i++ {
		f := verifFile{"r/" + string(rune('a'+i/2)) + "/" + string(rune('p'+i)), verifLarge(i+1, n)}
		files = append(files, f)
		names = append(names, f.name)
	}
	ids := map[uint32][]int{}
	var order []uint32
	for i, f := range files {
		verifTrigrams(f.data, func(t uint32) {
			l := ids[t]
			if l == nil {
				order = append(order, t)
			}
			if len(l) == 0 || l[len(l)-1] != i {
				ids[t] = append(l, i)
			}
		})
	}
	slices.Sort(order)
	var lists []verifList
	for _, t := range order {
		lists = append(lists, verifList{string([]byte{byte(t >> 16), byte(t >> 8), byte(t)}), ids[t]})
	}
	file := verifTmp("older")
	verifWriteV1(file, []string{"r"}, names, lists)
	if vsym.Choice("merge", 2) == 1 {
		root := "r/" + string(rune('a'+vsym.Choice("root", 3)))
		new := []verifFile{{root + "/q", verifLarge(11, n)}}
		verifWrite(verifTmp("new"), 2, []string{root}, new)
		Merge(verifTmp("out"), file, verifTmp("new"))
		file = verifTmp("out")
		var want []verifFile
		for _, f := range files {
			if f.name[:3] < root {
				want = append(want, f)
			}
		}
		want = append(want, new...)
		for _, f := range files {
			if f.name[:3] > root {
				want = append(want, f)
			}
		}
		files = want
		vsym.Cover("merged")
	}
	ix := Open(file)
	for i, f := range files {
		vsym.Assert(ix.Name(i).String() == f.name, "a name of an older index is wrong")
	}
	verifCheckLarge(ix, files, vsym.Pick(61, 17))
}
