package index

import "github.com/google/codesearch/internal/vsym"

// verifMergeFiles merges two sets of files and checks names and the posting list
// of any trigram; the old files outside the roots of the new index stay.
func verifMergeFiles(v1, v2 int, oldRoots []string, old []verifFile, newRoots []string, new []verifFile) {
	verifWrite(verifTmp("old"), v1, oldRoots, old)
	verifWrite(verifTmp("new"), v2, newRoots, new)
	Merge(verifTmp("out"), verifTmp("old"), verifTmp("new"))
	verifCheckAgainst(Open(verifTmp("out")), verifExpected(old, newRoots, new))
}

// verifExpected is the merged list of files (names are concrete here).
func verifExpected(old []verifFile, newRoots []string, new []verifFile) []verifFile {
	var want []verifFile
	i, j := 0, 0
	for i < len(old) || j < len(new) {
		if i < len(old) {
			drop := false
			for _, r := range newRoots {
				drop = drop || verifUnder(old[i].name, r)
			}
			if drop {
				i++
				continue
			}
		}
		if j == len(new) || i < len(old) && verifLess(old[i].name, new[j].name) {
			want = append(want, old[i])
			i++
		} else {
			want = append(want, new[j])
			j++
		}
	}
	return want
}

func verifCheckAgainst(ix *Index, want []verifFile) {
	names := verifIndexNames(ix)
	vsym.Assert(len(names) == len(want), "the merged index has the wrong number of files")
	for i, f := range want {
		vsym.Assert(names[i] == f.name && ix.Name(i).String() == f.name, "a merged name is wrong")
	}
	t := verifTrigram("t")
	got := ix.PostingList(t)
	conc := true
	for _, x := range got {
		conc = conc && !vsym.IsSymbolic(x)
	}
	m := verifMembers(want, t)
	if conc {
		vsym.Assert(verifConcList(got, m), "a merged posting list is wrong")
	} else {
		vsym.Assert(verifIsList(got, m), "a merged posting list is wrong")
	}
	vsym.Cover("merged")
}

func verifConcList(list []int, member []bool) bool {
	ok := true
	at := make([]bool, len(member))
	for i, x := range list {
		if x < 0 || x >= len(member) || i > 0 && list[i-1] >= x {
			return false
		}
		at[x] = true
	}
	for i := range member {
		if at[i] {
			ok = vsym.And(ok, member[i])
		} else {
			ok = vsym.And(ok, vsym.Not(member[i]))
		}
	}
	return ok
}

// Any small contents on both sides.
func VerifC11_contents() {
	file := func(n string, l int) verifFile { return verifFile{n, verifText("c", l, 2)} }
	l := vsym.Pick(3, 4)
	switch vsym.Choice("layout", 4) {
	case 0: // replace the middle
		verifMergeFiles(2, 2, []string{"a", "b", "c"}, []verifFile{file("a/x", 3), file("b/x", l), {"c/x", "abba"}},
			[]string{"b"}, []verifFile{file("b/y", l)})
	case 1: // new before and after
		verifMergeFiles(2, 2, []string{"b"}, []verifFile{{"b/x", "aab"}, file("b/y", l)},
			[]string{"a", "c"}, []verifFile{file("a/x", 3), {"c/y", "abb"}})
	case 2: // remove files
		verifMergeFiles(2, 2, []string{"a"}, []verifFile{{"a/x", "aba"}, file("a/y", l), file("a/z/p", 3)},
			[]string{"a/z"}, nil)
	case 3: // replace everything
		verifMergeFiles(2, 2, []string{"a"}, []verifFile{file("a/x", 4)},
			[]string{"a"}, []verifFile{file("a/x", 3), file("a/y", l)})
	}
}

// Many files: id ranges that cross the groups of the name list.
func VerifC11_many() {
	dirs := "abcdef"
	per := []int{16, 3, 15, 17}[vsym.Choice("per", vsym.Pick(1, 4))]
	mk := func(ds string, gen int) (l []verifFile) {
		for i := range ds {
			for j := 0; j < per; j++ {
				n := ds[i:i+1] + "/f" + string([]byte{byte('0' + j/10), byte('0' + j%10)})
				data := "k" + string([]byte{byte('a' + j), byte('A' + gen)}) + ds[i:i+1]
				if gen == 0 || j%3 == 0 {
					l = append(l, verifFile{n, data})
				}
			}
		}
		return
	}
	roots := func(ds string) (l []string) {
		for i := range ds {
			l = append(l, ds[i:i+1])
		}
		return
	}
	mask := 0
	if vsym.Thorough() {
		mask = vsym.Choice("mask", 64)
	} else {
		mask = []int{0, 1, 2, 4, 6, 10, 33, 32, 42, 63}[vsym.Choice("mask", 10)]
	}
	sel := ""
	for i := range dirs {
		if mask>>i&1 != 0 {
			sel += dirs[i : i+1]
		}
	}
	oldDirs := dirs
	if vsym.Choice("gap", 2) == 1 {
		oldDirs = "bde"
	}
	verifMergeFiles(2, 2, roots(oldDirs), mk(oldDirs, 0), roots(sel), mk(sel, 1))
}

// Many trigrams: several blocks of the posting index on both sides.
func VerifC11_blocks() {
	n1 := []int{1, 50, 51, 52, 103}[vsym.Choice("n1", 5)]
	n2 := []int{2, 51, 52, 70, 104}[vsym.Choice("n2", vsym.Pick(3, 5))]
	s := verifSpreadN(220)
	verifMergeFiles(2, 2, []string{"a", "b"}, []verifFile{{"a/x", s[:n1+2]}, {"b/x", s[20 : 20+n1+2]}},
		[]string{"b"}, []verifFile{{"b/y", s[30 : 30+n2+2]}})
}

func verifSpreadN(n int) string {
	b := make([]byte, n+2)
	for i := range b {
		b[i] = byte('!' + (i*(i/89*2+1)+i/89)%89)
	}
	return string(b)
}
