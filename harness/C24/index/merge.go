package index

import "github.com/google/codesearch/internal/vsym"

func verifWriteAny(version int, file string, roots, names []string, lists []verifList) {
	if version == 1 {
		verifWriteV1(file, roots, names, lists)
	} else {
		verifWriteV2(file, roots, names, lists)
	}
}

// Merging gives the same index whatever formats the two have.
func VerifC24_merge() {
	v := vsym.Choice("formats", 3) // of the four, all but both current
	oldRoots := []string{"a", "b"}
	newRoots := []string{"b"}
	if vsym.Choice("inside", 2) == 1 {
		newRoots = []string{"a/s"}
	}
	var old, new []string
	k := 1 + vsym.Choice("old", vsym.Pick(2, 3))
	for i := 0; i < k; i++ {
		b := []byte{'a', '/', vsym.Byte("old")}
		vsym.Assume(b[2] > ' ')
		if vsym.Choice("deep", 2) == 1 {
			b = append(b, '/', 'x')
		}
		old = append(old, string(b))
	}
	old = append(old, "b/y")
	m := vsym.Choice("new", 2)
	for i := 0; i < m; i++ {
		c := vsym.Byte("new")
		vsym.Assume(c > ' ')
		new = append(new, newRoots[0]+"/"+string([]byte{c}))
	}
	vsym.Assume(verifSorted(old))
	vsym.Assume(verifSorted(new))
	lo := verifMembership(len(old), []string{"abc", "bcd"}[:vsym.Pick(1, 2)])
	ln := verifMembership(len(new), []string{"abc", "xyz"})
	verifWriteAny(v>>1+1, verifTmp("old"), oldRoots, old, lo)
	verifWriteAny(v&1+1, verifTmp("new"), newRoots, new, ln)
	Merge(verifTmp("m1"), verifTmp("old"), verifTmp("new"))
	verifWriteV2(verifTmp("old2"), oldRoots, old, lo)
	verifWriteV2(verifTmp("new2"), newRoots, new, ln)
	Merge(verifTmp("m2"), verifTmp("old2"), verifTmp("new2"))
	m1, m2 := Open(verifTmp("m1")), Open(verifTmp("m2"))
	verifAgree(m1, m2, verifNumNames(m2))
	for _, t := range verifTris {
		t := uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])
		vsym.Assert(verifSameList(m1.PostingList(t), m2.PostingList(t)), "the formats disagree on a merged posting list")
	}
	code := verifTry(func() {
		if m1.Check() != nil {
			panic("check")
		}
	})
	vsym.Assert(code == 0, "an index merged from the older format fails the check")
	vsym.Cover("merged")
}
