package index

import "github.com/google/codesearch/internal/vsym"

// verifRel is a path: pre and n more bytes, the last of them no slash.
func verifRel(tag, pre string, n int, member bool) string {
	b := []byte(pre)
	for i := 0; i < n; i++ {
		c := vsym.Byte(tag)
		if member {
			vsym.Assume(vsym.Or(c >= ' ', c == 1))
		} else {
			vsym.Assume(c >= ' ')
		}
		if i == n-1 {
			vsym.Assume(vsym.And(c != '/', c != 1))
		}
		b = append(b, c)
	}
	return string(b)
}

// verifPut indexes names (in order, any content) under roots.
func verifPut(file string, version int, roots, names []string, data func(i int) string) {
	verifWithVersion(version, func() {
		ix := Create(verifTmp(file))
		var rs []Path
		for _, r := range roots {
			rs = append(rs, MakePath(r))
		}
		ix.AddRoots(rs)
		for i, n := range names {
			if err := verifAdd(ix, n, &verifReader{data: data(i)}); err != nil {
				vsym.Fail("adding a file fails")
			}
		}
		ix.Flush()
	})
}

func verifTrio(i int) string { return "q" + string([]byte{byte('a' + i)}) + "z" }

// verifCheckMerge merges old and new and compares the result with its meaning.
// Each file holds one trigram of its own and one shared by all.
func verifCheckMerge(v1, v2 int, oldRoots, oldNames, newRoots, newNames []string) {
	own := func(k int) func(int) string {
		return func(i int) string { return verifTrio(k+i) + "\nsha" }
	}
	verifPut("old", v1, oldRoots, oldNames, own(0))
	verifPut("new", v2, newRoots, newNames, own(len(oldNames)))
	Merge(verifTmp("out"), verifTmp("old"), verifTmp("new"))
	ix := Open(verifTmp("out"))
	names := verifIndexNames(ix)

	// names
	all := append(append([]string{}, oldNames...), newNames...)
	stay := make([]bool, len(all))
	n := 0
	for i, p := range all {
		stay[i] = true
		if i < len(oldNames) {
			for _, r := range newRoots {
				stay[i] = vsym.And(stay[i], vsym.Not(verifUnder(p, r)))
			}
		}
		n = vsym.IteInt(stay[i], n+1, n)
	}
	vsym.Assert(n == len(names), "the merged index has the wrong number of files")
	vsym.Assert(verifSorted(names), "the merged names are not in path order")
	at := make([]int, len(all)) // new ids
	for i, p := range all {
		in := false
		for j, q := range names {
			e := verifEq(p, q)
			in = vsym.Or(in, e)
			at[i] = vsym.IteInt(e, j, at[i])
		}
		if i >= len(oldNames) {
			vsym.Assert(in, "a file of the newer index is missing")
		} else {
			// a name may also be in the newer index
			vsym.Assert(vsym.Iff(in, vsym.Or(stay[i], verifOneOf(p, newNames))), "a file of the older index is wrongly kept or dropped")
		}
	}
	// posting lists
	for i := range all {
		s := verifTrio(i)
		l := ix.PostingList(uint32(s[0])<<16 | uint32(s[1])<<8 | uint32(s[2]))
		ok := vsym.And(vsym.Not(stay[i]), len(l) == 0)
		if len(l) == 1 {
			ok = vsym.And(stay[i], l[0] == at[i])
		}
		vsym.Assert(ok, "a posting list of the merged index is wrong")
	}
	sh := ix.PostingList('s'<<16 | 'h'<<8 | 'a')
	ok := len(sh) == len(names)
	for i, id := range sh {
		ok = ok && id == i
	}
	vsym.Assert(ok, "the posting list shared by all files is wrong")

	// roots
	roots := verifIndexRoots(ix)
	allr := append(append([]string{}, oldRoots...), newRoots...)
	vsym.Assert(verifSorted(roots), "the merged roots are not in path order")
	for _, r := range allr {
		covered := false
		for _, s := range allr {
			covered = vsym.Or(covered, vsym.And(vsym.Not(verifEq(r, s)), verifUnder(r, s)))
		}
		vsym.Assert(vsym.Iff(verifOneOf(r, roots), vsym.Not(covered)), "a root is wrongly kept or dropped")
	}
	for _, r := range roots {
		vsym.Assert(verifOneOf(r, allr), "a root is invented")
	}
	vsym.Cover("merged")
	if len(names) < len(all) {
		vsym.Cover("replaced")
	}
}

func verifNoNest(roots []string) {
	for i := range roots {
		for j := range roots {
			if i != j {
				vsym.Assume(vsym.Not(verifUnder(roots[i], roots[j])))
			}
		}
	}
}

func verifAllUnder(names, roots []string) {
	for _, p := range names {
		u := false
		for _, r := range roots {
			u = vsym.Or(u, verifUnder(p, r))
		}
		vsym.Assume(u)
	}
}

// Names around one root: everything that sorts near it.
func VerifC11_aroundRoot() {
	root := "a"
	var old, new []string
	k := 1 + vsym.Choice("old", vsym.Pick(3, 4))
	for i := 0; i < k; i++ {
		old = append(old, verifRel("o", "a", 1+vsym.Choice("len", vsym.Pick(2, 3)), true))
	}
	if vsym.Choice("self", 2) == 1 {
		old = append([]string{"a"}, old...)
	}
	m := vsym.Choice("new", vsym.Pick(2, 3))
	for i := 0; i < m; i++ {
		new = append(new, verifRel("n", "a", 2, true))
	}
	if vsym.Choice("newself", 2) == 1 {
		new = append([]string{"a"}, new...)
	}
	vsym.Assume(verifSorted(old))
	vsym.Assume(verifSorted(new))
	verifAllUnder(new, []string{root})
	verifCheckMerge(2, 2, []string{"a"}, old, []string{root}, new)
}

// Any two roots on either side.
func VerifC11_roots() {
	var oldRoots, newRoots []string
	for i := 0; i < 2; i++ {
		oldRoots = append(oldRoots, verifRel("p", "a", vsym.Choice("plen", 3), false))
	}
	n := 1 + vsym.Choice("new", 2)
	for i := 0; i < n; i++ {
		newRoots = append(newRoots, verifRel("r", "a", vsym.Choice("rlen", 3), false))
	}
	vsym.Assume(verifSorted(oldRoots))
	vsym.Assume(verifSorted(newRoots))
	verifNoNest(oldRoots)
	verifNoNest(newRoots)
	var old, new []string
	for _, r := range oldRoots {
		old = append(old, r+"/x")
	}
	for _, r := range newRoots {
		new = append(new, r+"/y")
	}
	vsym.Assume(verifSorted(old))
	vsym.Assume(verifSorted(new))
	verifCheckMerge(2, 2, oldRoots, old, newRoots, new)
}

// Old files before, inside, between and after two new roots.
func VerifC11_between() {
	newRoots := []string{"b", "d"}
	var old []string
	k := 2 + vsym.Choice("old", vsym.Pick(3, 4))
	for i := 0; i < k; i++ {
		c := vsym.Byte("o")
		vsym.Assume(vsym.And(c >= 'a', c <= 'e'))
		s := string([]byte{c}) + "/" + string([]byte{byte('p' + i)})
		old = append(old, s)
	}
	vsym.Assume(verifSorted(old))
	var new []string
	for _, r := range newRoots {
		if vsym.Choice("has", 2) == 1 {
			new = append(new, r+"/n")
		}
	}
	verifCheckMerge(2, 2, []string{"a", "b", "c", "d", "e"}, old, newRoots, new)
}

// The root directory as a root.
func VerifC11_slash() {
	old := []string{"/a", "/b/c"}
	new := []string{verifRel("n", "/", 1, false), verifRel("n", "/", 2, false)}
	vsym.Assume(verifSorted(new))
	if vsym.Choice("older", 2) == 1 {
		// the older index covers everything
		newRoots := []string{verifRel("r", "/", 1, false)}
		nn := []string{newRoots[0] + "/x"}
		verifCheckMerge(2, 2, []string{"/"}, old, newRoots, nn)
		return
	}
	verifCheckMerge(2, 2, []string{"/b"}, old[1:], []string{"/"}, new)
}
