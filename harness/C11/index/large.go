package index

import "github.com/google/codesearch/internal/vsym"

// Indexes several times as large as the buffers: the middle of the older one is
// replaced.
func VerifC11_large() {
	n := vsym.Pick(7000, 19500)
	nf := vsym.Pick(5, 6)
	var old []verifFile
	for i := 0; i < nf; i++ {
		old = append(old, verifFile{"r/" + string(rune('a'+i/2)) + "/" + string(rune('p'+i)), verifLarge(i+1, n)})
	}
	var new []verifFile
	r := "r/" + string(rune('a'+vsym.Choice("root", 3)))
	nn := vsym.Choice("new", 3)
	for i := 0; i < nn; i++ {
		new = append(new, verifFile{r + "/" + string(rune('q'+i)), verifLarge(i+11, n)})
	}
	verifWrite(verifTmp("old"), 2, []string{"r"}, old)
	verifWrite(verifTmp("new"), 2, []string{r}, new)
	Merge(verifTmp("out"), verifTmp("old"), verifTmp("new"))
	want := verifExpected(old, []string{r}, new)
	ix := Open(verifTmp("out"))
	names := verifIndexNames(ix)
	vsym.Assert(len(names) == len(want), "the merged index has the wrong number of files")
	for i, f := range want {
		vsym.Assert(names[i] == f.name, "a merged name is wrong")
	}
	verifCheckLarge(ix, want, vsym.Pick(61, 17))
	vsym.Cover("merged")
}

// More files than 16 bits can number, shifted by the merge.
func VerifC11_manyFiles() {
	const n = 1<<16 + 40
	ix := Create(verifTmp("old"))
	ix.AddRoots([]Path{MakePath("a"), MakePath("d")})
	name := func(i int) string {
		return "d/" + string([]byte{'a' + byte(i>>12), 'a' + byte(i>>8&15), 'a' + byte(i>>4&15), 'a' + byte(i&15)})
	}
	gone := vsym.Choice("gone", 3)
	for i := 0; i < gone; i++ {
		ix.Add("a/"+string(rune('p'+i)), &verifReader{data: "xyzw"})
	}
	for i := 0; i < n; i++ {
		t := "xyz"
		if i%107 == 3 || i >= 1<<16-3 && i <= 1<<16+3 {
			t = "xyzw"
		}
		ix.Add(name(i), &verifReader{data: t})
	}
	ix.Flush()
	nx := Create(verifTmp("new"))
	nx.AddRoots([]Path{MakePath("a"), MakePath("e")})
	nx.Add("a/q", &verifReader{data: "yzw"})
	nx.Add("e/r", &verifReader{data: "yzw"})
	nx.Flush()
	Merge(verifTmp("out"), verifTmp("old"), verifTmp("new"))
	r := Open(verifTmp("out"))
	l := r.PostingList('y'<<16 | 'z'<<8 | 'w')
	want := []int{0}
	for i := 0; i < n; i++ {
		if i%107 == 3 || i >= 1<<16-3 && i <= 1<<16+3 {
			want = append(want, i+1)
		}
	}
	want = append(want, n+1)
	vsym.Assert(verifEqualInts(l, want), "a merged posting list is wrong")
	for i := 0; i < n; i += 4095 {
		vsym.Assert(r.Name(i+1).String() == name(i), "a merged name is wrong")
	}
	vsym.Assert(r.Name(n+1).String() == "e/r", "a merged name is wrong")
	vsym.Cover("merged")
}
