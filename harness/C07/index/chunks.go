package index

import "github.com/google/codesearch/internal/vsym"

// Files that arrive in pieces, among them pieces of one byte, any contents.
func VerifC07_chunks() {
	n := vsym.Pick(5, 6)
	data := verifText("c", n, 2)
	var sizes []int
	for cut := vsym.Choice("cuts", 1<<(n-1)); ; {
		k := 1
		for k < n && cut&1 == 0 {
			k++
			cut >>= 1
			if k == n {
				break
			}
		}
		sizes = append(sizes, k)
		n -= k
		if n == 0 {
			break
		}
		cut >>= 1
	}
	file := verifTmp("chunks")
	ix := Create(file)
	ix.AddRoots([]Path{MakePath("d")})
	files := []verifFile{{"d/a", "abba"}, {"d/b", data}, {"d/c", "bbab"}}
	for i, f := range files {
		r := &verifReader{data: f.data}
		if i == 1 {
			r.sizes = sizes
			r.eof = vsym.Choice("eof", 2) == 1
		}
		vsym.Assert(ix.Add(f.name, r) == nil, "a file that arrives in pieces is not added")
	}
	ix.Flush()
	t := verifTrigram("t")
	vsym.Assert(verifIsList(Open(file).PostingList(t), verifMembers(files, t)), "a posting list differs from the files that contain the trigram")
	vsym.Cover("looked up")
}
