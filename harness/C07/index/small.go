package index

import "github.com/google/codesearch/internal/vsym"

// Small files with symbolic contents, every three-byte sequence.
func VerifC07_small() {
	nf := 1 + vsym.Choice("files", vsym.Pick(2, 3))
	var files []verifFile
	for i := 0; i < nf; i++ {
		n := vsym.Choice("len", vsym.Pick(5, 6))
		files = append(files, verifFile{"d/" + string(rune('p'+i)), verifText("c", n, 2)})
	}
	ix := verifBuild("small", 2, []string{"d"}, files)
	t := verifTrigram("t")
	vsym.Assert(verifIsList(ix.PostingList(t), verifMembers(files, t)), "a posting list differs from the files that contain the trigram")
	for i, f := range files {
		vsym.Assert(ix.Name(i).String() == f.name, "a file has the wrong name")
	}
	vsym.Cover("looked up")
}
