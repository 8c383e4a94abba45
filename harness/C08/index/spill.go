package index

import (
	"os"

	"github.com/google/codesearch/internal/vsym"
)

// verifSpill indexes files, keeping at most k entries in memory (k > 0) and spilling
// after every file whose bit in mask is set.
func verifSpill(name string, k, mask int, files []verifFile) []byte {
	ix := Create(verifTmp(name))
	if k > 0 {
		verifLimit(ix, k)
	}
	ix.AddRoots([]Path{MakePath("d")})
	for i, f := range files {
		ix.Add(f.name, &verifReader{data: f.data})
		if mask>>i&1 != 0 {
			verifFlush(ix)
		}
	}
	ix.Flush()
	data, err := os.ReadFile(verifTmp(name))
	if err != nil {
		vsym.Fail("no index written")
	}
	return data
}

func verifCheckSpill(k, mask int, files []verifFile) {
	a := verifSpill("nospill", 0, 0, files)
	b := verifSpill("spill", k, mask, files)
	if len(a) != len(b) {
		vsym.Fail("the index has a different size when entries are spilled")
	}
	vsym.Assert(vsym.EqBytes(a, b), "the index differs when entries are spilled")
	vsym.Cover("compared")
	if k > 0 || mask != 0 {
		vsym.Cover("spilled")
	}
}

// Any contents over a small alphabet, spilling whenever k entries are held.
func VerifC08_full() {
	nf := 1 + vsym.Choice("files", vsym.Pick(2, 3))
	k := 1 + vsym.Choice("k", vsym.Pick(3, 5))
	var files []verifFile
	for i := 0; i < nf; i++ {
		files = append(files, verifFile{"d/" + string(rune('p'+i)), verifText("c", 3+vsym.Choice("len", vsym.Pick(2, 3)), 2)})
	}
	verifCheckSpill(k, 0, files)
}

// Spilling after chosen files, two or three letters.
func VerifC08_after() {
	nf := 2 + vsym.Choice("files", vsym.Pick(2, 3))
	mask := vsym.Choice("after", 1<<nf)
	var files []verifFile
	for i := 0; i < nf; i++ {
		files = append(files, verifFile{"d/" + string(rune('p'+i)), verifText("c", 3+i%2, vsym.Pick(2, 3))})
	}
	verifCheckSpill(0, mask, files)
}

// Many runs: the merge heap with up to a dozen runs of one entry or so.
func VerifC08_runs() {
	nf := vsym.Pick(6, 9)
	k := 1 + vsym.Choice("k", 3)
	var files []verifFile
	for i := 0; i < nf; i++ {
		c := vsym.Byte("c")
		vsym.Assume(vsym.And(c >= 'a', c < 'a'+byte(vsym.Pick(3, 3))))
		files = append(files, verifFile{"d/" + string(rune('p'+i)), "xy" + string([]byte{c})})
	}
	verifCheckSpill(k, 0, files)
}

// Tens of thousands of entries, in runs of different lengths.
func VerifC08_large() {
	n := vsym.Pick(8000, 19000)
	var files []verifFile
	for i := 0; i < 3; i++ {
		files = append(files, verifFile{"d/" + string(rune('p'+i)), verifLarge(i+1, n)})
	}
	k := []int{500, 4096, 4097, 20001, 333, 60}[vsym.Choice("k", vsym.Pick(4, 6))]
	verifCheckSpill(k, 0, files)
}
