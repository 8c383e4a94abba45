package index

import (
	"unicode/utf8"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// verifLarge is a text of about n bytes, in characters of every length, with
// nearly as many distinct trigrams.
func verifLarge(seed, n int) string {
	r := vref.Seeded(seed, 0)
	b := make([]byte, 0, n+8)
	line := 0
	for len(b) < n {
		c := rune(' ' + r.N(95))
		switch r.N(8) {
		case 0:
			c = rune(0x80 + r.N(0x780))
		case 1:
			c = rune(0x800 + r.N(0xd000))
		case 2:
			c = rune(0x10000 + r.N(0xfffff))
		}
		b = utf8.AppendRune(b, c)
		if line++; line == 100 {
			b = append(b, '\n')
			line = 0
		}
	}
	return string(b)
}

// verifTrigrams calls f for every trigram of s, with repetitions.
func verifTrigrams(s string, f func(uint32)) {
	t := uint32(0)
	for i := 0; i < len(s); i++ {
		t = (t<<8 | uint32(s[i])) & (1<<24 - 1)
		if i >= 2 {
			f(t)
		}
	}
}

// verifCheckLarge compares posting lists of a large index with the files, one in
// step of them and some for any last byte of the trigram.
func verifCheckLarge(ix *Index, files []verifFile, step int) {
	want := map[uint32][]int{}
	var order []uint32
	for i, f := range files {
		verifTrigrams(f.data, func(t uint32) {
			l := want[t]
			if l == nil {
				order = append(order, t)
			}
			if len(l) == 0 || l[len(l)-1] != i {
				want[t] = append(l, i)
			}
		})
	}
	for k := vsym.Choice("first", 2); k < len(order); k += step {
		t := order[k]
		vsym.Assert(verifEqualInts(ix.PostingList(t), want[t]), "a posting list differs from the files that contain the trigram")
		if want[t+1] == nil {
			vsym.Assert(len(ix.PostingList(t+1)) == 0, "a trigram of no file has a posting list")
		}
	}
	vsym.Assert(verifTry(func() { ix.Check() }) == 0, "the check complains")
	// any last byte
	p := order[[]int{0, 1000, len(order) - 1}[vsym.Choice("p", 3)]] &^ 0xff
	c := vsym.Byte("c")
	got := ix.PostingList(p | uint32(c))
	at := make([]bool, len(files))
	for x := 0; x < 256; x++ {
		for _, i := range want[p|uint32(x)] {
			at[i] = vsym.Or(at[i], c == byte(x))
		}
	}
	vsym.Assert(verifIsList(got, at), "a posting list differs from the files that contain the trigram")
}

func verifEqualInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
