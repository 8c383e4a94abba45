package index

import "github.com/google/codesearch/internal/vsym"

// verifWave is n ids, each in its own run of three, of which two at a place
// given by where are any of their run.
func verifWave(tag string, n, where int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = 3*i + i%2
		if i >= where && i < where+2 {
			x := vsym.Byte(tag)
			vsym.Assume(x < 3)
			l[i] = 3*i + int(x)
		}
	}
	return l
}

// Lists of some dozens of files, of which some members are any.
func VerifC10_long() {
	const files = 48
	size := [][2]int{{16, 5}, {5, 16}, {9, 8}, {1, 0}, {8, 9}, {16, 1}}[vsym.Choice("sizes", vsym.Pick(4, 6))]
	at := vsym.Choice("place", 3)
	place := func(n int) int { return max(0, []int{0, n/2 - 1, n - 2}[at]) }
	a := verifWave("a", size[0], place(size[0]))
	b := verifWave("b", size[1], place(size[1]))
	c := verifWave("c", 12, 12)
	var names []string
	for k := 0; k < files; k++ {
		names = append(names, "r/"+string([]byte{byte('a' + k/7), byte('a' + k%7)}))
	}
	lists := []verifList{{verifTri(0), a}, {verifTri(1), b}, {verifTri(2), c}}
	verifWriteV1(verifTmp("long"), []string{"r"}, names, lists)
	ix := Open(verifTmp("long"))
	t := []string{verifTri(0), verifTri(1), verifTri(2)}
	q := []*Query{
		{Op: QAnd, Trigram: t[:2]},
		{Op: QOr, Trigram: t[:2]},
		{Op: QAnd, Trigram: t[:1], Sub: []*Query{{Op: QOr, Trigram: t[1:]}}},
		{Op: QOr, Trigram: t[2:], Sub: []*Query{{Op: QAnd, Trigram: t[:2]}}},
		{Op: QAnd, Sub: []*Query{{Op: QOr, Trigram: t[:2]}, {Op: QOr, Trigram: t[1:]}}},
	}[vsym.Choice("query", 5)]
	got := ix.PostingQuery(q)
	m := make([]bool, files)
	for id := range m {
		m[id] = verifEval(q, [][]int{a, b, c}, id)
	}
	// in ascending order, those and no others
	ok := true
	for k, x := range got {
		ok = vsym.And(ok, vsym.And(x >= 0, x < files))
		if k > 0 {
			ok = vsym.And(ok, got[k-1] < x)
		}
	}
	for id := range m {
		ok = vsym.And(ok, vsym.Iff(verifIn(got, id), m[id]))
	}
	vsym.Assert(ok, "a query does not return exactly the files that satisfy it: "+q.String())
	vsym.Cover("evaluated")
}
