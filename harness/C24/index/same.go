package index

import (
	"github.com/google/codesearch/internal/vsym"
)

// With a newline after each, the lists below are the only trigrams of a file
// besides those that contain a newline, which no query may ask for.
var verifTris = []string{"abc", "bcd", "xyz"}

func verifBoth(roots, names []string, lists []verifList) (v1, v2 *Index) {
	verifWriteV1(verifTmp("1"), roots, names, lists)
	verifWriteV2(verifTmp("2"), roots, names, lists)
	return Open(verifTmp("1")), Open(verifTmp("2"))
}

func verifMembership(n int, tris []string) (lists []verifList) {
	for _, t := range tris {
		l := verifList{tri: t}
		for i := 0; i < n; i++ {
			if vsym.Bool("member") {
				l.ids = append(l.ids, i)
			}
		}
		if len(l.ids) > 0 {
			lists = append(lists, l)
		}
	}
	return
}

func verifSameList(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, a[i] == b[i])
	}
	return r
}

// verifAgree compares all that the two indexes say.
func verifAgree(v1, v2 *Index, names int) {
	vsym.Assert(verifNumNames(v1) == verifNumNames(v2) && verifNumNames(v1) == names, "the formats disagree on the number of files")
	r1, r2 := verifIndexRoots(v1), verifIndexRoots(v2)
	vsym.Assert(len(r1) == len(r2), "the formats disagree on the roots")
	for i := range r1 {
		vsym.Assert(verifEq(r1[i], r2[i]), "the formats disagree on the roots")
	}
	for i := 0; i < names; i++ {
		vsym.Assert(verifEq(v1.Name(i).String(), v2.Name(i).String()), "the formats disagree on a name")
	}
	lo := vsym.Choice("lo", names+1)
	hi := lo + vsym.Choice("hi", names+1-lo)
	var n1, n2 []string
	for p := range v1.Names(lo, hi) {
		n1 = append(n1, p.String())
	}
	for p := range v2.Names(lo, hi) {
		n2 = append(n2, p.String())
	}
	vsym.Assert(len(n1) == len(n2) && len(n1) == hi-lo, "the formats disagree on a range of names")
	for i := range n1 {
		vsym.Assert(verifEq(n1[i], n2[i]), "the formats disagree on a range of names")
	}
}

func verifNoNewline(t uint32) {
	vsym.Assume(t < 1<<24)
	for k := 0; k < 24; k += 8 {
		vsym.Assume(t>>k&0xff != '\n')
	}
}

// Any names, in any order that paths sort in.
func VerifC24_names() {
	n := 1 + vsym.Choice("files", 3)
	var names []string
	for i := 0; i < n; i++ {
		l := 1 + vsym.Choice("len", vsym.Pick(3, 4))
		b := []byte("r/")
		for j := 0; j < l; j++ {
			c := vsym.Byte("name")
			vsym.Assume(vsym.Or(c >= ' ', c == 1))
			b = append(b, c)
		}
		names = append(names, string(b))
	}
	vsym.Assume(verifSorted(names))
	root := []byte("r")
	for j := vsym.Choice("rootlen", 3); j > 0; j-- {
		c := vsym.Byte("root")
		vsym.Assume(c > ' ')
		root = append(root, c)
	}
	roots := []string{"r", string(root)}
	if len(root) == 1 {
		roots = roots[:1]
	}
	v1, v2 := verifBoth(roots, names, nil)
	verifAgree(v1, v2, n)
	vsym.Cover("agree")
}

// Any membership, any trigram, and queries of several shapes.
func VerifC24_lists() {
	n := 1 + vsym.Choice("files", vsym.Pick(3, 4))
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "r/"+string([]byte{byte('a' + i)}))
	}
	v1, v2 := verifBoth([]string{"r"}, names, verifMembership(n, verifTris))
	if vsym.Choice("ask", 2) == 0 {
		t := vsym.Uint32("t")
		verifNoNewline(t)
		vsym.Assert(verifSameList(v1.PostingList(t), v2.PostingList(t)), "the formats disagree on a posting list")
		vsym.Cover("list")
		return
	}
	tri := func(s string) *Query { return &Query{Op: QAnd, Trigram: []string{s}} }
	abc, bcd, xyz := tri("abc"), tri("bcd"), tri("xyz")
	qs := []*Query{
		{Op: QAll}, {Op: QNone}, abc, bcd, xyz, tri("zzz"),
		{Op: QAnd, Trigram: []string{"abc", "bcd", "xyz"}},
		{Op: QOr, Trigram: []string{"abc", "xyz"}},
		{Op: QOr, Trigram: []string{"abc"}, Sub: []*Query{{Op: QAnd, Trigram: []string{"bcd", "xyz"}}}},
		{Op: QAnd, Trigram: []string{"abc"}, Sub: []*Query{{Op: QOr, Trigram: []string{"bcd", "xyz"}}}},
		{Op: QAnd, Sub: []*Query{{Op: QOr, Trigram: []string{"abc", "zzz"}}, {Op: QOr, Trigram: []string{"bcd", "xyz"}}}},
	}
	q := qs[vsym.Choice("query", len(qs))]
	vsym.Assert(verifSameList(v1.PostingQuery(q), v2.PostingQuery(q)), "the formats disagree on a query")
	vsym.Cover("query")
}

// Many files and many trigrams: several groups of names, two-byte deltas,
// several blocks of the posting index.
func VerifC24_many() {
	n := []int{15, 16, 17, 33, 300}[vsym.Choice("files", 5)]
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "r/"+string([]byte{byte('a' + i/26), byte('a' + i%26)}))
	}
	var lists []verifList
	nt := vsym.Pick(60, 150)
	for k := 0; k < nt; k++ {
		l := verifList{tri: string([]byte{byte('a' + k/26), byte('a' + k%26), 'q'})}
		step := 1 + k*k%n
		for id := k % n; id < n; id += step {
			l.ids = append(l.ids, id)
		}
		lists = append(lists, l)
	}
	v1, v2 := verifBoth([]string{"r"}, names, lists)
	if vsym.Choice("ask", 2) == 0 {
		t := vsym.Uint32("t")
		verifNoNewline(t)
		vsym.Assert(verifSameList(v1.PostingList(t), v2.PostingList(t)), "the formats disagree on a posting list")
		vsym.Cover("list")
		return
	}
	i := vsym.Choice("name", n)
	vsym.Assert(v1.Name(i).String() == names[i] && v2.Name(i).String() == names[i], "a name is wrong")
	vsym.Cover("name")
}

// A name of many lengths, next to one that shares all of it but the last byte.
func VerifC24_long() {
	lens := []int{126, 127, 128, 129, 254, 255, 256, 257, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536}
	l := lens[vsym.Choice("length", len(lens))]
	b := make([]byte, l)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	copy(b, "r/")
	c, d := vsym.Byte("last"), vsym.Byte("last")
	vsym.Assume(vsym.And(c > ' ', d > ' '))
	names := []string{"r/aa", string(append(b[:l-1:l-1], c)), string(append(b[:l-1:l-1], c, d)), "r/zz"}
	lists := []verifList{{"abc", []int{0, 2}}, {"bcd", []int{1, 3}}}
	v1, v2 := verifBoth([]string{"r"}, names, lists)
	verifAgree(v1, v2, len(names))
	for i, n := range names {
		vsym.Assert(verifEq(v1.Name(i).String(), n), "a long name is wrong")
	}
	Merge(verifTmp("m"), verifTmp("1"), verifTmp("2"))
	m := Open(verifTmp("m"))
	verifAgree(m, v2, len(names))
	vsym.Cover("long")
}
