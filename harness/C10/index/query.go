package index

import (
	"encoding/binary"
	"os"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

var verifN = 5 // files

// verifLists writes an old-format index file whose posting lists are symbolic:
// list k belongs to the trigram verifTri(k) and has counts[k] members.
func verifLists(counts []int) (*Index, [][]int) {
	var d []byte
	u32 := func(x int) { d = binary.BigEndian.AppendUint32(d, uint32(x)) }
	d = append(d, "csearch index 1\n"...)
	roots := len(d)
	d = append(d, "r\x00\x00"...)
	names := len(d)
	var nameOff []int
	for i := 0; i < verifN; i++ {
		nameOff = append(nameOff, len(d)-names)
		d = append(d, 'r', '/', byte('a'+i), 0)
	}
	nameOff = append(nameOff, len(d)-names)
	d = append(d, 0)
	post := len(d)
	var offs []int
	var lists [][]int
	for k, n := range counts {
		offs = append(offs, len(d)-post)
		t := verifTri(k)
		d = append(d, t...)
		id := -1
		var l []int
		for i := 0; i < n; i++ {
			x := vsym.Byte("delta")
			vsym.Assume(vsym.And(x >= 1, int(x) <= verifN))
			d = append(d, x)
			id += int(x)
			l = append(l, id)
		}
		vsym.Assume(id < verifN)
		d = append(d, 0)
		lists = append(lists, l)
	}
	offs = append(offs, len(d)-post)
	d = append(d, 0xff, 0xff, 0xff, 0)
	nameIndex := len(d)
	for _, o := range nameOff {
		u32(o)
	}
	postIndex := len(d)
	for k, n := range counts {
		d = append(d, verifTri(k)...)
		u32(n)
		u32(offs[k])
	}
	d = append(d, 0xff, 0xff, 0xff)
	u32(0)
	u32(offs[len(counts)])
	u32(roots)
	u32(names)
	u32(post)
	u32(nameIndex)
	u32(postIndex)
	d = append(d, "\ncsearch trailr\n"...)
	os.WriteFile(verifTmp("lists"), d, 0600)
	return Open(verifTmp("lists")), lists
}

func verifTri(k int) string { return "tr" + string(rune('a'+k)) }

func verifTriNum(k int) uint32 { return 't'<<16 | 'r'<<8 | uint32('a'+k) }

func verifIn(l []int, id int) bool {
	r := false
	for _, x := range l {
		r = vsym.Or(r, x == id)
	}
	return r
}

func verifEval(q *Query, lists [][]int, id int) bool {
	switch q.Op {
	case QAll:
		return true
	case QNone:
		return false
	}
	and := q.Op == QAnd
	r := and
	add := func(b bool) {
		if and {
			r = vsym.And(r, b)
		} else {
			r = vsym.Or(r, b)
		}
	}
	for _, t := range q.Trigram {
		k := int(t[2] - 'a')
		if t[:2] != "tr" || k >= len(lists) {
			add(false)
		} else {
			add(verifIn(lists[k], id))
		}
	}
	for _, s := range q.Sub {
		add(verifEval(s, lists, id))
	}
	return r
}

// verifTree builds a query; *next numbers the trigrams.
func verifTree(depth int, next *int, max int) *Query {
	q := &Query{}
	n := 2
	if depth > 0 {
		n = 4
	}
	if depth > 0 && *next >= max {
		n = 2
	}
	switch vsym.Choice("op", n) {
	case 0:
		q.Op = QAnd
	case 1:
		q.Op = QOr
	case 2:
		q.Op = QAll
		return q
	case 3:
		q.Op = QNone
		return q
	}
	nt := vsym.Choice("trigrams", 3)
	for i := 0; i < nt && *next < max; i++ {
		q.Trigram = append(q.Trigram, verifTri(*next))
		*next++
	}
	if depth < vsym.Pick(1, 2) {
		ns := vsym.Choice("subs", 3)
		for i := 0; i < ns; i++ {
			q.Sub = append(q.Sub, verifTree(depth+1, next, max))
		}
	}
	if len(q.Trigram)+len(q.Sub) == 0 {
		vsym.Assume(false) // an empty AND or OR is never built
	}
	return q
}

// Any query tree over any posting lists.
func VerifC10_tree() {
	max := vsym.Pick(3, 4)
	n := 0
	q := verifTree(0, &n, max)
	counts := make([]int, n)
	for i := range counts {
		counts[i] = []int{1, 2, 2, 1}[i] // the lists are any of that length
		if i == 0 {
			counts[i] = []int{2, 0, 3, 1}[vsym.Choice("count", vsym.Pick(2, 4))]
		}
	}
	ix, lists := verifLists(counts)
	got := ix.PostingQuery(q)
	m := make([]bool, verifN)
	for id := range m {
		m[id] = verifEval(q, lists, id)
	}
	vsym.Assert(verifIsList(got, m), "a query does not return exactly the files that satisfy it: "+q.String())
	vsym.Cover("evaluated")
}

// The pairwise operations, with any two lists.
func VerifC10_pair() {
	na := vsym.Choice("a", vsym.Pick(4, 5))
	nb := vsym.Choice("b", vsym.Pick(4, 5))
	ix, lists := verifLists([]int{na, nb})
	absent := vsym.Choice("absent", 2) == 1
	t := verifTriNum(1)
	b := lists[1]
	if absent {
		t, b = verifTriNum(7), nil
	}
	var got []int
	or := vsym.Choice("or", 2) == 1
	if or {
		got = ix.PostingOr(ix.PostingList(verifTriNum(0)), t)
	} else {
		got = ix.PostingAnd(ix.PostingList(verifTriNum(0)), t)
	}
	m := make([]bool, verifN)
	for id := range m {
		x, y := verifIn(lists[0], id), verifIn(b, id)
		if or {
			m[id] = vsym.Or(x, y)
		} else {
			m[id] = vsym.And(x, y)
		}
	}
	vsym.Assert(verifIsList(got, m), "the result is not the intersection or union")
	vsym.Cover("paired")
}

// The same trigram used more than once in a query.
func VerifC10_repeated() {
	ix, lists := verifLists([]int{2, 2})
	t := func() string { return verifTri(vsym.Choice("t", 3)) }
	op := func() QueryOp { return []QueryOp{QAnd, QOr}[vsym.Choice("op", 2)] }
	leaf := func() *Query { return &Query{Op: op(), Trigram: []string{t(), t()}} }
	q := &Query{Op: op(), Sub: []*Query{leaf(), leaf()}}
	if vsym.Choice("own", 2) == 1 {
		q.Trigram = []string{t()}
	}
	got := ix.PostingQuery(q)
	m := make([]bool, verifN)
	for id := range m {
		m[id] = verifEval(q, lists, id)
	}
	vsym.Assert(verifIsList(got, m), "a query does not return exactly the files that satisfy it")
	vsym.Cover("evaluated")
}

// The same in the current format, written by the real writer.
func VerifC10_current() {
	var files []verifFile
	nf := vsym.Pick(2, 3)
	for i := 0; i < nf; i++ {
		files = append(files, verifFile{"d/" + string(rune('p'+i)), verifText("c", 4, 2)})
	}
	ix := verifBuild("cur", 2, []string{"d"}, files)
	t := []string{"aab", "aba", "bbb"}
	q := &Query{Op: QAnd, Sub: []*Query{
		{Op: QOr, Trigram: t[:2]},
		{Op: []QueryOp{QOr, QAnd}[vsym.Choice("op", 2)], Trigram: t[1:]},
	}}
	if vsym.Choice("outer", 2) == 1 {
		q.Op = QOr
	}
	lists := make(map[string][]bool)
	for _, x := range t {
		lists[x] = verifMembers(files, uint32(x[0])<<16|uint32(x[1])<<8|uint32(x[2]))
	}
	m := make([]bool, nf)
	for id := range m {
		x := vsym.Or(lists[t[0]][id], lists[t[1]][id])
		y := vsym.And(lists[t[1]][id], lists[t[2]][id])
		if q.Sub[1].Op == QOr {
			y = vsym.Or(lists[t[1]][id], lists[t[2]][id])
		}
		if q.Op == QAnd {
			m[id] = vsym.And(x, y)
		} else {
			m[id] = vsym.Or(x, y)
		}
	}
	vsym.Assert(verifIsList(ix.PostingQuery(q), m), "a query does not return exactly the files that satisfy it")
	vsym.Cover("evaluated")
}

// verifDeep is a random query over four trigrams.
func verifDeep(r *vref.Rand, depth int, op QueryOp) *Query {
	q := &Query{Op: op}
	for n := r.N(3); n > 0; n-- {
		q.Trigram = append(q.Trigram, verifTri(r.N(4)))
	}
	if depth > 0 {
		for n := r.N(3); n > 0; n-- {
			o := QAnd + QOr - op
			switch r.N(12) {
			case 0:
				o = op
			case 1:
				q.Sub = append(q.Sub, &Query{Op: []QueryOp{QAll, QNone}[r.N(2)]})
				continue
			}
			q.Sub = append(q.Sub, verifDeep(r, depth-1, o))
		}
	}
	if len(q.Trigram)+len(q.Sub) == 0 {
		q.Trigram = append(q.Trigram, verifTri(r.N(4)))
	}
	return q
}

// Deeper queries of many shapes, over any lists of a few files.
func VerifC10_deep() {
	verifN = vsym.Pick(3, 4)
	i := vsym.Choice("query", vsym.Pick(150, 6000))
	r := vref.Seeded(vsym.Seed(), i)
	q := verifDeep(r, 3+i%2, []QueryOp{QAnd, QOr}[r.N(2)])
	ix, lists := verifLists([]int{2, 1, 2, 1})
	got := ix.PostingQuery(q)
	m := make([]bool, verifN)
	for id := range m {
		m[id] = verifEval(q, lists, id)
	}
	vsym.Assert(verifIsList(got, m), "a query does not return exactly the files that satisfy it: "+q.String())
	vsym.Cover("evaluated")
}
