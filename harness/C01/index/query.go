package index

import (
	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// verifHolds reports whether the trigrams of b satisfy the query.
func verifHolds(q *Query, b []byte) bool {
	switch q.Op {
	case QAll:
		return true
	case QNone:
		return false
	case QAnd:
		ok := true
		for _, t := range q.Trigram {
			ok = vsym.And(ok, verifContains(b, t))
		}
		for _, s := range q.Sub {
			ok = vsym.And(ok, verifHolds(s, b))
		}
		return ok
	case QOr:
		ok := false
		for _, t := range q.Trigram {
			ok = vsym.Or(ok, verifContains(b, t))
		}
		for _, s := range q.Sub {
			ok = vsym.Or(ok, verifHolds(s, b))
		}
		return ok
	}
	vsym.Fail("a query has an unknown operator")
	return false
}

func verifContains(b []byte, t string) bool {
	vsym.Assert(len(t) == 3, "a query asks for something that is not three bytes")
	found := false
	for i := 0; i+3 <= len(b); i++ {
		found = vsym.Or(found, vsym.And(b[i] == t[0], vsym.And(b[i+1] == t[1], b[i+2] == t[2])))
	}
	return found
}

// verifNoMiss decides whether some line matches e but fails its query. The
// line is as long as the shortest match and more bytes, between lo and hi.
func verifNoMiss(e string, more, lo, hi int) {
	re := vref.Parse(e)
	q := RegexpQuery(vref.Parse(e))
	b := vsym.Bytes("text", min(hi, max(lo, vref.MinLen(re)+more)))
	vsym.Assume(vref.Line(b))
	vsym.Assume(vref.Valid(b))
	m := vref.NewText(b, true, true).Match(re)
	vsym.Assert(vsym.Implies(m, verifHolds(q, b)), "a line matches the expression but not the query derived from it")
	vsym.Cover("implied")
}

func VerifC01_short() {
	e := vref.Exprs[vsym.Choice("expr", len(vref.Exprs))]
	f := []string{"", "(?m)", "(?i)(?m)"}[vsym.Choice("flags", 3)]
	verifNoMiss(f+e, 3, 7, vsym.Pick(8, 12))
}

func VerifC01_long() {
	e := vref.LongExprs[vsym.Choice("expr", len(vref.LongExprs))]
	f := []string{"(?m)", "(?i)(?m)"}[vsym.Choice("flags", 2)]
	verifNoMiss(f+e, vsym.Pick(3, 5), vsym.Pick(9, 12), vsym.Pick(12, 18))
}

func VerifC01_random() {
	i := vsym.Choice("expr", vsym.Pick(5000, 100000))
	r := vref.Seeded(vsym.Seed(), i)
	e := r.Gen(2+i%3, vref.LongLeaves)
	if i%4 == 0 {
		e = "(?i)" + e
	}
	verifNoMiss("(?m)"+e, 2, 6, vsym.Pick(12, 20))
}
