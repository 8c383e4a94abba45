package index

import (
	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// A verifFormula is an expression made of words with anything between them
// (and) and alternatives (or).
type verifFormula struct {
	op   byte // 'w' word, '&', '|'
	word string
	sub  []*verifFormula
}

var verifWords = []string{"abc", "xyz", "pqr", "uvw", "abcd", "1", "ijk", "xyzw", ""}

func verifGen(r *vref.Rand, depth int, op byte) *verifFormula {
	if depth == 0 || r.N(4) == 0 {
		n := len(verifWords)
		if r.N(3) > 0 {
			n = 4 // often the same few
		}
		return &verifFormula{op: 'w', word: verifWords[r.N(n)]}
	}
	f := &verifFormula{op: op}
	for n := 2 + r.N(2); n > 0; n-- {
		o := byte('&')
		if op == '&' {
			o = '|'
		}
		f.sub = append(f.sub, verifGen(r, depth-1, o))
	}
	return f
}

func (f *verifFormula) expr() string {
	switch f.op {
	case 'w':
		return f.word
	case '&':
		s := ""
		for i, x := range f.sub {
			if i > 0 {
				s += ".*"
			}
			s += x.expr()
		}
		return s
	}
	s := ""
	for i, x := range f.sub {
		if i > 0 {
			s += "|"
		}
		s += x.expr()
	}
	return "(?:" + s + ")"
}

// verifFacts says which three-byte sequences a file holds.
type verifFacts map[string]bool

func (m verifFacts) has(t string) bool {
	v, ok := m[t]
	if !ok {
		v = vsym.Bool("has")
		m[t] = v
	}
	return v
}

func (m verifFacts) formula(f *verifFormula) bool {
	ok := f.op != '|'
	if f.op == 'w' {
		for i := 0; i+3 <= len(f.word); i++ {
			ok = vsym.And(ok, m.has(f.word[i:i+3]))
		}
	}
	for _, x := range f.sub {
		if f.op == '&' {
			ok = vsym.And(ok, m.formula(x))
		} else {
			ok = vsym.Or(ok, m.formula(x))
		}
	}
	return ok
}

func (m verifFacts) query(q *Query) bool {
	if q.Op == QNone {
		return false
	}
	ok := q.Op != QOr
	for _, t := range q.Trigram {
		if q.Op == QAnd {
			ok = vsym.And(ok, m.has(t))
		} else {
			ok = vsym.Or(ok, m.has(t))
		}
	}
	for _, s := range q.Sub {
		if q.Op == QAnd {
			ok = vsym.And(ok, m.query(s))
		} else {
			ok = vsym.Or(ok, m.query(s))
		}
	}
	return ok
}

// A file that has the words of a combination of words is a candidate, whatever
// else it has.
func VerifC01_boolean() {
	i := vsym.Choice("formula", vsym.Pick(20000, 300000))
	r := vref.Seeded(vsym.Seed(), i)
	op := "&|"[i%2]
	f := verifGen(r, 2+i%3, op)
	q := RegexpQuery(vref.Parse("(?m)" + f.expr()))
	m := verifFacts{}
	// a line with the words of a true formula exists, and what else the line holds can only help
	vsym.Assert(vsym.Implies(m.formula(f), m.query(q)), "a file with the words that an expression asks for does not satisfy the query derived from it")
	vsym.Cover("implied")
}
