package regexp

import (
	"io"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

var verifExprs = []string{
	`(?m)a`, `(?m)^a|b$`, `(?m)\ba\b`, `(?mi)k|\x{3b1}`, `(?m)[^a]b*`, `\Aa|b\z`, `(?m)(a|^b)c?$`, `(?m)\B.`, `(?m)^$`, `(?m)[\x{e9}-\x{ffff}]`, `(?mi)[a-z]+s`, `(?m)\p{Greek}\d`,
}

// verifIn reports whether any line of the text matches.
func verifIn(text []byte, expr string) bool {
	re := vref.Parse(expr)
	start := 0
	for j := 0; j <= len(text); j++ {
		if j < len(text) && text[j] != '\n' {
			continue
		}
		if vref.NewText(text[start:j], start == 0, j == len(text)).Match(re) {
			return true
		}
		start = j + 1
	}
	return false
}

func verifText(tag string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte(tag)
	}
	return b
}

type verifSearch struct {
	expr  string
	text  []byte
	grep  int
	found []int
	err   error
	out   []byte
}

func verifMake(tag string, n, exprs, ways int) *verifSearch {
	return &verifSearch{expr: verifExprs[vsym.Choice(tag+" expr", exprs)], text: verifText(tag+" text", n), grep: vsym.Choice(tag+" way", ways)}
}

type verifSink struct{ s *verifSearch }

func (w verifSink) Write(b []byte) (int, error) {
	w.s.out = append(w.s.out, b...)
	return len(b), nil
}

type verifInput struct{ b []byte }

func (r *verifInput) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func (s *verifSearch) run() {
	s.found, s.out = nil, nil
	re, err := Compile(s.expr)
	s.err = err
	if err != nil {
		return
	}
	switch s.grep {
	case 0:
		s.found = append(s.found, re.Match(s.text, true, true))
		s.found = append(s.found, re.Match(s.text, false, true))
		s.found = append(s.found, re.MatchString(string(s.text), true, true))
	default:
		g := Grep{Regexp: re, Stdout: verifSink{s}, Stderr: verifSink{s}, N: true, HTML: s.grep == 2}
		g.Reader(&verifInput{s.text}, "name")
		g.Reader(&verifInput{s.text}, "name")
	}
}

// Two searches, each with its own expression.
func VerifC25_match() {
	a, b := verifMake("first", vsym.Pick(1, 2), len(verifExprs), 3), verifMake("second", vsym.Pick(1, 2), vsym.Pick(2, len(verifExprs)), vsym.Pick(2, 3))
	vsym.Go(a.run, b.run)
	vsym.Cover("ran")
}

// Their answers are those of searches that run alone.
func VerifC25_answers() {
	e1, e2 := verifExprs[vsym.Choice("first expr", len(verifExprs))], verifExprs[vsym.Choice("second expr", vsym.Pick(4, len(verifExprs)))]
	texts := []string{"a", "ab\n", "\u212a a", "b\n\u00e9\n", "xs1\nbc"}
	t1, t2 := texts[vsym.Choice("first text", 5)], texts[vsym.Choice("second text", vsym.Pick(2, 5))]
	a, b := &verifSearch{expr: e1, text: []byte(t1)}, &verifSearch{expr: e2, text: []byte(t2)}
	vsym.Go(a.run, b.run)
	for _, s := range []*verifSearch{a, b} {
		m := verifIn(s.text, s.expr)
		vsym.Assert(s.err == nil && (s.found[0] >= 0) == m && (s.found[2] >= 0) == m, "a search gives another answer than alone")
	}
	vsym.Cover("ran")
}
