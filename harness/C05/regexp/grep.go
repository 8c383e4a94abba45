package regexp

import (
	"github.com/google/codesearch/internal/vsym"
)

func verifCheckGrep(g *Grep, got, errs string, name string, lines [][]byte, m []bool) {
	want := verifGrepRef(name, lines, m, g.L, g.C, g.N, g.H)
	vsym.Assert(vsym.EqStr(got, want), "the output is not the matching lines")
	vsym.Assert(errs == "", "something is written to standard error")
	vsym.Assert(g.Match == verifAnyOf(m), "the match indicator is wrong")
	vsym.Cover("scanned")
}

// Lines of up to two bytes and a buffer of a few lines: every place of the
// buffer's end relative to the lines, any bytes.
func VerifC05_chunks() {
	expr := []string{`(?m)a`, `(?m)^$`, `(?m)^b?$`, `(?m)\A[ab]|c\z`}[vsym.Choice("expr", 4)]
	n := 1 + vsym.Choice("len", vsym.Pick(8, 12))
	nl := vsym.Choice("newlines", 1<<n)
	for i := 0; i+2 < n; i++ {
		if nl>>i&7 == 0 {
			return // a line of more than two bytes
		}
	}
	size := 6 + vsym.Choice("buffer", vsym.Pick(1, 4))
	text, lines := verifLayout("text", n, nl)
	g, out, errs := verifNewGrep(expr, size)
	g.N = n > 6 || vsym.Choice("numbers", 2) == 0
	r := &verifReader{data: text, err: verifEOF}
	if n <= 6 || vsym.Thorough() {
		r.size = vsym.Choice("read", 2)
	}
	g.Reader(r, "f")
	verifCheckGrep(g, out.String(), errs.String(), "f", lines, verifMatchesIn(expr, lines, true, nl>>(n-1)&1 == 0))
}

// Every combination of flags.
func VerifC05_flags() {
	expr := []string{`(?m)a`, `(?m)^$|b`, `(?m)\bk`, `(?m)x*$`}[vsym.Choice("expr", 4)]
	n := vsym.Choice("len", vsym.Pick(5, 7))
	nl := vsym.Choice("newlines", 1<<n)
	text, lines := verifLayout("text", n, nl)
	g, out, errs := verifNewGrep(expr, 20)
	g.L, g.C, g.N, g.H = vsym.Choice("l", 2) == 0, vsym.Choice("c", 2) == 0, vsym.Choice("n", 2) == 0, vsym.Choice("h", 2) == 0
	g.Reader(verifSource(text), "d/f")
	verifCheckGrep(g, out.String(), errs.String(), "d/f", lines, verifMatches(expr, lines))
}

// Two files one after the other with the same Grep.
func VerifC05_files() {
	expr := []string{`(?m)a`, `(?m)^$`}[vsym.Choice("expr", 2)]
	n1, n2 := vsym.Choice("len", 4), vsym.Choice("len", 4)
	t1, l1 := verifLayout("first", n1, vsym.Choice("newlines", 1<<n1))
	t2, l2 := verifLayout("second", n2, vsym.Choice("newlines", 1<<n2))
	g, out, errs := verifNewGrep(expr, 12)
	g.L, g.C, g.N = vsym.Choice("l", 2) == 0, vsym.Choice("c", 2) == 0, vsym.Choice("n", 2) == 0
	g.Reader(&verifReader{data: t1, err: verifEOF}, "f")
	g.Reader(&verifReader{data: t2, err: verifEOF}, "g")
	m1, m2 := verifMatches(expr, l1), verifMatches(expr, l2)
	want := verifGrepRef("f", l1, m1, g.L, g.C, g.N, g.H) + verifGrepRef("g", l2, m2, g.L, g.C, g.N, g.H)
	vsym.Assert(vsym.EqStr(out.String(), want), "the output for two files is not that of each")
	vsym.Assert(errs.String() == "", "something is written to standard error")
	vsym.Assert(g.Match == (verifAnyOf(m1) || verifAnyOf(m2)), "the match indicator is wrong")
	vsym.Cover("scanned")
}

// The reader fails part of the way.
func VerifC05_failing() {
	expr := `(?m)a`
	n := vsym.Choice("len", vsym.Pick(6, 8))
	text, lines := verifLayout("text", n, vsym.Choice("newlines", 1<<n))
	g, out, errs := verifNewGrep(expr, 20)
	g.N = true
	g.Reader(&verifReader{data: text, err: verifErr, size: vsym.Choice("read", 2)}, "f")
	m := verifMatches(expr, lines)
	vsym.Assert(vsym.EqStr(out.String(), verifGrepRef("f", lines, m, false, false, true, false)), "the lines read before the error are not the ones reported")
	vsym.Assert(errs.String() == "f: read failed\n", "the read error is not reported")
	vsym.Assert(g.Match == verifAnyOf(m), "the match indicator is wrong")
	vsym.Cover("failed")
}

// The buffer of the size the commands use, with any bytes where it ends.
func VerifC05_boundary() {
	const size = 1 << 20
	k := vsym.Pick(5, 9)
	text := make([]byte, 0, size+64)
	for len(text)+32 < size-k/2 {
		text = append(text, "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\n"...)
	}
	for len(text) < size-k/2-1 {
		text = append(text, 'y')
	}
	text = append(text, '\n')
	first := len(text)/32 + 1
	if len(text)%32 == 0 {
		first = len(text) / 32
	}
	nl := []int{0, 1, 2, 4, 8, 16, 5, 12, 24, 36, 32}[vsym.Choice("newlines", vsym.Pick(7, 11))]
	mid, lines := verifLayout("text", k, nl)
	text = append(text, mid...)
	text = append(text, "\na\n"...)
	if nl>>(k-1)&1 != 0 {
		lines = append(lines, nil)
	}
	lines = append(lines, []byte("a"))
	expr := `(?m)a`
	g, out, errs := verifNewGrep(expr, 0)
	g.N = true
	g.Reader(&verifReader{data: text, err: verifEOF}, "f")
	all := make([][]byte, first, first+len(lines))
	m := make([]bool, first)
	all = append(all, lines...)
	m = append(m, verifMatches(expr, lines)...)
	verifCheckGrep(g, out.String(), errs.String(), "f", all, m)
}

// A long line: a byte anywhere in it decides.
func VerifC05_longLine() {
	n := []int{60, 127, 128, 255, 256, 257, 1000, 1999, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 70000}[vsym.Choice("length", 16)]
	at := []int{0, n / 2, n - 1, n - 2}[vsym.Choice("place", 4)]
	l := make([]byte, n)
	for i := range l {
		l[i] = "xyz "[i%4]
	}
	l[at] = vsym.Byte("text")
	vsym.Assume(vsym.And(l[at] >= ' ', l[at] < 0x7f))
	var text []byte
	text = append(append(append(text, "x\n"...), l...), "\nb\n"...)
	g, out, errs := verifNewGrep(`(?m)b`, 0)
	g.N = true
	g.Reader(&verifReader{data: text, err: verifEOF, size: []int{0, 4096, 1000}[vsym.Choice("read", 3)]}, "f")
	verifCheckGrep(g, out.String(), errs.String(), "f", [][]byte{{'x'}, l, {'b'}}, []bool{false, l[at] == 'b', true})
}
