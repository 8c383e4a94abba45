package regexp

import (
	"strconv"

	"github.com/google/codesearch/internal/vsym"
)

func verifWS(c byte) bool { return c == ' ' || c == '\t' || c == '\r' }

// verifTrimmed is the line without trailing white space.
func verifTrimmed(l []byte) []byte {
	n := len(l)
	for n > 0 && verifWS(l[n-1]) {
		n--
	}
	return l[:n]
}

// verifIndent returns the white space that the match and all lines that are not
// blank begin with.
func verifIndent(match []byte, around [][]byte) int {
	n := 0
	for n < len(match) && (match[n] == ' ' || match[n] == '\t') {
		n++
	}
	for _, l := range around {
		if len(l) == 0 {
			continue
		}
		k := 0
		for k < n && k < len(l) && l[k] == match[k] {
			k++
		}
		n = k
	}
	return n
}

// verifBlocks is what grep prints with before and after lines of context.
func verifBlocks(name string, lines [][]byte, m []bool, before, after int, h bool) string {
	var out []byte
	for i := range lines {
		if !m[i] {
			continue
		}
		if !h {
			out = append(out, name+":"...)
		}
		out = append(out, strconv.Itoa(i+1)+":\n"...)
		var shown [][]byte
		lo, hi := max(0, i-before), min(len(lines)-1, i+after)
		for j := lo; j <= hi; j++ {
			shown = append(shown, verifTrimmed(lines[j]))
		}
		match := shown[i-lo]
		n := verifIndent(match, shown)
		for j, l := range shown {
			if j == i-lo {
				out = append(out, "\t>>\t"...)
			} else {
				out = append(out, "\t\t"...)
			}
			if len(l) >= n {
				out = append(out, l[n:]...)
			}
			out = append(out, '\n')
		}
	}
	return string(out)
}

func verifContext(expr string, size, n, nl, before, after int, alphabet string, src func(b []byte) *verifReader) {
	text, lines := verifLayout("text", n, nl)
	for i, c := range text {
		if nl>>i&1 == 0 && alphabet != "" {
			in := false
			for _, x := range []byte(alphabet) {
				in = vsym.Or(in, c == x)
			}
			vsym.Assume(in)
		}
	}
	g, out, errs := verifNewGrep(expr, size)
	g.PreContext, g.PostContext = before, after
	g.N = vsym.Choice("n", 2) == 0
	g.H = vsym.Choice("h", 2) == 0
	g.Reader(src(text), "f")
	m := verifMatches(expr, lines)
	vsym.Assert(vsym.EqStr(out.String(), verifBlocks("f", lines, m, before, after, g.H)), "the blocks are not the matching lines with their context")
	vsym.Assert(errs.String() == "", "something is written to standard error")
	vsym.Assert(g.Match == verifAnyOf(m), "the match indicator is wrong")
	vsym.Cover("scanned")
}

// Short lines, context of every size up to two, a buffer that ends everywhere.
func VerifC06_chunks() {
	n := 3 + vsym.Choice("len", vsym.Pick(9, 12))
	nl := vsym.Choice("newlines", 1<<n)
	for i := 0; i+1 < n; i++ {
		if nl>>i&3 == 0 {
			return // a line of more than one byte
		}
	}
	k := vsym.Choice("context", vsym.Pick(5, 9))
	before, after := []int{1, 0, 1, 2, 0, 2, 1, 2, 2}[k], []int{0, 1, 1, 0, 2, 1, 2, 2, 0}[k]
	size := 2*(before+after+3) + vsym.Choice("buffer", vsym.Pick(1, 4))
	verifContext(`(?m)a`, size, n, nl, before, after, "ab", func(b []byte) *verifReader {
		return &verifReader{data: b, err: verifEOF}
	})
}

// Indentation and trailing white space.
func VerifC06_indent() {
	n := 3 + vsym.Choice("len", vsym.Pick(4, 6))
	nl := vsym.Choice("newlines", 1<<n)
	k := vsym.Choice("context", 3)
	verifContext([]string{`(?m)a`, `(?m)^$`}[vsym.Choice("expr", 2)], 40, n, nl, []int{0, 1, 1}[k], []int{1, 0, 1}[k], " \tab", verifSource)
}

// Any bytes.
func VerifC06_any() {
	n := 1 + vsym.Choice("len", vsym.Pick(4, 5))
	nl := vsym.Choice("newlines", 1<<n)
	verifContext(`(?m)a|\bk`, 40, n, nl, 1, 1, "", verifSource)
}

// With -l or -c, context changes nothing.
func VerifC06_modes() {
	n := vsym.Choice("len", 5)
	text, lines := verifLayout("text", n, vsym.Choice("newlines", 1<<n))
	g, out, _ := verifNewGrep(`(?m)a`, 40)
	g.PreContext, g.PostContext = vsym.Choice("before", 2), 1
	if vsym.Choice("mode", 2) == 0 {
		g.L = true
	} else {
		g.C = true
	}
	g.Reader(verifSource(text), "f")
	vsym.Assert(vsym.EqStr(out.String(), verifGrepRef("f", lines, verifMatches(`(?m)a`, lines), g.L, g.C, false, false)), "context changes what -l or -c prints")
	vsym.Cover("modes")
}

// Many lines of context, around two matches anywhere among 30 lines.
func VerifC06_wide() {
	k := vsym.Choice("context", 7)
	before, after := []int{3, 0, 4, 10, 12, 29, 1}[k], []int{0, 5, 4, 2, 12, 31, 11}[k]
	places := []int{0, 29, 4, 11, 13, 20, 12, 1, 28}
	i, j := places[vsym.Choice("match", vsym.Pick(6, 9))], places[vsym.Choice("match", vsym.Pick(6, 9))]
	var text []byte
	var lines [][]byte
	for n := 0; n < 30; n++ {
		l := []byte{' ', 'b', 'x', byte('A' + n)}
		if n == i || n == j {
			l[1] = 'a'
		}
		if n == 14 {
			l[2] = vsym.Byte("text")
			vsym.Assume(vsym.Or(l[2] == ' ', l[2] == 'x'))
		}
		text = append(append(text, l...), '\n')
		lines = append(lines, l)
	}
	// from a buffer that holds the context and little more to one for all
	size := 5*(before+after+2) + []int{0, 7, 1, 200}[vsym.Choice("buffer", vsym.Pick(2, 4))]
	g, out, errs := verifNewGrep(`(?m)a`, size)
	g.PreContext, g.PostContext = before, after
	g.Reader(&verifReader{data: text, err: verifEOF}, "f")
	m := make([]bool, 30)
	m[i], m[j] = true, true
	vsym.Assert(vsym.EqStr(out.String(), verifBlocks("f", lines, m, before, after, false)), "the blocks are not the matching lines with their context")
	vsym.Assert(errs.String() == "" && g.Match, "the match indicator is wrong")
	vsym.Cover("scanned")
}
