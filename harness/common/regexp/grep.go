package regexp

import (
	"bytes"
	"errors"
	"io"
	"strconv"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

var verifErr = errors.New("read failed")

var verifEOF = io.EOF

// verifReader delivers data in pieces, then err (with the last piece if together).
type verifReader struct {
	data     []byte
	size     int
	together bool
	err      error
}

func (r *verifReader) Read(b []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	k := len(r.data)
	if r.size > 0 {
		k = min(k, r.size)
	}
	n := copy(b, r.data[:k])
	r.data = r.data[n:]
	if r.together && len(r.data) == 0 {
		return n, r.err
	}
	return n, nil
}

func verifSource(data []byte) *verifReader {
	r := &verifReader{data: data, err: io.EOF}
	switch vsym.Choice("read", vsym.Pick(3, 5)) {
	case 1:
		r.size = 1
	case 2:
		r.size, r.together = 3, true
	case 3:
		r.size = 4
	case 4:
		r.together = true
	}
	return r
}

// verifLayout is n bytes of text: newlines at the places given by the bits of
// nl, any other byte elsewhere. It also returns the lines, without newlines.
func verifLayout(tag string, n, nl int) (text []byte, lines [][]byte) {
	text = make([]byte, n)
	start := 0
	for i := range text {
		if nl>>i&1 != 0 {
			text[i] = '\n'
			lines = append(lines, text[start:i:i])
			start = i + 1
			continue
		}
		text[i] = vsym.Byte(tag)
		vsym.Assume(vsym.And(text[i] != '\n', text[i] < 0x80))
	}
	if start < n {
		lines = append(lines, text[start:n:n])
	}
	return
}

// verifLongest returns the length of the longest line with its newline.
func verifLongest(lines [][]byte) int {
	m := 0
	for _, l := range lines {
		m = max(m, len(l)+1)
	}
	return m
}

// verifMatches decides which lines match.
func verifMatches(expr string, lines [][]byte) []bool {
	return verifMatchesIn(expr, lines, false, false)
}

// verifMatchesIn is verifMatches for lines that begin where the text begins (bot)
// or end where it ends (eot).
func verifMatchesIn(expr string, lines [][]byte, bot, eot bool) []bool {
	re := vref.Parse(expr)
	var m []bool
	for i, l := range lines {
		if vref.NewText(l, bot && i == 0, eot && i == len(lines)-1).Match(re) {
			m = append(m, true)
		} else {
			m = append(m, false)
		}
	}
	return m
}

func verifNewGrep(expr string, bufsize int) (g *Grep, out, errs *bytes.Buffer) {
	re, err := Compile(expr)
	vsym.Assert(err == nil, "an expression does not compile")
	out, errs = new(bytes.Buffer), new(bytes.Buffer)
	g = &Grep{Regexp: re, Stdout: out, Stderr: errs}
	verifSetBuf(g, bufsize)
	return
}

// verifGrepRef is what grep prints for the lines of one file.
func verifGrepRef(name string, lines [][]byte, m []bool, l, c, n, h bool) string {
	var out []byte
	count := 0
	for i, line := range lines {
		if !m[i] {
			continue
		}
		count++
		if l {
			return name + "\n"
		}
		if c {
			continue
		}
		if !h {
			out = append(out, name+":"...)
		}
		if n {
			out = append(out, strconv.Itoa(i+1)+":"...)
		}
		out = append(out, line...)
		out = append(out, '\n')
	}
	if c && count > 0 {
		return name + ": " + strconv.Itoa(count) + "\n"
	}
	return string(out)
}

func verifAnyOf(m []bool) bool {
	for _, x := range m {
		if x {
			return true
		}
	}
	return false
}
