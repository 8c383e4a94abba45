package regexp

import (
	"io"
	"strconv"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

type verifOut struct{ b []byte }

func (o *verifOut) Write(p []byte) (int, error) {
	o.b = append(o.b, p...)
	return len(p), nil
}

type verifIn struct{ s string }

func (r *verifIn) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	n := copy(p, r.s)
	r.s = r.s[n:]
	return n, nil
}

// verifLinks searches text, of which the lines with the given numbers match, in
// the named file.
func verifLinks(expr, name, text string, mode int, lines ...int) {
	re, err := Compile("(?m)" + expr)
	vsym.Assert(err == nil, "the expression is not accepted")
	var out verifOut
	g := Grep{Regexp: re, Stdout: &out, Stderr: &out, HTML: true}
	switch mode {
	case 1:
		g.L = true
	case 2:
		g.C = true
	case 3:
		g.N = true
	}
	g.Reader(&verifIn{text}, name)
	items, wrong := vref.Page(string(out.b))
	vsym.Assert(wrong == "", "text becomes markup")
	k := 0
	for _, it := range items {
		if it.Tag != "a" {
			continue
		}
		vsym.Assert(len(it.Attrs) == 1 && it.Attrs[0] == "href", "a result is not a link")
		u, ok := vref.Link(it.Vals[0])
		if !ok {
			vsym.Note(it.Vals[0])
			vsym.Fail("the link of a result is not a valid URL")
		}
		vsym.Assert(vsym.EqStr(u.Path, "/show"+name), "the link of a result leads to something else than its file")
		if mode != 1 && mode != 2 {
			vsym.Assert(k < len(lines) && u.HasFrag && u.Frag == "L"+strconv.Itoa(lines[k]), "the link of a result leads to another line")
		}
		k++
	}
	if mode == 1 || mode == 2 {
		vsym.Assert(k == 1, "a result is not a link")
	} else {
		vsym.Assert(k == len(lines), "a result is not a link")
	}
	vsym.Cover("shown")
}

// Any name that can be indexed.
func VerifC26_names() {
	n := 1 + vsym.Choice("len", vsym.Pick(2, 3))
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte("name")
		vsym.Assume(vsym.And(b[i] >= ' ', b[i] != '/'))
	}
	name := []string{"/", "/r/s/", "/r/x.zip\x01"}[vsym.Choice("dir", 3)] + string(b)
	if vsym.Choice("more", 2) == 1 {
		name += ".go"
	}
	verifLinks("a", name, "a\nb\na\n", vsym.Choice("mode", 4), 1, 3)
}

// Any expression, shown by the link together with the line.
func VerifC26_exprs() {
	special := "#&?%+ \"<;=a\\"
	expr := ""
	for i := 1 + vsym.Choice("len", vsym.Pick(2, 3)); i > 0; i-- {
		c := special[vsym.Choice("expr", len(special))]
		switch c {
		case '?', '+', '\\':
			expr += "\\"
		}
		expr += string(c)
	}
	if vsym.Choice("non-ASCII", 2) == 1 {
		expr += "|\u00e9"
	}
	name := []string{"/f", "/r/a#b?c", "/%41"}[vsym.Choice("name", 3)]
	verifLinks("zz|"+expr, name, strings.Repeat("-\n", 9)+"zz\n-\nzz", vsym.Choice("mode", 4), 10, 12)
}
