package regexp

import (
	"errors"
	"io"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

type verifOut struct{ b []byte }

func (o *verifOut) Write(p []byte) (int, error) {
	o.b = append(o.b, p...)
	return len(p), nil
}

type verifIn struct {
	s    string
	fail error
}

func (r *verifIn) Read(p []byte) (int, error) {
	if r.s == "" {
		if r.fail != nil {
			return 0, r.fail
		}
		return 0, io.EOF
	}
	n := copy(p, r.s)
	r.s = r.s[n:]
	return n, nil
}

// verifGrep runs the same search with and without HTML: the text of the HTML
// must be the plain output, and its tags only links.
func verifGrep(expr, name, text string, mode int, fail error) {
	re, err := Compile("(?m)" + expr)
	vsym.Assert(err == nil, "the expression is not accepted")
	var html, plain, errs verifOut
	g := Grep{Regexp: re, Stdout: &html, Stderr: &html, HTML: true}
	p := Grep{Regexp: re, Stdout: &plain, Stderr: &errs, N: true}
	switch mode {
	case 1:
		g.L, p.L = true, true
	case 2:
		g.C, p.C = true, true
	case 3:
		g.N = true
	case 4:
		g.PreContext, p.PreContext = 1, 1
	case 5:
		g.PostContext, p.PostContext = 1, 1
	}
	g.Reader(&verifIn{text, fail}, name)
	p.Reader(&verifIn{text, fail}, name)
	items, wrong := vref.Page(string(html.b))
	if wrong != "" {
		vsym.Note(string(html.b))
		vsym.Fail("text becomes markup: " + wrong)
	}
	want := string(plain.b)
	if fail != nil {
		want = want + string(errs.b)
		if mode == 2 {
			want = string(errs.b) + string(plain.b)
		}
	}
	vsym.Assert(vsym.EqStr(vref.Texts(items), want), "what is shown differs from what is found")
	open := false
	for _, it := range items {
		switch it.Tag {
		case "":
		case "a":
			vsym.Assert(!open && len(it.Attrs) == 1 && it.Attrs[0] == "href", "a result changes the markup of the page")
			open = true
		case "/a":
			vsym.Assert(open, "a result changes the markup of the page")
			open = false
		default:
			vsym.Fail("a result changes the markup of the page")
		}
	}
	vsym.Assert(!open, "a result changes the markup of the page")
	if want == "" {
		vsym.Cover("none")
	} else {
		vsym.Cover("shown")
	}
}

var verifNames = []string{"/f", "/<b>", "/a&lt;\"'", "/x#y.zip\x01a<b"}

// Any text, in every mode.
func VerifC20_grep() {
	n := 1 + vsym.Choice("len", vsym.Pick(4, 5))
	b := make([]byte, n)
	nl := vsym.Choice("newlines", 1<<n)
	expr := []string{"a", "<|&|^$", "[<-z]+", "[^a]"}[vsym.Choice("expr", 4)]
	mode := vsym.Choice("mode", 6)
	for i := range b {
		if nl>>i&1 != 0 {
			b[i] = '\n'
			continue
		}
		b[i] = vsym.Byte("text")
		vsym.Assume(vsym.Or(vsym.Or(b[i] == 'a', b[i] == 'b'), vsym.Or(vsym.Or(b[i] == '<', b[i] == '>'), vsym.Or(b[i] == '&', vsym.Or(b[i] == '"', b[i] == '\'')))))
	}
	verifGrep(expr, verifNames[0], string(b), mode, nil)
}

// Any name, expression and error.
func VerifC20_parts() {
	b := make([]byte, 1+vsym.Choice("name length", vsym.Pick(3, 4)))
	for i := range b {
		b[i] = vsym.Byte("name")
		vsym.Assume(b[i] >= ' ')
	}
	name := "/" + string(b)
	expr := []string{"a", "<b>", "\"", "&(amp)?", "'|a", "[<>]|[a#]"}[vsym.Choice("expr", 6)]
	var fail error
	if vsym.Choice("fail", 2) == 1 {
		fail = errors.New("read " + name + ": <bad>")
	}
	verifGrep(expr, name, "<b>a\n&amp;\n\"'\n", vsym.Choice("mode", 6), fail)
}
