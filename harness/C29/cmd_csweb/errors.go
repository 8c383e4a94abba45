package main

import (
	"os"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// A query or file filter that does not parse is shown as wrong, and nothing else.
func VerifC29_page() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	verifPut(d+"/m", "axb\n(x)\nx*\n")
	verifIndex(d, d+"/m")
	c := vsym.Byte("letter")
	vsym.Assume(vsym.And(c >= 'a', c <= 'z'))
	x := string([]byte{c})
	bad := []string{"(" + x, x + ")", "[" + x, "*" + x, x + "**", x + "\\", x + "{2,1}", "(?z)" + x, x + "\xff", "\\p{Q" + x + "}"}[vsym.Choice("expr", 10)]
	q, f, want := bad, "", "Bad query: "
	switch vsym.Choice("where", 3) {
	case 1:
		q, f, want = "a", bad, "Bad -f flag: "
	case 2:
		f = "m"
	}
	_, body := verifBody(verifPage(verifHome(q, f)))
	text := strings.TrimPrefix(vref.Texts(body), "\n")
	vsym.Assert(strings.HasPrefix(text, want) && strings.Count(text, "\n") == 1 && text[len(text)-1] == '\n' && len(text) > len(want)+5, "the page does not show just what is wrong")
	for _, it := range body {
		vsym.Assert(it.Tag != "a", "the page of a wrong query has results")
	}
	vsym.Cover("shown")
}

// A page for what does not exist says so.
func VerifC29_show() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	verifPut(d+"/m", "text\n")
	b := vsym.Bytes("name", 1+vsym.Choice("length", vsym.Pick(2, 3)))
	for _, c := range b {
		vsym.Assume(vsym.And(c >= ' ', vsym.And(c != '/', c < 0x7f)))
	}
	name := string(b)
	vsym.Assume(vsym.And(name != "m", vsym.And(name != ".", name != "..")))
	path := d + "/" + name
	if vsym.Choice("below a file", 2) == 1 {
		path = d + "/m/" + name
	}
	w := verifShow(path)
	vsym.Assert(w.code >= 400 && strings.Contains(string(w.body), path), "the page of a missing file does not say so")
	vsym.Cover("shown")
}
