package main

import (
	"os"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// Diagnostics add lines of their own to a page and change no other.
func VerifC28_page() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	n := vsym.Pick(3, 5)
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte("text")
		vsym.Assume(vsym.Or(vsym.Or(b[i] == 'a', b[i] == 'b'), b[i] == '\n'))
	}
	for _, f := range []string{"m", "y", "z"} {
		verifPut(d+"/"+f, "abab\nbaba\n")
	}
	verifIndex(d, d+"/m", d+"/y", d+"/z")
	verifPut(d+"/m", string(b))
	q := []string{"ab", "^b*$", "a|^$", "(", "b.a"}[vsym.Choice("query", 5)]
	f := []string{"", "m", "[yz]$", "none", ")"}[vsym.Choice("names", 5)]
	*verboseFlag = false
	plain := verifTexts(q, f)
	*verboseFlag = true
	verbose := verifTexts(q, f)
	*verboseFlag = false
	var left []string
	for _, l := range strings.SplitAfter(verbose, "\n") {
		if strings.HasPrefix(l, "post query identified ") || strings.HasPrefix(l, "filename regexp matched ") {
			continue
		}
		left = append(left, l)
	}
	vsym.Assert(vsym.EqStr(strings.Join(left, ""), plain), "the page depends on the diagnostics asked for")
	vsym.Cover("same")
}

// verifTexts is the text of the page of a search up to the time it took.
func verifTexts(q, f string) string {
	_, body := verifBody(verifPage(verifHome(q, f)))
	t := strings.TrimPrefix(vref.Texts(body), "\n")
	if i := strings.LastIndex(t, " matches in "); i >= 0 {
		t = t[:i]
	}
	return t
}
