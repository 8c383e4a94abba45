package main

import (
	"os"
	"strconv"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

func verifSplit(s string) (lines [][]byte) {
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			lines = append(lines, []byte(s[start:i]))
			start = i + 1
		}
	}
	if start < len(s) {
		lines = append(lines, []byte(s[start:]))
	}
	return
}

// verifSearch asks for the page of a search and compares it with a scan; lines
// is nil for a file that has disappeared.
func verifSearch(q, f string, names []string, lines [][][]byte) {
	_, body := verifBody(verifPage(verifHome(q, f)))
	re := vref.Parse("(?m)" + q)
	want := ""
	k := 0
	for i, n := range names {
		if f != "" && !vref.NewText([]byte(n), true, true).Match(vref.Parse(f)) {
			continue
		}
		for j, l := range lines[i] {
			if vref.NewText(l, false, false).Match(re) {
				want += n + ":" + strconv.Itoa(j+1) + ":" + string(l) + "\n"
				k++
			}
		}
	}
	text := strings.TrimPrefix(vref.Texts(body), "\n")
	vsym.Assert(len(text) > len(want) && vsym.EqStr(text[:len(want)], want), "the page does not show what a scan of the files finds")
	rest := text[len(want):]
	end := "\n" + strconv.Itoa(k) + " matches"
	vsym.Assert(len(rest) > len(end) && vsym.EqStr(rest[:len(end)], end), "the page does not show what a scan of the files finds")
	if k > 0 {
		vsym.Cover("matched")
	} else {
		vsym.Cover("none")
	}
}

// Any text: the page shows what a scan finds.
func VerifC19_webText() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	exprs := []string{"aba", "ab.?b", "abb|baa", "a*bba", "^ab", "(ab)+$", "[ab]{3}", "b", "^a|b$", "a.*b", "bb(a|b)b?", "(a|ba)(b|ab)a?", "x?aab|bab?b$", "<*ab"}
	e := exprs[vsym.Choice("expr", 14)]
	n := vsym.Pick(4, 6)
	nl := vsym.Choice("newlines", 1<<n)
	b := make([]byte, n)
	var l [][]byte
	start := 0
	for i := range b {
		if nl>>i&1 != 0 {
			b[i] = '\n'
			l = append(l, b[start:i:i])
			start = i + 1
			continue
		}
		b[i] = vsym.Byte("text")
		vsym.Assume(vsym.Or(b[i] == 'a', b[i] == 'b'))
	}
	if start < n {
		l = append(l, b[start:])
	}
	names := []string{d + "/m", d + "/z"}
	verifPut(names[0], string(b))
	verifPut(names[1], "xabab\n")
	verifIndex(d, names...)
	verifSearch(e, "", names, [][][]byte{l, verifSplit("xabab\n")})
}

var verifCorpus = [][2]string{
	{"a.c", "hello world\nGoodbye\n\nHELLO\n"},
	{"b.go", "say hello\nhello hello\n"},
	{"d/c.c", "nothing to see\n\u212aelvin kelvin\nMa\u00dfe \u017foft\n"},
	{"d/empty", ""},
	{"d.txt", "last line without end: hello"},
	{"e.c", "\n\n"},
}

var verifQueries = []string{"hello", "Hello", "^hello$", "hel+o .*d", "Goodbye|nothing", "zzzz", "(?i)goodbye", "^$", "(?i)kelvin", "o[ f]t", "(?i)masse|ma\u00dfe", "\\bhello\\b", "(say )?hello hello", ".", "$", "last.*hello$", "(?i)soft"}

// Expressions for the lines and the names, and files that have disappeared.
func VerifC19_webFilter() {
	d := vsym.TempDir() + "/t"
	os.MkdirAll(d+"/d", 0700)
	var names []string
	var lines [][][]byte
	for _, c := range verifCorpus {
		names = append(names, d+"/"+c[0])
		lines = append(lines, verifSplit(c[1]))
		verifPut(d+"/"+c[0], c[1])
	}
	verifIndex(d, names...)
	q := verifQueries[vsym.Choice("query", len(verifQueries))]
	fs := []string{"", "\\.c$", "\\.go$", "/d/", "t/[ad]", "^t", "^/", "txt|go", "(?i)\\.C$", "nothing", ".", "[^c]$", "t/d(/|\\.)", "e\\.c$|mpty", "\\bb\\b"}
	f := fs[vsym.Choice("filter", len(fs))]
	gone := vsym.Choice("gone", vsym.Pick(3, 7))
	if gone > 0 {
		os.Remove(names[gone-1])
		lines[gone-1] = nil
	}
	verifSearch(q, f, names, lines)
}
