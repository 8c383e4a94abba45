package index

import (
	"regexp/syntax"

	"github.com/google/codesearch/internal/vsym"
	"strings"
)

var verifExprs = []string{`hello`, `(?i)hello`, `abc|xyz`, `a.*z`, `(abc)?def`, ``, `[a-c]bc`, `(?i)k[a-b]x`, `zzzz`, `\x{e9}a`}

type verifLookup struct {
	file  string
	expr  string
	files string
	names string
	roots string
}

func (l *verifLookup) run() {
	re, err := syntax.Parse(l.expr, syntax.Perl)
	if err != nil {
		return
	}
	q := RegexpQuery(re)
	ix := Open(l.file)
	l.files, l.names, l.roots = "", "", ""
	for _, id := range ix.PostingQuery(q) {
		l.files += string(rune('a' + id))
		l.names += ix.Name(id).String() + " "
	}
	for _, id := range ix.PostingList(uint32('a')<<16 | uint32('b')<<8 | uint32('c')) {
		l.files += string(rune('a' + id))
	}
	for p := range ix.Roots().All() {
		l.roots += p.String()
	}
	for p := range ix.Names(0, 3) {
		l.names += p.String()
	}
	_ = q.String()
}

// Two lookups, in the same or in different indexes.
func VerifC25_lookup() {
	d := vsym.TempDir()
	files := []string{d + "/one", d + "/two"}
	for i, f := range files {
		ix := Create(f)
		ix.AddRoots([]Path{MakePath("/r")})
		for j, t := range []string{"hello abc\n", "xyz kax Kbx\n", "def\n\u00e9a hello\n", "abcdef\n"} {
			if (i+j)%3 != 2 {
				ix.Add("/r/f"+string(rune('0'+j)), strings.NewReader(t))
			}
		}
		ix.Flush()
	}
	a := &verifLookup{file: files[0], expr: verifExprs[vsym.Choice("first expr", len(verifExprs))]}
	b := &verifLookup{file: files[vsym.Choice("file", 2)], expr: verifExprs[vsym.Choice("second expr", len(verifExprs))]}
	vsym.Go(a.run, b.run)
	c, e := *a, *b
	a.run()
	b.run()
	vsym.Assert(c == *a && e == *b, "a lookup gives another answer than alone")
	vsym.Cover("ran")
}
