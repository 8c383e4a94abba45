package vharness

import (
	"regexp/syntax"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

func splitLines(s string) (lines [][]byte) {
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			lines = append(lines, []byte(s[start:i]))
			start = i + 1
		}
	}
	if start < len(s) {
		lines = append(lines, []byte(s[start:]))
	}
	return
}

// letters is n bytes over two letters, with newlines at any places.
func letters(tag string, n int) (text string, lines [][]byte) {
	nl := vsym.Choice("newlines", 1<<n)
	b := make([]byte, n)
	start := 0
	for i := range b {
		if nl>>i&1 != 0 {
			b[i] = '\n'
			lines = append(lines, b[start:i:i])
			start = i + 1
			continue
		}
		b[i] = vsym.Byte(tag)
		vsym.Assume(vsym.Or(b[i] == 'a', b[i] == 'b'))
	}
	if start < n {
		lines = append(lines, b[start:])
	}
	return string(b), lines
}

// Any text: a search prints what a scan finds.
func VerifC19_text() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	t, l := letters("text", vsym.Pick(5, 6))
	w.put("r/m", t)
	w.put("r/z", "xabab\n")
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	exprs := []string{"aba", "ab.?b", "abb|baa", "a*bba", "^ab", "(ab)+$", "[ab]{3}", "b", "^$", "a.*b", "bb(a|b)b?", "^a|b$", "(a|ba)(b|ab)a?", "x?aab|bab?b$"}
	e := exprs[vsym.Choice("expr", 14)]
	w.search(e, "n", "", []string{"r/m", "r/z"}, [][][]byte{l, splitLines("xabab\n")})
}

// search runs csearch and compares its output with a scan.
func (w *world) search(expr, flags, f string, names []string, lines [][][]byte, more ...string) {
	args := append(verifFlags(flags), more...)
	if f != "" {
		args = append(args, "-f", f)
	}
	p := w.run("idx", "csearch", append(args, expr)...)
	want, any := "", false
	for i, n := range names {
		n = w.dir + "/" + n
		if f != "" && !vref.NewText([]byte(n), true, true).Match(vref.Parse(f)) {
			continue
		}
		if lines[i] == nil {
			continue // the file has disappeared
		}
		s, m := verifWant(expr, n, lines[i], flags)
		want += s
		any = any || m
	}
	vsym.Assert(vsym.EqStr(p.Stdout, want), "csearch does not print what a scan of the files finds")
	vsym.Assert(p.Stderr == "", "csearch writes to standard error")
	vsym.Assert(any == (p.Code == 0) && p.Code <= 1, "the exit status does not say whether anything matched")
	if any {
		vsym.Cover("matched")
	} else {
		vsym.Cover("none")
	}
}

var corpus = []string{
	"hello world\nGoodbye\n\nHELLO\n",
	"say hello\nhello hello\n",
	"nothing to see\n\u212aelvin kelvin\nMa\u00dfe \u017foft\n",
	"",
	"last line without end: hello",
	"\n\n",
}

var corpusNames = []string{"r/a.c", "r/b.go", "r/d/c.c", "r/d/empty", "r/d.txt", "r/e.c"}

func (w *world) fill() (lines [][][]byte) {
	w.mkdir("r/d")
	for i, n := range corpusNames {
		w.put(n, corpus[i])
		l := splitLines(corpus[i])
		if l == nil {
			l = [][]byte{}
		}
		lines = append(lines, l)
	}
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	return
}

var exprs = []string{"hello", "Hello", "^hello$", "hel+o .*d", "goodbye|nothing", "zzzz", "", "^$", "kelvin", "o[ f]t", "masse|ma\u00dfe", "\\bhello\\b", "(say )?hello hello", ".", "$", "last.*hello$", "soft", "\\Bello", "\\S\\W\\S", "\\Ahel|\\D{6}"}

// Every flag, alone and combined, and files that have disappeared.
func VerifC19_flags() {
	w := &world{dir: vsym.TempDir()}
	lines := w.fill()
	gone := vsym.Choice("gone", vsym.Pick(4, 8))
	for i := 0; i < 3; i++ {
		if gone>>i&1 != 0 {
			w.del(corpusNames[2*i])
			lines[2*i] = nil
		}
	}
	flags := verifSets[vsym.Choice("flags", len(verifSets))]
	e := exprs[vsym.Choice("expr", len(exprs))]
	var more []string
	if vsym.Choice("brute", 2) == 1 {
		more = []string{"-brute"}
	}
	w.search(e, flags, "", corpusNames, lines, more...)
}

// Expressions for names.
func VerifC19_filter() {
	w := &world{dir: vsym.TempDir()}
	lines := w.fill()
	fs := []string{"\\.c$", "\\.go$", "/d/", "r/[ad]", "^r", "^/", "txt|go", "(?i)\\.C$", "nothing", ".", "[^c]$", "r/d(/|\\.)", "e\\.c$|mpty", "\\bb\\b", "^.*d.*$", "(?-s).c$"}
	f := fs[vsym.Choice("filter", len(fs))]
	e := exprs[vsym.Choice("expr", len(exprs))]
	flags := []string{"", "l", "ic", "n"}[vsym.Choice("flags", vsym.Pick(2, 4))]
	w.search(e, flags, f, corpusNames, lines)
}

// Names with any character, with an expression for them.
func VerifC19_names() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	c := "ab.-+ c"[vsym.Choice("char", 7)]
	d := "xb.$"[vsym.Choice("char2", 4)]
	name := "r/n" + string(c) + string(d)
	w.put(name, "hello\n")
	w.put("r/z", "hello\n")
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	f := []string{"n.b$", "n\\.", "[a-c]x?$", "n. ?", "\\$$", "n(a|b|\\+)\\.$"}[vsym.Choice("filter", 6)]
	w.search("hello", "l", f, []string{name, "r/z"}, [][][]byte{{[]byte("hello")}, {[]byte("hello")}})
}

// More than a block of names and more than a byte of file numbers.
func VerifC19_many() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	var names []string
	var lines [][][]byte
	n := vsym.Pick(70, 300)
	for i := 0; i < n; i++ {
		name := "r/" + string([]byte{byte('a' + i/26), byte('a' + i%26)})
		t := "common line\n"
		if i%7 == 3 {
			t += "seventh\n"
		}
		if i == n/2 {
			t += "middle\n"
		}
		w.put(name, t)
		names = append(names, name)
		lines = append(lines, splitLines(t))
	}
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	e := []string{"common", "seventh", "middle", "seventh|middle", "seven.*th", "(?i)MIDDLE", "com.*le", "absent", "n"}[vsym.Choice("expr", 9)]
	w.search(e, []string{"", "l"}[vsym.Choice("flags", 2)], "", names, lines)
}

var oneLiners = []string{
	"abc", "abd", "abcd", "abcdef", "ABC", "xabcx", "abc def", "abcxyz", "defabc", "aab", "ababab", "acd", "bcde", "abcdefghi", "xya", "xyh", "xyzb",
	"yzd", "yzaqe", "aef", "\u00e9a", "\u65e5\u672c", "as\u212ais", "ask", "gb", "hbc", "abc1 ab2", "GET /", "if a", "a b", "aaa bbb", "ghij", "cdgh", "k-abc", "q", "",
}

// Expressions that are looked up in every way, on many files of one line.
func VerifC19_exprs() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	var names []string
	var lines [][][]byte
	for i, l := range oneLiners {
		n := "r/" + string([]byte{byte('a' + i/26), byte('a' + i%26)})
		w.put(n, l+"\n")
		names = append(names, n)
		lines = append(lines, [][]byte{[]byte(l)})
	}
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	i := vsym.Choice("expr", len(vref.LongExprs)+vsym.Pick(600, 9000))
	e := ""
	if i < len(vref.LongExprs) {
		e = vref.LongExprs[i]
	} else {
		i -= len(vref.LongExprs)
		e = vref.Seeded(vsym.Seed(), i).Gen(1+i%3, vref.LongLeaves)
	}
	w.search(e, []string{"h", "hi"}[i%2], "", names, lines)
}

// Any expression of a few bytes at all.
func VerifC19_anyExpr() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	texts := []string{"aB 1\n\n-\n", "bab\nAc_\n"}
	names := []string{"r/a", "r/b"}
	var lines [][][]byte
	for i, t := range texts {
		w.put(names[i], t)
		lines = append(lines, splitLines(t))
	}
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	b := make([]byte, 1+vsym.Choice("expr length", vsym.Pick(2, 3)))
	for i := range b {
		b[i] = vsym.Byte("expr")
		vsym.Assume(vsym.And(b[i] >= ' ', b[i] < 0x7f))
	}
	vsym.Assume(b[0] != '-')
	e := string(b)
	flags := []string{"n", "in"}[vsym.Choice("flags", 2)]
	if _, err := syntax.Parse("(?m)"+e, syntax.Perl); err != nil {
		p := w.run("idx", "csearch", append(verifFlags(flags), e)...)
		vsym.Assert(p.Code != 0 && p.Stdout == "" && p.Stderr != "", "something that is not an expression is searched for")
		vsym.Cover("error")
		return
	}
	w.search(e, flags, "", names, lines)
}
