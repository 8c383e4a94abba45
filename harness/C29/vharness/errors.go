package vharness

import (
	"html"
	"os"
	"regexp/syntax"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// printable is n symbolic printable bytes.
func printable(tag string, n int) string {
	b := vsym.Bytes(tag, n)
	for _, c := range b {
		vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	}
	return string(b)
}

// fails asserts that the run prints nothing and says why on one line.
func fails(p *vsym.Proc, what string) {
	vsym.Assert(p.Code == 1 || p.Code == 2, what+" and the command does not fail")
	vsym.Assert(p.Stdout == "", what+" and the command prints a result")
	vsym.Assert(strings.HasPrefix(p.Stderr, p.Name+": ") && strings.Count(p.Stderr, "\n") == 1 && p.Stderr[len(p.Stderr)-1] == '\n' && len(p.Stderr) > len(p.Name)+4, what+" and the command does not say so on one line")
}

// bad are expressions that do not parse whatever letter stands for x.
var bad = []string{"(x", "x)", "[x", "*x", "x**", "x\\", "x{2,1}", "(?P<x", "[z-a]x", "x\\8", "(?z)x", "x\xff", "x{1001}", "x(?", "\\p{Qx}", "[[:x:]]", "x|*", "(?=x)", "x\\Qa\\E)", "+", "x[]"}

// An expression that does not parse.
func VerifC29_expr() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	w.put("r/a", "axb\n(x)\nx*\n")
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	c := vsym.Byte("letter")
	vsym.Assume(vsym.And(c >= 'a', c <= 'z'))
	k := vsym.Choice("expr", len(bad))
	if bad[k] == "[[:x:]]" {
		vsym.Assume(c == 'x')
	}
	e := strings.ReplaceAll(bad[k], "x", string([]byte{c}))
	arg := e
	if e[0] == '-' {
		vsym.Assume(false)
	}
	flags := verifFlags([]string{"", "n", "l", "i"}[vsym.Choice("flags", 4)])
	switch vsym.Choice("command", 4) {
	case 0:
		fails(w.run("idx", "csearch", append(flags, arg)...), "the expression does not parse")
	case 1:
		fails(w.run("idx", "csearch", append(append(flags, "-f", e), "a")...), "the expression for names does not parse")
	case 2:
		fails(w.run("idx", "cgrep", append(flags, arg, w.dir+"/r/a")...), "the expression does not parse")
	case 3:
		p := w.proc("idx", "cgrep", append(flags, arg)...)
		p.Stdin = "axb\n"
		vsym.Run(p)
		fails(p, "the expression does not parse")
	}
	vsym.Cover("failed")
}

// Any short expression: one that parses is searched for, and any other reported.
func VerifC29_anyExpr() {
	e := printable("expr", vsym.Pick(2, 3))
	vsym.Assume(e[0] != '-')
	p := &vsym.Proc{Name: "cgrep", Args: []string{e}, Stdin: "ab\n"}
	vsym.Run(p)
	if _, err := syntax.Parse("(?m)"+e, syntax.Perl); err != nil {
		vsym.Cover("invalid")
		fails(p, "the expression does not parse")
		return
	}
	vsym.Cover("valid")
	vsym.Assert(p.Stderr == "" && (p.Code == 0) == (p.Stdout == "<standard input>:ab\n") && (p.Code == 1) == (p.Stdout == ""), "an expression that parses is not searched for")
}

// Files that cannot be read are reported, each on a line, and the others are
// searched as if they were not there.
func VerifC29_files() {
	d := vsym.TempDir()
	os.Mkdir(d+"/dir", 0700)
	n := 1 + vsym.Choice("length", vsym.Pick(2, 3))
	b := vsym.Bytes("name", n)
	for _, c := range b {
		vsym.Assume(vsym.And(c > ' ', vsym.And(c != '/', c < 0x7f)))
	}
	name := string(b)
	vsym.Assume(name != "." && name != "..")
	vsym.Assume(vsym.And(name != "a", name != "z"))
	text := vsym.Byte("text")
	vsym.Assume(vsym.And(text >= ' ', text < 0x7f))
	os.WriteFile(d+"/a", []byte("ab\nc"+string([]byte{text})+"\n"), 0600)
	os.WriteFile(d+"/z", []byte("ca\n\nab"), 0600)
	good := []string{d + "/a", d + "/z"}
	flags := [][]string{nil, {"-n"}, {"-c"}, {"-l"}, {"-h"}, {"-A", "1"}}[vsym.Choice("flags", 6)]
	expr := []string{"ab", "c[^c]", "q"}[vsym.Choice("expr", 3)]
	args := append(flags[:len(flags):len(flags)], expr)
	ref := &vsym.Proc{Name: "cgrep", Args: append(args[:len(args):len(args)], good...)}
	vsym.Run(ref)
	at := vsym.Choice("where", 3)
	broken := [][]string{{d + "/" + name}, {d + "/dir/" + name}, {d + "/a/" + name}, {d + "/dir"}, {d + "/" + name, d + "/dir/" + name}}[vsym.Choice("what", 5)]
	vsym.Assume(name != "dir")
	all := append(good[:at:at], broken...)
	all = append(all, good[at:]...)
	p := &vsym.Proc{Name: "cgrep", Args: append(args[:len(args):len(args)], all...)}
	vsym.Run(p)
	vsym.Assert(vsym.EqStr(p.Stdout, ref.Stdout) && p.Code == ref.Code && ref.Stderr == "", "a file that cannot be read changes what is found in others")
	lines := strings.SplitAfter(p.Stderr, "\n")
	vsym.Assert(len(lines) == len(broken)+1 && lines[len(broken)] == "", "cgrep does not say on one line each what it could not read")
	for i, f := range broken {
		vsym.Assert(strings.Contains(lines[i], f), "cgrep does not name the file it could not read")
	}
	vsym.Cover("reported")
}

// What cannot be indexed is reported, and the index is that of the rest.
func VerifC29_index() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r/d")
	w.put("r/a", "text\n")
	w.put("r/d/z", "text\n")
	c, k := vsym.Byte("name"), vsym.Byte("name")
	vsym.Assume(vsym.And(c > ' ', vsym.And(c != '/', c < 0x7f)))
	vsym.Assume(vsym.And(c != '.', vsym.And(c != '#', c != '~')))
	vsym.Assume(vsym.And(k > 0, k < ' '))
	name := string([]byte{c})
	args := []string{"r"}
	want := []string{"r/a", "r/d/z"}
	named := ""
	vsym.Assume(vsym.And(name != "r", vsym.And(name != "a", name != "d")))
	switch vsym.Choice("what", 5) {
	case 0: // a root that does not exist
		args = append([]string{name}, args...)
		named = w.dir + "/" + name
	case 1: // after the others
		args = append(args, name+"x")
		named = w.dir + "/" + name + "x"
	case 2: // a name with a control character
		named = w.dir + "/r/" + name + string([]byte{k}) + "e"
		w.put("r/"+name+string([]byte{k})+"e", "text\n")
	case 3: // an archive that is none
		w.put("r/"+name+".zip", "text, no archive\n")
		args = append([]string{"-zip"}, args...)
		named = w.dir + "/r/" + name + ".zip"
	case 4: // a member that cannot be read, among others
		bad := 4 + vsym.Choice("kind", 3)
		w.put("r/x.zip", vref.Zip(vref.Member{Name: "0", Text: "text\n"}, vref.Member{Name: name, Text: "text", Kind: bad}, vref.Member{Name: "zz", Text: "text\n"}))
		vsym.Assume(name != "0")
		args = append([]string{"-zip"}, args...)
		named = w.dir + "/r/x.zip\x01" + name
		want = append(want, "r/x.zip\x010", "r/x.zip\x01zz")
	}
	p := w.run("idx", "cindex", args...)
	vsym.Assert(p.Code == 0 && p.Stdout == "", "cindex fails because of one file")
	vsym.Assert(strings.Contains(p.Stderr, named+": "), "cindex does not say what it could not index")
	vsym.Assert(sameStrings(w.names("idx"), want), "the rest is not indexed")
	vsym.Assert(sameStrings(w.having("idx", "tex"), want), "the rest is not indexed")
	vsym.Cover("reported")
}

// Without an index, or with wrong arguments, a command says so.
func VerifC29_use() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	w.put("r/a", "text\n")
	idx := "no" + printable("index", 1)
	vsym.Assume(vsym.And(idx != "no/", idx != "no."))
	switch vsym.Choice("use", 6) {
	case 0:
		fails(w.run(idx, "csearch", "text"), "there is no index")
	case 1:
		fails(w.run(idx, "cindex", "-list"), "there is no index")
	case 2:
		fails(w.run(idx, "cindex"), "there is no index")
	case 3:
		p := w.run(idx, "csearch")
		vsym.Assert(p.Code == 2 && p.Stdout == "" && strings.HasPrefix(p.Stderr, "usage: csearch "), "csearch without arguments does not show its usage")
	case 4:
		p := w.run(idx, "csearch", "a", "b")
		vsym.Assert(p.Code == 2 && p.Stdout == "" && strings.HasPrefix(p.Stderr, "usage: csearch "), "csearch with two expressions does not show its usage")
	case 5:
		p := w.run(idx, "cgrep")
		vsym.Assert(p.Code == 2 && p.Stdout == "" && strings.HasPrefix(p.Stderr, "usage: cgrep "), "cgrep without arguments does not show its usage")
	}
	vsym.Assert(w.get(idx) == "missing", "a failing command leaves an index")
	vsym.Cover("said")
}

// A file that has become unreadable since it was indexed is passed over, with a
// message if it is still there, and the others are searched.
func VerifC29_search() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	n := 1 + vsym.Choice("length", vsym.Pick(2, 3))
	b := vsym.Bytes("name", n)
	for _, c := range b {
		vsym.Assume(vsym.And(c >= ' ', vsym.And(c != '/', c < 0x7f)))
	}
	vsym.Assume(vsym.And(vsym.And(b[0] != '.', b[0] != '#'), vsym.And(b[0] != '~', b[n-1] != '~')))
	name := "r/" + string(b)
	vsym.Assume(vsym.And(name != "r/a", name != "r/y"))
	w.put("r/a", "text\nother\n")
	w.put("r/y", "more text")
	vsym.Assert(w.run("some", "cindex", "r").Code == 0, "cindex fails")
	w.put(name, "text\n")
	vsym.Assert(w.run("all", "cindex", "r").Code == 0, "cindex fails")
	args := [][]string{{"text"}, {"-n", "tex+"}, {"-l", "text"}, {"-c", "te"}, {"-brute", "o"}, {"-f", "r/.*", "text"}, {"-html", "text"}, {"qqq"}}[vsym.Choice("args", 8)]
	w.del(name)
	dir := vsym.Choice("directory", 2) == 1
	if dir {
		w.mkdir(name)
	}
	p := w.run("all", "csearch", args...)
	q := w.run("some", "csearch", args...)
	vsym.Assert(vsym.EqStr(p.Stdout, q.Stdout) && p.Code == q.Code && q.Stderr == "", "a file that cannot be read changes what is found in others")
	if args[0] == "qqq" || !dir {
		vsym.Assert(p.Stderr == "", "csearch complains about files that do not matter")
	} else {
		esc := w.dir + "/" + name
		if args[0] == "-html" {
			esc = html.EscapeString(esc)
		}
		vsym.Assert(strings.HasPrefix(p.Stderr, esc+": ") && strings.Count(p.Stderr, "\n") == 1, "csearch does not say which file it could not read")
	}
	vsym.Cover("passed over")
}
