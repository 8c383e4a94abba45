package vharness

import (
	"os"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

func zipLetters(tag string, n int) (text string, lines [][]byte) {
	nl := vsym.Choice("newlines", 1<<n)
	b := make([]byte, n)
	start := 0
	for i := range b {
		if nl>>i&1 != 0 {
			b[i] = '\n'
			lines = append(lines, b[start:i:i])
			start = i + 1
			continue
		}
		b[i] = vsym.Byte(tag)
		vsym.Assume(vsym.Or(b[i] == 'a', b[i] == 'b'))
	}
	if start < n {
		lines = append(lines, b[start:])
	}
	return string(b), lines
}

// Any text of a member: a search prints what a scan finds.
func VerifC22_text() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	t, l := zipLetters("text", vsym.Pick(4, 5))
	w.put("r/x.zip", vref.Zip(vref.Member{Name: "z", Text: "bab\n"}, vref.Member{Name: "d/m", Text: t, Kind: 3}))
	vsym.Assert(w.run("idx", "cindex", "-zip", "r").Code == 0, "cindex fails")
	exprs := []string{"aba", "ab.?b", "a*bba", "^ab", "(ab)+$", "b", "^$", "bb(a|b)b?"}
	e := exprs[vsym.Choice("expr", 8)]
	flags := []string{"n", "l", "c", "h"}[vsym.Choice("flags", vsym.Pick(2, 4))]
	want, any := "", false
	for _, m := range []struct {
		name  string
		lines [][]byte
	}{{"d/m", l}, {"z", [][]byte{[]byte("bab")}}} {
		s, a := verifWant(e, w.dir+"/r/x.zip\x01"+m.name, m.lines, flags)
		want += s
		any = any || a
	}
	p := w.run("idx", "csearch", append(verifFlags(flags), e)...)
	vsym.Assert(vsym.EqStr(p.Stdout, want), "csearch does not print what a scan of the members finds")
	vsym.Assert(p.Stderr == "" && any == (p.Code == 0), "csearch does not print what a scan of the members finds")
	vsym.Cover("searched")
}

// zipName is any name of up to n bytes.
func zipName(tag string, n int) string {
	b := make([]byte, 1+vsym.Choice(tag+" length", n))
	for i := range b {
		b[i] = vsym.Byte(tag)
		vsym.Assume(b[i] >= ' ')
	}
	return string(b)
}

// expect asserts that csearch lists exactly these files for a search for hello.
func (w *world) expect(names []string, what string) {
	vref.PathSort(names)
	want := ""
	for _, n := range names {
		want += w.dir + "/" + n + "\n"
	}
	p := w.run("idx", "csearch", "-l", "hel+o")
	if p.Stdout != want {
		vsym.Note(want)
		vsym.Note(p.Stdout)
		vsym.Fail(what)
	}
	q := w.run("idx", "csearch", "hel+o")
	want = ""
	for _, n := range names {
		want += w.dir + "/" + n + ":say hello\n"
	}
	vsym.Assert(q.Stdout == want, what)
}

// Members of any names, in any order, among other files.
func VerifC22_names() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	a := zipName("first", vsym.Pick(2, 3))
	b := zipName("second", vsym.Pick(1, 2))
	vsym.Assume(a != b)
	text := "say hello\nbye\n"
	w.put("r/x.zip", vref.Zip(vref.Member{Name: a, Text: text}, vref.Member{Name: b, Text: text}, vref.Member{Name: "a0", Text: "none"}, vref.Member{Name: "b/", Text: ""}, vref.Member{Name: "b/c", Text: text}))
	w.put("r/x", text)
	w.put("r/x.zip.z", text)
	w.put("r/x.zip-", text)
	w.put("r/x0", text)
	w.put("r/y.zip", vref.Zip(vref.Member{Name: b, Text: text}))
	names := []string{"r/x.zip\x01b/c", "r/x", "r/x.zip.z", "r/x.zip-", "r/x0"}
	if a[len(a)-1] != '/' { // not a directory
		names = append(names, "r/x.zip\x01"+a)
	}
	if b[len(b)-1] != '/' {
		names = append(names, "r/x.zip\x01"+b, "r/y.zip\x01"+b)
	}
	vsym.Assume(a != "a0")
	vsym.Assume(b != "a0")
	vsym.Assert(w.run("idx", "cindex", "-zip", "r").Code == 0, "cindex fails")
	w.expect(names, "the members of an archive are not found by their names")
	vsym.Cover("found")
}

// Archives made in different ways, with members that are not indexed.
func VerifC22_kinds() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	text := "say hello\nbye\n"
	bad := []vref.Member{
		{Name: "bad", Text: "say hello\x00\n"},
		{Name: "bad", Text: "say hello\xff\xfe\n"},
		{Name: "bad", Text: "say hello\n" + strings.Repeat("x", 2001)},
		{Name: "bad", Text: text, Kind: 4},
		{Name: "bad", Text: text, Kind: 5},
		{Name: "bad", Text: text, Kind: 6},
		{Name: "bad/", Text: ""},
		{Name: "bad", Text: ""},
	}[vsym.Choice("bad", 8)]
	k, l := vsym.Choice("kind", 4), vsym.Choice("kind2", 4)
	m := []vref.Member{{Name: "a", Text: text, Kind: k}, {Name: "m/b", Text: text, Kind: l}}
	at := vsym.Choice("where", 3)
	m = append(m[:at:at], append([]vref.Member{bad}, m[at:]...)...)
	before := []string{"", "#!/bin/sh\n"}[vsym.Choice("before", 2)]
	comment := []string{"", "a comment"}[vsym.Choice("comment", 2)]
	w.put("r/x.zip", vref.ZipAround(before, comment, m...))
	w.put("r/y", text)
	zip := vsym.Choice("zip", 2) == 1
	if zip {
		vsym.Assert(w.run("idx", "cindex", "-zip", "r").Code == 0, "cindex fails")
		w.expect([]string{"r/x.zip\x01a", "r/x.zip\x01m/b", "r/y"}, "the eligible members of an archive are not what is found")
	} else {
		vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
		w.expect([]string{"r/y"}, "an archive is not an ordinary file without -zip")
	}
	vsym.Cover("found")
}

// A search for one member after another, with archives that go away or change.
func VerifC22_gone() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	text := "say hello\nbye\n"
	for _, n := range []string{"u", "v", "x"} {
		w.put("r/"+n+".zip", vref.Zip(vref.Member{Name: "a", Text: text}, vref.Member{Name: "b", Text: text, Kind: 1}))
	}
	w.put("r/w", text)
	vsym.Assert(w.run("idx", "cindex", "-zip", "r").Code == 0, "cindex fails")
	var names []string
	for _, n := range []string{"u", "v", "x"} {
		both := []string{"r/" + n + ".zip\x01a", "r/" + n + ".zip\x01b"}
		switch vsym.Choice("fate", 6) {
		case 0:
			names = append(names, both...)
		case 1:
			w.del("r/" + n + ".zip")
		case 2:
			w.put("r/"+n+".zip", "no archive: hello")
		case 3:
			w.put("r/"+n+".zip", vref.Zip(vref.Member{Name: "b", Text: text}, vref.Member{Name: "c", Text: text}))
			names = append(names, both[1])
		case 4:
			w.put("r/"+n+".zip", vref.Zip(vref.Member{Name: "a", Text: text}, vref.Member{Name: "b", Text: "other"}))
			names = append(names, both[0])
		case 5:
			w.put("r/"+n+".zip", vref.Zip(vref.Member{Name: "a", Text: text}, vref.Member{Name: "b", Text: text, Kind: 5}))
			names = append(names, both[0])
		}
	}
	w.expect(append(names, "r/w"), "a search does not find what the archives have now")
	vsym.Cover("found")
}

// Updates replace and remove all members of an archive.
func VerifC22_history() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	text := "say hello\nbye\n"
	w.put("r/a", text)
	w.put("r/x.zip.txt", text)
	w.put("r/y", text)
	plain := []string{"r/a", "r/x.zip.txt", "r/y"}
	root := []string{"r", "r/x.zip"}[vsym.Choice("root", 2)]
	w.put("r/x.zip", vref.Zip(vref.Member{Name: "p", Text: text}))
	vsym.Assert(w.run("idx", "cindex", "-zip", "r").Code == 0, "cindex fails")
	there := true
	for step := 0; step < vsym.Pick(2, 3); step++ {
		if there {
			w.del("r/x.zip")
		}
		there = true
		var in, out []string
		switch vsym.Choice("archive", 6) {
		case 0:
			w.put("r/x.zip", vref.Zip(vref.Member{Name: "p", Text: text}, vref.Member{Name: "q/r", Text: text}))
			in = []string{"r/x.zip\x01p", "r/x.zip\x01q/r"}
		case 1:
			w.put("r/x.zip", vref.Zip(vref.Member{Name: "q", Text: text}))
			in = []string{"r/x.zip\x01q"}
		case 2:
			w.put("r/x.zip", vref.Zip(vref.Member{Name: "p", Text: "none"}))
		case 3:
			w.put("r/x.zip", vref.Zip())
		case 4:
			// removed: only an update of the directory notices
			root, there = "r", false
		case 5:
			w.mkdir("r/x.zip/d")
			w.put("r/x.zip/d/f", text)
			in, out = []string{"r/x.zip/d/f"}, []string{"r/x.zip/d/f"}
		}
		if vsym.Choice("zip", 2) == 1 {
			vsym.Assert(w.run("idx", "cindex", "-zip", root).Code == 0, "cindex fails")
			w.expect(append(in, plain...), "an update does not replace the members of an archive")
		} else {
			vsym.Assert(w.run("idx", "cindex", root).Code == 0, "cindex fails")
			w.expect(append(out, plain...), "an update does not remove the members of an archive")
		}
		if out != nil {
			w.del("r/x.zip/d/f")
			w.del("r/x.zip/d")
			out = nil
		}
	}
	vsym.Cover("updated")
}

// Any permission bits of the archive.
func VerifC22_mode() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	text := "say hello\nbye\n"
	w.put("r/x.zip", vref.Zip(vref.Member{Name: "a", Text: text}, vref.Member{Name: "m/b", Text: text, Kind: 1}))
	w.put("r/y", text)
	m := vsym.Uint16("mode")
	vsym.Assume(vsym.And(m < 0o1000, m&0o400 != 0))
	if os.Chmod(w.dir+"/r/x.zip", os.FileMode(m)) != nil {
		vsym.Fail("chmod")
	}
	vsym.Assert(w.run("idx", "cindex", "-zip", "r").Code == 0, "cindex fails")
	w.expect([]string{"r/x.zip\x01a", "r/x.zip\x01m/b", "r/y"}, "the mode of an archive matters")
	vsym.Cover("found")
}

// An archive of many members.
func VerifC22_many() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	n := vsym.Pick(40, 140)
	c := vsym.Byte("text")
	vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	at := []int{0, 15, 16, 17, n - 1}[vsym.Choice("place", 5)]
	var ms []vref.Member
	want := ""
	for i := 0; i < n; i++ {
		m := vref.Member{Name: "d/m" + string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)}), Text: "text\n", Kind: 3}
		line := w.dir + "/r/x.zip\x01" + m.Name + ":text\n"
		if i == at {
			if c != 't' {
				line = ""
			}
		}
		ms = append(ms, m)
		want += line
	}
	w.put("r/x.zip", vref.Zip(ms...))
	w.put("r/y", "text\n")
	want += w.dir + "/r/y:text\n"
	vsym.Assert(w.run("idx", "cindex", "-zip", "r").Code == 0, "cindex fails")
	ms[at].Text = "tex" + string([]byte{c}) + "\n"
	w.put("r/x.zip", vref.Zip(ms...))
	p := w.run("idx", "csearch", "text")
	vsym.Assert(vsym.EqStr(p.Stdout, want) && p.Stderr == "" && p.Code == 0, "csearch does not print what a scan of the members finds")
	vsym.Cover("searched")
}

// Texts with the name of an archive, as files and as members.
func VerifC22_textual() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	c := vsym.Byte("text")
	vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	name := []string{"t.zip", "zip", "t.zip.txt", "tzip"}[vsym.Choice("name", 4)]
	zip := vsym.Choice("zip", 2) == 1
	text := "t" + string([]byte{c}) + "xt\n"
	member := func(t string) string { return vref.Zip(vref.Member{Name: "d/" + name, Text: t}) }
	w.put("r/a", "text\n")
	w.put("r/"+name, "text\n")
	w.put("r/x.zip", member("text\n"))
	var args []string
	if zip {
		args = append(args, "-zip")
	}
	vsym.Assert(w.run("idx", "cindex", append(args, "r")...).Code == 0, "cindex fails")
	w.put("r/"+name, text)
	w.put("r/x.zip", member(text))
	want := w.dir + "/r/a:text\n"
	if c == 'e' {
		if name != "t.zip" || !zip {
			want += w.dir + "/r/" + name + ":text\n"
		}
		if zip {
			l := w.dir + "/r/x.zip\x01d/" + name + ":text\n"
			if name < "x" {
				want += l
			} else {
				want = w.dir + "/r/a:text\n" + l + w.dir + "/r/" + name + ":text\n"
			}
		}
	}
	p := w.run("idx", "csearch", "text")
	vsym.Assert(vsym.EqStr(p.Stdout, want) && p.Stderr == "" && p.Code == 0, "csearch does not print what a scan of the files and members finds")
	vsym.Cover("searched")
}
