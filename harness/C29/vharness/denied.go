package vharness

import (
	"os"
	"strings"

	"github.com/google/codesearch/internal/vsym"
)

func (w *world) runUser(index, name string, args ...string) *vsym.Proc {
	p := w.proc(index, name, args...)
	p.User = true
	vsym.Run(p)
	return p
}

func (w *world) chmod(name string, mode uint16) {
	vsym.Assert(os.Chmod(w.dir+"/"+name, os.FileMode(mode)) == nil, "setup: cannot change the mode of "+name)
}

// deniedMode is a mode that lacks one right of the owner.
func deniedMode(without uint16) uint16 {
	m := vsym.Uint16("mode")
	vsym.Assume(vsym.And(m < 0o1000, m&without == 0))
	return m
}

// A file or directory that may not be read is named, and the others are indexed.
func VerifC29_denied() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r/k")
	c := vsym.Byte("name")
	vsym.Assume(vsym.And(c > ' ', vsym.And(c != '/', c < 0x7f)))
	vsym.Assume(vsym.And(c != '.', vsym.And(c != '#', c != '~')))
	vsym.Assume(vsym.And(c != 'b', vsym.And(c != 'k', c != 'y')))
	name := "r/" + string([]byte{c})
	want := []string{"r/b", "r/k/g", "r/y"}
	for _, f := range want {
		w.put(f, "text\n")
	}
	named := name
	var m uint16
	switch vsym.Choice("what", 4) {
	case 0: // a file
		w.put(name, "text\n")
		m = deniedMode(0o400)
	case 1: // a directory that cannot be listed
		w.mkdir(name)
		w.put(name+"/f", "text\n")
		m = deniedMode(0o400)
	case 2: // a directory whose files cannot be reached
		w.mkdir(name)
		w.put(name+"/f", "text\n")
		named += "/f"
		m = deniedMode(0o100)
		vsym.Assume(m&0o400 != 0)
	case 3: // a file in a directory
		name = "r/k/" + string([]byte{c})
		vsym.Assume(c != 'g')
		named = name
		w.put(name, "text\n")
		m = deniedMode(0o400)
	}
	w.chmod(name, m)
	p := w.runUser("idx", "cindex", "r")
	w.chmod(name, 0o700)
	vsym.Assert(p.Code == 0 && p.Stdout == "", "cindex fails because of one file")
	vsym.Assert(strings.Contains(p.Stderr, w.dir+"/"+named+": "), "cindex does not say what it could not index")
	vsym.Assert(sameStrings(w.names("idx"), want), "the rest is not indexed")
	vsym.Assert(sameStrings(w.having("idx", "tex"), want), "the rest is not indexed")
	vsym.Cover("reported")
}

// The same for a search: cgrep names the file, and csearch passes it over.
func VerifC29_deniedSearch() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	c := vsym.Byte("name")
	vsym.Assume(vsym.And(c > ' ', vsym.And(c != '/', c < 0x7f)))
	vsym.Assume(vsym.And(c != '.', vsym.And(c != '#', c != '~')))
	vsym.Assume(vsym.And(c != 'b', c != 'y'))
	name := "r/" + string([]byte{c})
	w.put("r/b", "text\nother\n")
	w.put("r/y", "more text")
	vsym.Assert(w.run("some", "cindex", "r").Code == 0, "cindex fails")
	w.put(name, "text\n")
	vsym.Assert(w.run("all", "cindex", "r").Code == 0, "cindex fails")
	flags := [][]string{nil, {"-n"}, {"-l"}, {"-c"}, {"-i"}, {"-h"}, {"-html"}}[vsym.Choice("flags", 7)]
	args := append(flags[:len(flags):len(flags)], []string{"text", "tex[^t]", "o"}[vsym.Choice("expr", 3)])
	q := w.run("some", "csearch", args...)
	m := deniedMode(0o400)
	w.chmod(name, m)
	p := w.runUser("all", "csearch", args...)
	vsym.Assert(vsym.EqStr(p.Stdout, q.Stdout) && p.Code == q.Code && p.Stderr == q.Stderr && q.Stderr == "", "a file that cannot be read changes what is found in others")
	if len(flags) > 0 && flags[0] == "-html" {
		w.chmod(name, 0o700)
		return
	}
	q = w.run("some", "cgrep", append(args[:len(args):len(args)], "r/b", "r/y")...)
	l := [][]string{{name, "r/b", "r/y"}, {"r/b", name, "r/y"}, {"r/b", "r/y", name}}[vsym.Choice("where", 3)]
	p = w.runUser("some", "cgrep", append(args[:len(args):len(args)], l...)...)
	w.chmod(name, 0o700)
	vsym.Assert(vsym.EqStr(p.Stdout, q.Stdout) && p.Code == q.Code && q.Stderr == "", "a file that cannot be read changes what is found in others")
	vsym.Assert(strings.Contains(p.Stderr, name) && strings.Count(p.Stderr, "\n") == 1, "cgrep does not say which file it could not read")
	vsym.Cover("reported")
}
