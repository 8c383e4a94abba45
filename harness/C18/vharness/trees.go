package vharness

import (
	"os"
	"sort"

	"github.com/google/codesearch/internal/vsym"
)

// sorted puts slash-separated names into path order.
func sorted(l []string) []string {
	key := func(s string) string {
		b := []byte(s)
		for i := range b {
			if b[i] == '/' {
				b[i] = 0
			}
		}
		return string(b)
	}
	sort.Slice(l, func(i, j int) bool { return key(l[i]) < key(l[j]) })
	return l
}

func hidden(elem string) bool {
	last := elem[len(elem)-1]
	return vsym.Or(vsym.Or(elem[0] == '.', elem[0] == '#'), vsym.Or(elem[0] == '~', last == '~'))
}

// Any name, or a path of two names, of a file, a directory, a deeper file or a link.
func VerifC18_names() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r/deep")
	n := 1 + vsym.Choice("len", vsym.Pick(3, 5))
	slash := vsym.Choice("slash", n) // 0 for none
	b := vsym.Bytes("name", n)
	for i, c := range b {
		if i > 0 && i == slash {
			b[i] = '/'
			continue
		}
		vsym.Assume(vsym.And(c > ' ', vsym.And(c != '/', c < 0x7f)))
	}
	name := string(b)
	first := name
	if slash > 0 {
		vsym.Assume(slash < n-1)
		first = name[:slash]
		vsym.Assume(first != "." && first != ".." && name[slash+1:] != "." && name[slash+1:] != "..")
		vsym.Assume(first != "deep")
	}
	vsym.Assume(name != "." && name != "..")
	vsym.Assume(first != "m" && first != "z" && name != "z")
	hide := hidden(first)
	if slash > 0 {
		hide = vsym.Or(hide, hidden(name[slash+1:]))
	}
	want := []string{"r/deep/z", "r/m"}
	w.put("r/m", "text\n")
	w.put("r/deep/z", "text\n")
	if slash > 0 {
		w.mkdir("r/" + first)
	}
	switch vsym.Choice("kind", 4) {
	case 0:
		w.put("r/"+name, "text\n")
		if !hide {
			want = append(want, "r/"+name)
		}
	case 1:
		vsym.Assume(name != "deep")
		w.mkdir("r/" + name)
		w.put("r/"+name+"/f", "text\n")
		if !hide {
			want = append(want, "r/"+name+"/f")
		}
	case 2:
		if slash > 0 {
			w.mkdir("r/deep/" + first)
		}
		w.put("r/deep/"+name, "text\n")
		if !hide {
			want = append(want, "r/deep/"+name)
		}
	case 3:
		// a link is not a regular file
		os.Symlink(w.dir+"/r/m", w.dir+"/r/"+name)
	}
	p := w.run("idx", "cindex", "r")
	vsym.Assert(p.Code == 0, "cindex fails")
	vsym.Assert(sameStrings(w.names("idx"), sorted(want)), "the index does not hold exactly the eligible files below the root")
	p = w.run("idx", "csearch", "-l", "text")
	out := ""
	for _, n := range want {
		out += w.dir + "/" + n + "\n"
	}
	vsym.Assert(p.Stdout == out, "a search does not find all the files")
	vsym.Cover("indexed")
}

// A file whose content is not text is left out, and the others are not.
func VerifC18_content() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	w.put("r/a", "text\n")
	w.put("r/z", "text\n")
	texts := []string{"text\n", "text", "text\x00\n", "text\xff\n", "text\xc3\xa9\n", "text\xc3\n", "te", "", "\r\ntext\r\n"}
	bad := []bool{false, false, true, true, false, true, false, false, false}
	k := vsym.Choice("content", len(texts))
	w.put("r/m", texts[k])
	p := w.run("idx", "cindex", "r")
	vsym.Assert(p.Code == 0, "cindex fails")
	want := []string{"r/a", "r/m", "r/z"}
	if bad[k] {
		want = []string{"r/a", "r/z"}
	}
	vsym.Assert(sameStrings(w.names("idx"), want), "the index does not hold exactly the text files")
	vsym.Cover("indexed")
}

// Two or three arguments of any kind: nested, repeated, missing, hidden, files,
// links, spelled in several ways.
func VerifC18_roots() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("a/sub/deep")
	w.mkdir("a/.hid")
	w.mkdir("a-b")
	w.mkdir("b")
	all := []string{"a-b/f", "a/.hid/f", "a/f", "a/sub-1", "a/sub/deep/f", "a/sub/f", "ab", "b/f"}
	for _, n := range all {
		w.put(n, "text\n")
	}
	os.Symlink(w.dir+"/b", w.dir+"/link")
	spell := []string{"a", "a/sub", "a/sub/deep", "a-b", "b", "./a/", "b/../a", w.dir + "/a", "a/f", "ab", "nothing", "a/.hid", ".no", "link", "."}
	clean := []string{"a", "a/sub", "a/sub/deep", "a-b", "b", "a", "a", "a", "a/f", "ab", "nothing", "a/.hid", ".no", "link", ""}
	var args, roots []string
	n := 1 + vsym.Choice("args", 3)
	for i := 0; i < n; i++ {
		k := vsym.Choice("arg", len(spell))
		args = append(args, spell[k])
		r := clean[k]
		roots = append(roots, r)
	}
	under := func(f, r string) bool {
		return r == "" || f == r || len(f) > len(r) && f[:len(r)+1] == r+"/"
	}
	var want []string
	for _, f := range all {
		in := false
		for _, r := range roots {
			if under(f, r) && f != "a/.hid/f" {
				in = true
			}
		}
		if in {
			want = append(want, f)
		}
	}
	var tops []string
	for i, r := range roots {
		top := true
		for j, s := range roots {
			if under(r, s) && (r != s || j < i) {
				top = false
			}
		}
		if top {
			tops = append(tops, r)
		}
	}
	list := ""
	for _, r := range sorted(tops) {
		if r == "" {
			list += w.dir + "\n"
		} else {
			list += w.dir + "/" + r + "\n"
		}
	}
	var idx string
	if hasArg(args, ".") {
		// the index must not be among the files
		os.Mkdir(w.dir+"/.x", 0700)
		idx = ".x/idx"
	} else {
		idx = "idx"
	}
	k := vsym.Choice("before", 3)
	switch k {
	case 1:
		p := w.run(idx, "cindex", "b")
		vsym.Assert(p.Code == 0, "cindex fails")
	case 2:
		p := w.run(idx, "cindex", "a", "b")
		vsym.Assert(p.Code == 0, "cindex fails")
		args = append([]string{"-reset"}, args...)
	}
	p := w.run(idx, "cindex", args...)
	vsym.Assert(p.Code == 0, "cindex fails")
	if k == 1 {
		in := false
		for _, r := range roots {
			in = in || under("b", r)
		}
		if !in {
			want = append(want, "b/f")
			list = ""
			for _, r := range sorted(append(tops, "b")) {
				list += w.dir + "/" + r + "\n"
			}
		}
	}
	for i := 0; i < 2; i++ {
		vsym.Assert(sameStrings(w.names(idx), sorted(want)), "the index does not hold exactly the files below its roots, each once")
		vsym.Assert(sameStrings(w.having(idx, "tex"), sorted(want)), "the index does not find all the files below its roots")
		p = w.run(idx, "cindex", "-list")
		vsym.Assert(p.Code == 0 && p.Stdout == list, "the listing does not show exactly the roots")
		if i == 0 {
			// without arguments
			p = w.run(idx, "cindex")
			vsym.Assert(p.Code == 0, "cindex fails")
		}
	}
	vsym.Cover("indexed")
}

// A name of any bytes, among other files: what cannot be indexed is left out
// and does not keep others from being indexed.
func VerifC18_anyname() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	b := vsym.Bytes("name", 1+vsym.Choice("len", vsym.Pick(5, 8)))
	bad := false
	for _, c := range b {
		vsym.Assume(vsym.And(c != '/', c != 0))
		bad = vsym.Or(bad, c < ' ')
	}
	name := string(b)
	vsym.Assume(name != "." && name != "..")
	vsym.Assume(name != "m" && name != "z")
	w.put("r/m", "text\n")
	w.put("r/z", "text\n")
	w.put("r/"+name, "text\n")
	last := b[len(b)-1]
	skip := vsym.Or(bad, vsym.Or(vsym.Or(b[0] == '.', b[0] == '#'), vsym.Or(b[0] == '~', last == '~')))
	var want []string
	if skip {
		want = []string{"r/m", "r/z"}
	} else if name < "m" {
		want = []string{"r/" + name, "r/m", "r/z"}
	} else if name < "z" {
		want = []string{"r/m", "r/" + name, "r/z"}
	} else {
		want = []string{"r/m", "r/z", "r/" + name}
	}
	p := w.run("idx", "cindex", "r")
	vsym.Assert(p.Code == 0, "cindex fails")
	vsym.Assert(sameStrings(w.names("idx"), want), "the index does not hold exactly the eligible files below the root")
	vsym.Assert(sameStrings(w.having("idx", "tex"), want), "the index does not find all the files below its root")
	p = w.run("idx", "csearch", "-l", "text")
	out := ""
	for _, n := range want {
		out += w.dir + "/" + n + "\n"
	}
	vsym.Assert(p.Stdout == out, "a search does not find all the files")
	vsym.Cover("indexed")
}

// Any permission bits of a file and of a directory that can be read.
func VerifC18_mode() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r/d")
	for _, n := range []string{"r/d/f", "r/e", "r/g"} {
		w.put(n, "text\n")
	}
	m, d := vsym.Uint16("file"), vsym.Uint16("directory")
	vsym.Assume(vsym.And(m < 0o1000, m&0o400 != 0))
	vsym.Assume(vsym.And(d < 0o1000, d&0o700 == 0o700))
	if os.Chmod(w.dir+"/r/e", os.FileMode(m)) != nil || os.Chmod(w.dir+"/r/d", os.FileMode(d)) != nil {
		vsym.Fail("chmod")
	}
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	want := []string{"r/d/f", "r/e", "r/g"}
	vsym.Assert(sameStrings(w.names("idx"), want), "the mode of a file matters")
	vsym.Assert(sameStrings(w.having("idx", "tex"), want), "the mode of a file matters")
	vsym.Cover("indexed")
}

// Any tree of two levels and two (thorough three) names, each nothing, a file
// or a directory.
func VerifC18_shape() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	var want []string
	var fill func(dir string, depth int)
	fill = func(dir string, depth int) {
		// names that a sort by bytes and one by path elements order differently
		for _, e := range []string{"a", "a-", "a.b"}[:vsym.Pick(2, 3)] {
			n := dir + "/" + e
			switch vsym.Choice("kind", 3) {
			case 1:
				w.put(n, "text\n")
				want = append(want, n)
			case 2:
				w.mkdir(n)
				if depth < 2 {
					fill(n, depth+1)
				}
			}
		}
	}
	fill("r", 1)
	root := []string{"r", "r/a", "./r//"}[vsym.Choice("root", 3)]
	if root == "r/a" {
		var in []string
		for _, n := range want {
			if n == "r/a" || len(n) > 4 && n[:4] == "r/a/" {
				in = append(in, n)
			}
		}
		want = in
	}
	want = sorted(want)
	vsym.Assert(w.run("idx", "cindex", root).Code == 0, "cindex fails")
	vsym.Assert(sameStrings(w.names("idx"), want), "the index does not hold exactly the files below the root")
	vsym.Assert(sameStrings(w.having("idx", "tex"), want), "the index does not find all the files below the root")
	vsym.Cover("indexed")
}

// Deep trees and full directories.
func VerifC18_big() {
	w := &world{dir: vsym.TempDir()}
	c := vsym.Byte("name")
	vsym.Assume(vsym.And(c > ' ', vsym.And(c != '/', c < 0x7f)))
	name := string([]byte{'a', c})
	vsym.Assume(vsym.And(c != 'a', c != '~'))
	var want []string
	if vsym.Choice("shape", 2) == 0 {
		dir := "r"
		for i := 0; i < vsym.Pick(12, 40); i++ {
			dir += "/" + name
			w.mkdir(dir)
			w.put(dir+"/aaa", "text\n")
			w.put(dir+"/.a", "text\n")
			want = append(want, dir+"/aaa")
		}
	} else {
		w.mkdir("r")
		n := vsym.Pick(70, 300)
		for i := 0; i < n; i++ {
			f := "r/b" + string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
			w.put(f, "text\n")
			want = append(want, f)
		}
		w.put("r/"+name, "text\n")
		want = append([]string{"r/" + name}, want...)
	}
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	want = sorted(want)
	vsym.Assert(sameStrings(w.names("idx"), want), "the index does not hold exactly the files below the root")
	vsym.Assert(sameStrings(w.having("idx", "tex"), want), "the index does not find all the files below the root")
	vsym.Cover("indexed")
}

// An argument of any name, for a directory or a file.
func VerifC18_arg() {
	w := &world{dir: vsym.TempDir()}
	b := vsym.Bytes("name", 1+vsym.Choice("length", vsym.Pick(2, 4)))
	for _, c := range b {
		vsym.Assume(vsym.And(c >= ' ', vsym.And(c != '/', c != 0x7f)))
	}
	name := string(b)
	vsym.Assume(vsym.And(b[0] != '-', vsym.Not(hidden(name))))
	vsym.Assume(name != "." && name != ".." && name != "z")
	w.mkdir("z")
	w.put("z/f", "text\n")
	want := name
	if vsym.Choice("what", 2) == 0 {
		w.mkdir(name)
		w.put(name+"/f", "text\n")
		want += "/f"
	} else {
		w.put(name, "text\n")
	}
	arg := []string{name, "./" + name, w.dir + "/" + name}[vsym.Choice("spelled", 3)]
	vsym.Assert(w.run("idx", "cindex", arg, "z").Code == 0, "cindex fails")
	ok := sameStrings(w.names("idx"), sorted([]string{want, "z/f"}))
	vsym.Assert(ok, "the index does not hold exactly the files below its roots")
	p := w.run("idx", "cindex", "-list")
	roots := sorted([]string{w.dir + "/" + name, w.dir + "/z"})
	vsym.Assert(vsym.EqStr(p.Stdout, roots[0]+"\n"+roots[1]+"\n"), "-list does not print the roots")
	vsym.Cover("indexed")
}
