package main

import (
	"os"
	"strconv"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// verifName is any name of n bytes that can be indexed, and more.
func verifName(tag string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte(tag)
		vsym.Assume(vsym.And(b[i] >= ' ', b[i] != '/'))
	}
	if n < 3 {
		vsym.Assume(b[0] != '.')
	}
	return string(b) + []string{"", "41", "\u00e9"}[vsym.Choice(tag+" end", 3)]
}

// verifFollow does what a browser and the server do with a link.
func verifFollow(href string) (string, vref.URL) {
	u, ok := vref.Link(href)
	if !ok {
		vsym.Note(href)
		vsym.Fail("a link is not a valid URL")
	}
	vsym.Assert(strings.HasPrefix(u.Path, "/show/"), "a link leads to something else")
	return strings.TrimPrefix(u.Path, "/show"), u
}

// The links of a search lead to the file, and in it to the line.
func VerifC26_results() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	dir := d
	if vsym.Choice("in directory", 2) == 1 {
		dir += "/a#b"
		os.Mkdir(dir, 0700)
	}
	name := dir + "/" + verifName("name", 1+vsym.Choice("length", vsym.Pick(3, 4)))
	pad := []int{0, 3, 10}[vsym.Choice("lines before", 3)]
	lines := append(strings.Split(strings.Repeat("-\n", pad), "\n")[:pad], "first x", "-", "x#y %41")
	verifPut(name, strings.Join(lines, "\n")+"\n")
	verifIndex(d, name)
	q := []string{"x", "x(#y)?", "x|%41"}[vsym.Choice("query", 3)]
	_, body := verifBody(verifPage(verifHome(q, "")))
	k := 0
	for _, it := range body {
		if it.Tag != "a" {
			continue
		}
		vsym.Assert(len(it.Vals) == 1, "a result is not a link")
		file, u := verifFollow(it.Vals[0])
		vsym.Assert(file == name, "the link of a result leads to something else than its file")
		w := verifShow(file)
		vsym.Assert(w.code == 0 || w.code == 200, "the link of a result leads nowhere")
		_, page := verifBody(verifPage(w))
		found := ""
		for i, it := range page {
			if it.Tag == "span" && len(it.Vals) == 1 && it.Vals[0] == u.Frag && i+1 < len(page) {
				found = page[i+1].Text
			}
		}
		vsym.Assert(k < 2 && strings.HasSuffix(found, "  "+lines[pad+2*k]+"\n"), "the link of a result leads to another line")
		k++
	}
	vsym.Assert(k == 2, "a result is not a link")
	vsym.Cover("followed")
}

// The links of a directory lead to what is in it, and those above every page to
// the directories on the way to it.
func VerifC26_browse() {
	d := vsym.TempDir() + "/t"
	os.Mkdir(d, 0700)
	a := d + "/" + verifName("directory", vsym.Pick(1, 2))
	os.Mkdir(a, 0700)
	name := verifName("name", vsym.Pick(2, 3))
	if vsym.Choice("is directory", 2) == 1 {
		os.Mkdir(a+"/"+name, 0700)
		verifPut(a+"/"+name+"/f", "f\n")
	} else {
		verifPut(a+"/"+name, "text\n")
	}
	verifPut(a+"/zzzz", "zz\n")
	at := []string{a, a + "/" + name}[vsym.Choice("page", 2)]
	w := verifShow(at)
	vsym.Assert(w.code == 0 || w.code == 200, "a page is missing")
	_, body := verifBody(verifPage(w))
	var ups, ins, labels []string
	above := true
	for i, it := range body {
		if it.Tag == "small" {
			above = false
		}
		if it.Tag != "a" || it.Vals[0] == "/" {
			continue
		}
		file, _ := verifFollow(it.Vals[0])
		label := ""
		if i+1 < len(body) {
			label = body[i+1].Text
		}
		if above {
			ups = append(ups, file)
		} else {
			ins = append(ins, file)
			labels = append(labels, label)
		}
	}
	// From the root down.
	elems := strings.Split(at, "/")
	vsym.Assert(len(ups) == len(elems), "a directory above the page has no link")
	for i := range ups {
		want := strings.Join(elems[:i+1], "/")
		if want == "" {
			want = "/"
		}
		vsym.Assert(ups[i] == want, "the link to a directory above leads to something else")
	}
	if at == a {
		names := []string{name, "zzzz"}
		if name > "zzzz" {
			names = []string{"zzzz", name}
		}
		vsym.Assert(len(ins) == 2, "something in the directory has no link")
		for i, n := range names {
			vsym.Assert(labels[i] == n, "something in the directory is not shown")
			vsym.Assert(ins[i] == a+"/"+n, "the link to something in a directory leads to something else")
			w := verifShow(ins[i])
			vsym.Assert(w.code == 0 || w.code == 200, "the link to something in a directory leads nowhere")
		}
		vsym.Cover("directory")
	} else {
		vsym.Cover("page " + strconv.FormatBool(len(ins) > 0))
	}
}
