package main

import (
	"os"
	"strings"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// csweb finds what is in the members of archives.
func VerifC22_csweb() {
	d := vsym.TempDir()
	file := d + "/.idx"
	os.Setenv("CSEARCHINDEX", file)
	text := "say hello\nbye\n"
	ix := index.Create(file)
	ix.Zip = true
	ix.AddRoots([]index.Path{index.MakePath(d)})
	verifPut(d+"/a", text)
	ix.AddFile(d + "/a")
	for _, n := range []string{"u", "v"} {
		n = d + "/" + n + ".zip"
		verifPut(n, vref.Zip(vref.Member{Name: "a", Text: text}, vref.Member{Name: "d/b", Text: "hello"}))
		vsym.Assert(ix.AddFile(n) == nil, "cannot index an archive")
	}
	ix.Flush()
	want := d + "/a:1:say hello\n"
	for _, n := range []string{"u", "v"} {
		n = d + "/" + n + ".zip"
		switch vsym.Choice("fate", 5) {
		case 0:
			want += n + "\x01a:1:say hello\n" + n + "\x01d/b:1:hello\n"
		case 1:
			os.Remove(n)
		case 2:
			verifPut(n, "no archive: hello")
		case 3:
			verifPut(n, vref.Zip(vref.Member{Name: "d/b", Text: "hello", Kind: vsym.Choice("kind", 4)}, vref.Member{Name: "c", Text: text}))
			want += n + "\x01d/b:1:hello\n"
		case 4:
			verifPut(n, vref.Zip(vref.Member{Name: "a", Text: text}, vref.Member{Name: "d/b", Text: "hello", Kind: 5}))
			want += n + "\x01a:1:say hello\n"
		}
	}
	f := []string{"", "[uv]", "a$"}[vsym.Choice("filter", 3)]
	if f != "" {
		s := ""
		for _, l := range strings.SplitAfter(want, "\n") {
			n, _, _ := strings.Cut(l, ":")
			if l != "" && vref.NewText([]byte(n), true, true).Match(vref.Parse(f)) {
				s += l
			}
		}
		want = s
	}
	_, body := verifBody(verifPage(verifHome("hello", f)))
	s := strings.TrimPrefix(vref.Texts(body), "\n")
	vsym.Assert(strings.HasPrefix(s, want+"\n"), "csweb does not find what is in the members of archives")
	vsym.Cover("found")
}

// csweb finds members of any names.
func VerifC22_cswebNames() {
	d := vsym.TempDir()
	file := d + "/.idx"
	os.Setenv("CSEARCHINDEX", file)
	letters := "a/-.0~"
	name := func(tag string, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = letters[vsym.Choice(tag, len(letters))]
		}
		return string(b)
	}
	m := name("name", vsym.Pick(2, 3))
	vsym.Assume(m[len(m)-1] != '/') // a directory
	c := vsym.Byte("text")
	vsym.Assume(vsym.And(c >= 'a', c <= 'z'))
	// an archive, a text of such a name, and a member of such a name
	z, t := d+"/u.zip", d+"/v.zip"
	ix := index.Create(file)
	ix.AddRoots([]index.Path{index.MakePath(d)})
	ix.Zip = true
	verifPut(z, vref.Zip(vref.Member{Name: m, Text: "hello\n"}, vref.Member{Name: "zz.zip", Text: "hello\n"}))
	verifPut(t, "hello\n")
	vsym.Assert(ix.AddFile(z) == nil, "cannot index an archive")
	ix.Zip = false
	vsym.Assert(ix.AddFile(t) == nil, "cannot index a text")
	ix.Flush()
	text := string([]byte{c}) + "ello"
	verifPut(z, vref.Zip(vref.Member{Name: m, Text: text + "\n"}, vref.Member{Name: "zz.zip", Text: text + "\n"}))
	verifPut(t, text+"\n")
	want := ""
	if c == 'h' {
		l := z + "\x01" + m + ":1:hello\n"
		want = z + "\x01zz.zip:1:hello\n"
		if m[0] == '~' {
			want += l
		} else {
			want = l + want
		}
		want += t + ":1:hello\n"
	}
	_, body := verifBody(verifPage(verifHome("hello", "")))
	s := strings.TrimPrefix(vref.Texts(body), "\n")
	vsym.Assert(strings.HasPrefix(s, want+"\n") || want == "" && strings.HasPrefix(s, "0 matches"), "csweb does not find what is in members of archives")
	vsym.Cover("found")
}
