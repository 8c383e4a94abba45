package main

import (
	"os"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// The web interface uses the index that the environment names.
func VerifC27_csweb() {
	d := vsym.TempDir() + "/t"
	for _, n := range []string{"", "/home", "/at"} {
		os.Mkdir(d+n, 0700)
	}
	verifPut(d+"/a", "say hello\n")
	verifPut(d+"/b", "say hello\n")
	name := "/" + []string{".csearchindex", "idx", "a b"}[vsym.Choice("name", 3)]
	os.Setenv("HOME", d+"/home"+[]string{"", "/"}[vsym.Choice("slash", 2)])
	verifIndex(d+"/home", d+"/a")
	verifIndex(d+"/at", d+"/b")
	vsym.Assert(os.Rename(d+"/home/.idx", d+"/home/.csearchindex") == nil, "setup: cannot rename")
	vsym.Assert(os.Rename(d+"/at/.idx", d+"/at"+name) == nil, "setup: cannot rename")
	want := "/b"
	switch vsym.Choice("environment", 3) {
	case 0:
		os.Setenv("CSEARCHINDEX", d+"/at"+name)
	case 1:
		os.Setenv("CSEARCHINDEX", "")
		want = "/a"
	case 2:
		os.Unsetenv("CSEARCHINDEX")
		want = "/a"
	}
	_, body := verifBody(verifPage(verifHome("hel+o", "")))
	text := strings.TrimPrefix(vref.Texts(body), "\n")
	vsym.Assert(strings.HasPrefix(text, d+want+":1:say hello\n\n1 matches"), "the web interface does not use the index that the environment names")
	vsym.Cover("found")
}
