package main

import (
	"os"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// A round of requests leaves no more open than the round before it.
func VerifC30_requests() {
	vsym.Held()
	d := vsym.TempDir()
	c := vsym.Byte("text")
	vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	os.Mkdir(d+"/t", 0700)
	text := "te" + string([]byte{c}) + "t\nx\n"
	names := []string{d + "/t/a", d + "/t/b.zip", d + "/t/c.zip"}
	verifPut(names[0], "text\nx\n")
	verifPut(names[1], vref.Zip(vref.Member{Name: "m", Text: "text\nx\n"}, vref.Member{Name: "n", Text: "text\nx\n"}))
	verifPut(names[2], vref.Zip(vref.Member{Name: "m", Text: "text\nx\n"}))
	file := d + "/.idx"
	os.Setenv("CSEARCHINDEX", file)
	ix := index.Create(file)
	ix.Zip = true
	ix.AddRoots([]index.Path{index.MakePath(d)})
	for _, n := range names {
		vsym.Assert(ix.AddFile(n) == nil, "setup: cannot index")
	}
	ix.Flush()
	verifPut(names[0], text)
	verifPut(names[1], vref.Zip(vref.Member{Name: "m", Text: text}, vref.Member{Name: "n", Text: text, Kind: 4 * vsym.Choice("member", 2)}))
	switch vsym.Choice("now", 4) {
	case 1:
		os.Remove(names[1])
		os.Remove(names[0])
	case 2:
		verifPut(names[1], "none")
	case 3:
		os.Remove(names[1])
		os.Mkdir(names[1], 0700)
	}
	what := vsym.Choice("request", 9)
	filter := ""
	if what == 5 {
		filter = []string{"b", "zip.[mn]$", "(", "nothing"}[vsym.Choice("file", 4)]
	}
	n := 0
	for i := 0; i < 4; i++ {
		switch what {
		case 0, 1, 2, 3, 4:
			verifHome([]string{"t.xt", "x", "nothing", "(", ""}[what], "")
		case 5:
			verifHome("x", filter)
		case 6, 7, 8:
			verifShow([]string{d + "/t", names[0], names[1]}[what-6])
		}
		if i < 2 {
			n = vsym.Held()
		}
	}
	vsym.Assert(vsym.Held() <= n, "each request leaves files open or mapped")
	vsym.Cover("answered")
}
