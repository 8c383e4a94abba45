package vharness

import (
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// csearch -html prints links and escaped text for any names, texts and flags.
func VerifC20_csearch() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	b := make([]byte, 1+vsym.Choice("name length", vsym.Pick(2, 3)))
	for i := range b {
		b[i] = vsym.Byte("name")
		vsym.Assume(vsym.And(b[i] >= ' ', b[i] != '/'))
	}
	// The files that cindex skips are not of interest here.
	vsym.Assume(vsym.And(vsym.And(b[0] != '.', b[0] != '#'), vsym.And(b[0] != '~', b[len(b)-1] != '~')))
	name := string(b)
	w.put("r/"+name, "<b>a\n&amp;\n\"'\n")
	w.put("r/gone", "<b>a\n")
	vsym.Assert(w.run("idx", "cindex", "r").Code == 0, "cindex fails")
	if vsym.Choice("gone", 2) == 1 {
		w.del("r/gone")
	}
	e := []string{"a", "<b>", "\"'", "&.*"}[vsym.Choice("expr", 4)]
	flags := [][]string{nil, {"-l"}, {"-c"}, {"-n"}, {"-h"}}[vsym.Choice("flags", 5)]
	if len(flags) > 0 && flags[0] == "-h" {
		flags = []string{"-f", "r/."}
	}
	pf := flags
	if len(flags) == 0 || flags[0] == "-f" {
		pf = append([]string{"-n"}, flags...)
	}
	p := w.run("idx", "csearch", append(append([]string{"-html"}, flags...), e)...)
	q := w.run("idx", "csearch", append(append([]string{}, pf...), e)...)
	items, wrong := vref.Page(p.Stdout)
	vsym.Assert(wrong == "", "text becomes markup")
	for _, it := range items {
		vsym.Assert(it.Tag == "" || it.Tag == "/a" || it.Tag == "a" && len(it.Attrs) == 1 && strings.Contains(it.Vals[0], w.dir), "a result changes the markup of the page")
	}
	vsym.Assert(vref.Texts(items) == q.Stdout, "what is shown differs from what is found")
	vsym.Assert(p.Code == q.Code, "what is shown differs from what is found")
	vsym.Cover("shown")
}
