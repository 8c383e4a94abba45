package vharness

import (
	"os"
	"strings"

	"github.com/google/codesearch/internal/vsym"
)

// cgrep of standard input.
func VerifC05_stdin() {
	flags := verifSets[vsym.Choice("flags", len(verifSets))]
	expr := []string{"k", "^$", "a|b$"}[vsym.Choice("expr", 3)]
	n := vsym.Choice("len", vsym.Pick(4, 6))
	text, lines := verifText("text", n, vsym.Choice("newlines", 1<<n))
	p := &vsym.Proc{Name: "cgrep", Args: append(verifFlags(flags), expr), Stdin: string(text)}
	vsym.Run(p)
	want, any := verifWant(expr, "<standard input>", lines, flags)
	vsym.Assert(vsym.EqStr(p.Stdout, want), "cgrep does not print the matching lines of its input")
	vsym.Assert(p.Stderr == "", "cgrep writes to standard error")
	vsym.Assert(any == (p.Code == 0) && (any || p.Code == 1), "the exit status does not say whether a line matched")
	vsym.Cover("ran")
}

// cgrep of files, one of which may not exist.
func VerifC05_named() {
	flags := verifSets[vsym.Choice("flags", len(verifSets))]
	expr := []string{"k", "^b*$"}[vsym.Choice("expr", 2)]
	d := vsym.TempDir()
	n := vsym.Choice("len", vsym.Pick(3, 5))
	t1, l1 := verifText("first", n, vsym.Choice("newlines", 1<<n))
	t2, l2 := verifText("second", 2, vsym.Choice("newlines", 4))
	a, b, missing := d+"/a", d+"/b", d+"/missing"
	os.WriteFile(a, t1, 0600)
	os.WriteFile(b, t2, 0600)
	args := append(verifFlags(flags), expr, a)
	gone := vsym.Choice("missing", 2) == 1
	if gone {
		args = append(args, missing)
	}
	p := &vsym.Proc{Name: "cgrep", Args: append(args, b)}
	vsym.Run(p)
	w1, m1 := verifWant(expr, a, l1, flags)
	w2, m2 := verifWant(expr, b, l2, flags)
	vsym.Assert(vsym.EqStr(p.Stdout, w1+w2), "cgrep does not print the matching lines of its files")
	vsym.Assert(gone == strings.Contains(p.Stderr, missing) && gone == (p.Stderr != ""), "cgrep does not say exactly what it could not read")
	vsym.Assert((m1 || m2) == (p.Code == 0) && p.Code <= 1, "the exit status does not say whether a line matched")
	vsym.Cover("ran")
}
