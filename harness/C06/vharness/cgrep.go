package vharness

import (
	"strconv"

	"github.com/google/codesearch/internal/vsym"
)

// cgrep with the context flags.
func VerifC06_command() {
	args := [][]string{{"-A", "1"}, {"-B", "1"}, {"-C", "1"}, {"-C", "2"}, {"-A", "2", "-B", "1"}, {"-C=1"}, {"-n", "-A", "1"}, {"-h", "-C", "1"}, {"-B", "1", "-C", "0"}, {"-C", "0"}}
	pre := []int{0, 1, 1, 2, 1, 1, 0, 1, 0, 0}
	post := []int{1, 0, 1, 2, 2, 1, 1, 1, 0, 0}
	k := vsym.Choice("flags", len(args))
	n := vsym.Pick(5, 7)
	var lines []string
	text := ""
	for i := 0; i < n; i++ {
		l := "x"
		if vsym.Bool("match") {
			l = "a"
		}
		lines = append(lines, l)
		text += l + "\n"
	}
	p := &vsym.Proc{Name: "cgrep", Args: append(append([]string{}, args[k]...), "a"), Stdin: text}
	vsym.Run(p)
	want := ""
	any := false
	name := "<standard input>:"
	if args[k][0] == "-h" {
		name = ""
	}
	for i, l := range lines {
		if l != "a" {
			continue
		}
		any = true
		if pre[k]+post[k] == 0 {
			want += name + "a\n"
			continue
		}
		want += name + strconv.Itoa(i+1) + ":\n"
		for j := max(0, i-pre[k]); j <= min(n-1, i+post[k]); j++ {
			if j == i {
				want += "\t>>\t" + lines[j] + "\n"
			} else {
				want += "\t\t" + lines[j] + "\n"
			}
		}
	}
	vsym.Assert(p.Stdout == want, "cgrep does not print the requested context")
	vsym.Assert(p.Stderr == "" && any == (p.Code == 0), "cgrep ends wrongly")
	vsym.Cover("ran")
}
