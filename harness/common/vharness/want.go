package vharness

import (
	"strconv"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// verifText is n bytes of text with newlines at the places given by nl.
func verifText(tag string, n, nl int) (text []byte, lines [][]byte) {
	start := 0
	text = make([]byte, n)
	for i := range text {
		if nl>>i&1 != 0 {
			text[i] = '\n'
			lines = append(lines, text[start:i:i])
			start = i + 1
			continue
		}
		text[i] = vsym.Byte(tag)
		vsym.Assume(vsym.And(text[i] != '\n', text[i] < 0x80))
	}
	if start < n {
		lines = append(lines, text[start:])
	}
	return
}

// verifWant is what cgrep prints for one file, and whether a line matches.
func verifWant(expr, name string, lines [][]byte, flags string) (string, bool) {
	re := vref.Parse("(?m)" + expr)
	if strings.Contains(flags, "i") {
		re = vref.Parse("(?i)(?m)" + expr)
	}
	out := ""
	count := 0
	for i, l := range lines {
		if !vref.NewText(l, i == 0, false).Match(re) {
			continue
		}
		count++
		if !strings.Contains(flags, "h") {
			out += name + ":"
		}
		if strings.Contains(flags, "n") {
			out += strconv.Itoa(i+1) + ":"
		}
		out += string(l) + "\n"
	}
	if count == 0 {
		return "", false
	}
	if strings.Contains(flags, "l") {
		return name + "\n", true
	}
	if strings.Contains(flags, "c") {
		return name + ": " + strconv.Itoa(count) + "\n", true
	}
	return out, true
}

func verifFlags(flags string) (args []string) {
	for _, f := range flags {
		args = append(args, "-"+string(f))
	}
	return
}

var verifSets = []string{"", "n", "h", "l", "c", "i", "nh", "in", "lc", "cn", "lh", "ch", "inh"}
