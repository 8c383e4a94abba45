package regexp

import (
	"bytes"
	"strconv"

	"github.com/google/codesearch/internal/vsym"
)

// verifRun scans the files in order with a limit, as the search page does.
func verifRun(expr string, limit int, set func(g *Grep), texts [][]byte) (g *Grep, out string) {
	g, b, errs := verifNewGrep(expr, 24)
	set(g)
	g.Limit = limit
	for i, t := range texts {
		if g.Limited {
			break
		}
		g.Reader(&verifReader{data: t, err: verifEOF}, "f"+strconv.Itoa(i))
	}
	vsym.Assert(errs.Len() == 0, "something is written to standard error")
	return g, b.String()
}

// verifTake returns the first n entries of the output of an unlimited search.
func verifTake(out []byte, n int, context bool) []byte {
	i := 0
	for ; n > 0 && i < len(out); n-- {
		if !context {
			i += bytes.IndexByte(out[i:], '\n') + 1
			continue
		}
		// a block: its head, and the lines that begin with a tab
		i += bytes.IndexByte(out[i:], '\n') + 1
		for i < len(out) && out[i] == '\t' {
			i += bytes.IndexByte(out[i:], '\n') + 1
		}
	}
	return out[:i]
}

func verifFiles(k, n int) (texts [][]byte, total, files int) {
	for i := 0; i < k; i++ {
		m := vsym.Choice("len", n+1)
		nl := vsym.Choice("newlines", 1<<m)
		t := make([]byte, m)
		var lines [][]byte
		start := 0
		for j := range t {
			if nl>>j&1 != 0 {
				t[j] = '\n'
				lines = append(lines, t[start:j])
				start = j + 1
				continue
			}
			t[j] = vsym.Byte("text")
			vsym.Assume(vsym.Or(t[j] == 'a', t[j] == '<'))
		}
		if start < m {
			lines = append(lines, t[start:])
		}
		any := 0
		for _, x := range verifMatches(`(?m)a`, lines) {
			if x {
				total++
				any = 1
			}
		}
		files += any
		texts = append(texts, t)
	}
	return
}

// Every way to print matches but counts.
func VerifC21_limit() {
	k := 2 + vsym.Choice("files", 2)
	n := 3
	if k == 3 {
		n = 2
	}
	texts, total, files := verifFiles(k, n+vsym.Pick(0, 1))
	mode := vsym.Choice("mode", 5)
	set := func(g *Grep) {
		switch mode {
		case 1:
			g.N = true
		case 2:
			g.L = true
		case 3:
			g.HTML = true
		case 4:
			g.PostContext = 1
		}
	}
	limit := 1 + vsym.Choice("limit", vsym.Pick(4, 5))
	if mode == 2 {
		total = files
	}
	all, unlimited := verifRun(`(?m)a`, 0, set, texts)
	vsym.Assert(!all.Limited, "a search without a limit is reported as limited")
	vsym.Assert(all.Matches == total, "the number of matches is wrong")
	g, out := verifRun(`(?m)a`, limit, set, texts)
	vsym.Assert(g.Limited == (total > limit), "the search is reported as limited when it is not, or the other way round")
	vsym.Assert(g.Matches == min(total, limit), "the number of matches shown is wrong")
	vsym.Assert(vsym.EqStr(out, string(verifTake([]byte(unlimited), limit, mode == 4))), "the output is not the first matches of the unlimited search")
	vsym.Assert(g.Match == (total > 0), "the match indicator is wrong")
	vsym.Cover("limited")
}

// Counting without reaching the limit.
func VerifC21_counts() {
	texts, total, _ := verifFiles(2, 3)
	set := func(g *Grep) { g.C = true }
	limit := 1 + vsym.Choice("limit", 6)
	if total > limit {
		return
	}
	_, unlimited := verifRun(`(?m)a`, 0, set, texts)
	g, out := verifRun(`(?m)a`, limit, set, texts)
	vsym.Assert(!g.Limited && g.Matches == total && out == unlimited, "a limit that is not reached changes the search")
	vsym.Cover("counted")
}
