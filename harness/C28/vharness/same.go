package vharness

import (
	"os"
	"strings"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// diagName is any name of up to n bytes of a file that is not hidden.
func diagName(tag string, n int) string {
	b := make([]byte, 1+vsym.Choice(tag+" length", n))
	for i := range b {
		b[i] = vsym.Byte(tag)
		vsym.Assume(vsym.And(b[i] >= ' ', b[i] != '/'))
	}
	vsym.Assume(!hiddenName(b))
	return string(b)
}

func hiddenName(b []byte) bool {
	c := b[0]
	return vsym.Or(vsym.Or(c == '.', c == '#'), vsym.Or(c == '~', b[len(b)-1] == '~'))
}

// Two histories of an index that differ in the diagnostics asked for: the index
// is the same after every run, and so is what is printed.
func VerifC28_index() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r/d")
	w.mkdir("s")
	name := diagName("name", vsym.Pick(1, 2))
	vsym.Assume(vsym.And(name != "d", vsym.And(name != "a", name != "x.zip")))
	w.put("r/a", "text\n")
	w.put("r/"+name, "more text\n")
	w.put("r/d/binary", "text\x00\n")
	w.put("r/d/z", "other\n")
	w.put("r/x.zip", vref.Zip(vref.Member{Name: "m", Text: "member\n"}, vref.Member{Name: "n", Text: "bin\x00ary\n"}))
	w.put("s/b", "text\n")
	runs := [][]string{{"r"}, {"-zip", "r"}, {}, {"-reset", "s", "missing"}, {"s"}, {"r/d", "r/a", "r"}}
	for step := 0; step < 2; step++ {
		args := runs[vsym.Choice("run", len(runs))]
		if step == 0 && len(args) == 0 {
			vsym.Assume(false)
		}
		m := 7
		if step == 0 || vsym.Thorough() {
			m = []int{1, 2, 7, 4, 3, 5, 6}[vsym.Choice("diagnostics", vsym.Pick(3, 7))]
		}
		var more []string
		for i, f := range []string{"-verbose", "-check", "-stats"} {
			if m>>i&1 != 0 {
				more = append(more, f)
			}
		}
		p := w.run("plain", "cindex", args...)
		q := w.run("diag", "cindex", append(more, args...)...)
		vsym.Assert(p.Code == 0 && q.Code == 0, "cindex fails")
		vsym.Assert(p.Stdout == "", "cindex prints something")
		vsym.Assert(m>>2&1 != 0 == (q.Stdout != ""), "the statistics are printed if not asked for, or the other way round")
		vsym.Assert(vsym.EqStr(w.get("plain"), w.get("diag")), "the index depends on the diagnostics asked for")
		w.put("r/d/z", "changed\n")
		if step == 0 {
			w.del("r/a")
		}
	}
	p := w.run("plain", "cindex", "-list")
	q := w.run("diag", "cindex", "-list", "-check")
	vsym.Assert(p.Code == 0 && q.Code == 0 && p.Stdout == q.Stdout && strings.HasSuffix(p.Stdout, "\n"), "the listing depends on the check")
	vsym.Cover("same")
}

// A search prints the same with and without its diagnostics, which go to the
// standard error.
func VerifC28_search() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	name := diagName("name", vsym.Pick(1, 2))
	vsym.Assume(vsym.And(name != "x.zip", name != "b"))
	w.put("r/b", "aba\nxyz\n")
	w.put("r/x.zip", vref.Zip(vref.Member{Name: "m", Text: "ab\nba\n"}))
	// another file takes its place, so that the text need not be indexed
	w.put("r/"+name, "abab\nxyz\n")
	vsym.Assert(w.run("idx", "cindex", "-zip", "r").Code == 0, "cindex fails")
	c := vsym.Byte("text")
	vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	w.put("r/"+name, "ab"+string([]byte{c})+"\nxyz")
	args := [][]string{{"ab"}, {"-n", "a.*"}, {"-l", "ab."}, {"-c", "b"}, {"-brute", "ab[^b]"}, {"-f", "b$", "xy"}, {"-i", "-h", "AB"}, {"-html", "ab"}, {"-A", "1", "ab"}, {"-f", "nothing", "a"}, {"qqq"}}[vsym.Choice("args", 11)]
	p := w.run("idx", "csearch", args...)
	q := w.run("idx", "csearch", append([]string{"-verbose"}, args...)...)
	vsym.Assert(p.Stderr == "" && q.Stderr != "", "diagnostics are printed if not asked for, or the other way round")
	vsym.Assert(p.Code == q.Code, "the exit status depends on the diagnostics asked for")
	vsym.Assert(vsym.EqStr(p.Stdout, q.Stdout), "the result depends on the diagnostics asked for")
	vsym.Assert(p.Code == 0 == (p.Stdout != ""), "the exit status does not say whether something was found")
	vsym.Cover("same")
}

// A profile is written where it was asked for, and changes nothing else.
func VerifC28_profile() {
	w := &world{dir: vsym.TempDir()}
	w.mkdir("r")
	c := vsym.Byte("text")
	vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	w.put("r/b", "abab\n")
	prof := w.dir + "/prof"
	args := [][]string{{"ab"}, {"-n", "a[^b]"}, {"-l", "q"}}[vsym.Choice("args", 3)]
	opt := []string{"-cpuprofile", prof}
	p := w.run("plain", "cindex", "r")
	q := w.run("diag", "cindex", append(opt, "r")...)
	vsym.Assert(p.Code == 0 && q.Code == 0, "cindex fails")
	vsym.Assert(w.get("plain") == w.get("diag"), "the index depends on the profile")
	w.put("r/b", "ab"+string([]byte{c})+"\n")
	tail := [][]string{nil, {w.dir + "/r/b"}}
	for i, cmd := range []string{"csearch", "cgrep"} {
		if _, err := os.Stat(prof); err != nil {
			vsym.Fail("no profile is written")
		}
		os.Remove(prof)
		p = w.run("plain", cmd, append(args[:len(args):len(args)], tail[i]...)...)
		q = w.run("plain", cmd, append(append(opt, args...), tail[i]...)...)
		vsym.Assert(p.Code == q.Code && vsym.EqStr(p.Stdout, q.Stdout) && p.Stderr == q.Stderr, "the result depends on the profile")
	}
	vsym.Cover("same")
}
