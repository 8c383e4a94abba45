package vharness

import (
	"os"

	"github.com/google/codesearch/internal/vsym"
)

// all lists every file below the scratch directory, with its contents.
func (w *world) all(dir string) (names, texts []string) {
	l, err := os.ReadDir(w.dir + "/" + dir)
	vsym.Assert(err == nil, "setup: cannot list "+dir)
	for _, e := range l {
		n := e.Name()
		if dir != "" {
			n = dir + "/" + n
		}
		if e.IsDir() {
			a, b := w.all(n)
			names, texts = append(append(names, n+"/"), a...), append(append(texts, ""), b...)
			continue
		}
		names, texts = append(names, n), append(texts, w.get(n))
	}
	return
}

// same asserts that nothing changed except the file index, which must be there
// or not.
func (w *world) same(names, texts []string, index string, there bool) {
	now, nowTexts := w.all("")
	found := false
	i := 0
	for k, n := range now {
		if n == index {
			found = true
			continue
		}
		if i < len(names) && names[i] == index {
			i++
		}
		if i >= len(names) || names[i] != n {
			vsym.Note(n)
			vsym.Fail("a file was left behind or removed")
		}
		vsym.Assert(texts[i] == nowTexts[k], "another file than the index was written")
		i++
	}
	if i < len(names) && names[i] == index {
		i++
	}
	vsym.Assert(i == len(names), "another file than the index was removed")
	if there {
		vsym.Assert(found, "the index is not where the environment says")
	} else {
		vsym.Assert(!found, "the index is still there")
	}
}

// where is the environment, and the index that it means.
func (w *world) where() (env []string, index string) {
	home := w.dir + "/home"
	switch vsym.Choice("environment", 4) {
	case 0: // set
		b := make([]byte, vsym.Pick(2, 3))
		for i := range b {
			b[i] = vsym.Byte("name")
			vsym.Assume(vsym.And(b[i] > ' ', b[i] != '/'))
		}
		vsym.Assume(vsym.Or(b[0] != '.', b[1] != '.'))
		index = "at/" + string(b)
		return []string{"HOME=" + home, "CSEARCHINDEX=" + w.dir + "/" + index}, index
	case 1: // set, as in the home directory of someone else
		index = "at/.csearchindex"
		return []string{"HOME=" + home, "CSEARCHINDEX=" + w.dir + "/" + index}, index
	case 2: // not set
		return []string{"HOME=" + home, "CSEARCHINDEX="}, "home/.csearchindex"
	}
	return []string{"HOME=" + home + "/", "CSEARCHINDEX="}, "home/.csearchindex"
}

func (w *world) with(env []string, name string, args ...string) *vsym.Proc {
	p := &vsym.Proc{Name: name, Args: args, Dir: w.dir, Env: append([]string{"TMPDIR=" + w.dir + "/tmp"}, env...)}
	vsym.Run(p)
	return p
}

// Every program uses the index that the environment names, and no other, and
// leaves nothing else behind.
func VerifC27_where() {
	w := &world{dir: vsym.TempDir()}
	for _, d := range []string{"at", "home", "tmp", "r/d", "q"} {
		w.mkdir(d)
	}
	w.put("r/a", "say hello\n")
	w.put("r/d/b", "say hello\nagain\n")
	w.put("r/x", "none\x00")
	w.put("q/c", "say hello\n")
	env, index := w.where()
	// Indexes that nobody asked for.
	other := []string{"HOME=" + w.dir + "/home", "CSEARCHINDEX=" + w.dir + "/other"}
	vsym.Assert(w.with(other, "cindex", "q").Code == 0, "cindex fails")
	decoy := []string{"home/.csearchindex", "at/.csearchindex", "at/index", ".csearchindex"}[vsym.Choice("decoy", 4)]
	w.put(decoy, w.get("other"))
	if decoy == index {
		w.del(decoy)
	}
	vsym.Assume(index != "at/index")
	names, texts := w.all("")
	w.check(env, index, names, texts, "cindex", "r")
	found := w.dir + "/r/a:say hello\n" + w.dir + "/r/d/b:say hello\n"
	w.search(env, found)
	names, texts = w.all("")
	args := [][]string{{"r"}, {}, {"-reset", "r"}, {"-check", "r"}, {"-zip", "r/d"}, {"-list"}, {"-stats"}, {"-reset"}, {"-verbose", "r"}, {"-list", "-check"}}[vsym.Choice("update", 10)]
	p := w.with(env, "cindex", args...)
	vsym.Assert(p.Code == 0, "cindex fails")
	if len(args) == 1 && args[0] == "-reset" {
		w.same(names, texts, index, false)
		vsym.Cover("removed")
		return
	}
	w.same(names, texts, index, true)
	names, texts = w.all("")
	w.search(env, found)
	w.same(names, texts, "", false)
	vsym.Cover("found")
}

func (w *world) check(env []string, index string, names, texts []string, prog string, args ...string) {
	p := w.with(env, prog, args...)
	vsym.Assert(p.Code == 0, "cindex fails")
	w.same(names, texts, index, true)
}

func (w *world) search(env []string, found string) {
	p := w.with(env, "csearch", "hel+o")
	vsym.Assert(p.Code == 0 && p.Stdout == found, "csearch does not use the index that the environment names")
}
