package vharness

import (
	"os"

	"github.com/google/codesearch/internal/vsym"
)

// newWorld has two trees, one of which is indexed and has changed since.
func newWorld() *world {
	w := &world{dir: vsym.TempDir()}
	os.Mkdir(w.dir+"/a", 0700)
	os.Mkdir(w.dir+"/b", 0700)
	w.put("a/f", "old text\n")
	w.put("a/g", "same text\n")
	w.put("b/h", "more text\n")
	p := w.run("idx", "cindex", "a")
	vsym.Assert(p.Code == 0, "cindex fails")
	w.put("a/f", "new text\n")
	return w
}

var updates = [][]string{{"b"}, {}, {"a"}, {"-check", "b"}, {"-zip", "a", "b"}}

// rehearse runs the update on a copy of the index.
func (w *world) rehearse(args []string) (data string, ops int) {
	w.put("alt", w.get("idx"))
	p := w.run("alt", "cindex", args...)
	vsym.Assert(p.Code == 0, "cindex fails")
	return w.get("alt"), p.Ops
}

// later checks that the next update and the search after it work.
func (w *world) later(had bool, args []string) {
	w.put("a/g", "late text\n")
	p := w.run("idx", "cindex", args...)
	vsym.Assert(p.Code == 0, "an update after an interrupted one fails")
	want := w.dir + "/a/f:new text\n" + w.dir + "/a/g:late text\n"
	roots := w.dir + "/a\n"
	if had {
		want += w.dir + "/b/h:more text\n"
		roots += w.dir + "/b\n"
	}
	p = w.run("idx", "csearch", "text")
	vsym.Assert(p.Code == 0 && p.Stdout == want, "a search after the later update gives wrong results")
	p = w.run("idx", "csearch", "late")
	late := w.dir + "/a/g:late text\n"
	if len(args) > 0 && !hasArg(args, "a") {
		late = "" // the update was not told to look there
	}
	vsym.Assert(p.Stdout == late, "a search after the later update gives wrong results")
	p = w.run("idx", "cindex", "-list", "-check")
	vsym.Assert(p.Code == 0 && p.Stdout == roots, "the later update records wrong roots")
}

// The update is killed before any operation, or in the middle of any write.
func VerifC17_kill() {
	w := newWorld()
	args := updates[vsym.Choice("update", len(updates))]
	old := w.get("idx")
	done, n := w.rehearse(args)
	p := w.proc("idx", "cindex", args...)
	p.Kill = 1 + vsym.Choice("kill", n)
	p.Torn = vsym.Choice("torn", vsym.Pick(12, 120)) * vsym.Pick(71, 7)
	vsym.Run(p)
	vsym.Assert(p.Code == 137 && p.Ops == p.Kill, "the program does not reach its operation")
	now := w.get("idx")
	vsym.Assert(now == old || now == done, "after an interrupted update the index is neither the old nor the new one")
	s := w.run("idx", "csearch", "same")
	vsym.Assert(s.Code == 0 && s.Stdout == w.dir+"/a/g:same text\n", "after an interrupted update a search gives wrong results")
	had := hasArg(args, "b") && now == done
	if vsym.Choice("later", 2) == 0 {
		w.later(had || hasArg(args, "b"), args)
		vsym.Cover("same again")
	} else {
		// no paths: what is indexed now
		w.put("a/g", "same text\n")
		w.later(had, nil)
		vsym.Cover("all again")
	}
}

// One operation fails.
func VerifC17_fail() {
	w := newWorld()
	args := updates[vsym.Choice("update", len(updates))]
	old := w.get("idx")
	done, n := w.rehearse(args)
	p := w.proc("idx", "cindex", args...)
	p.Fail = 1 + vsym.Choice("fail", n)
	vsym.Run(p)
	vsym.Assert(p.Ops >= p.Fail, "the program does not reach its operation")
	now := w.get("idx")
	vsym.Assert(now == old || now == done, "after a failed update the index is neither the old nor the new one")
	w.later(hasArg(args, "b"), args)
	if p.Code != 0 {
		vsym.Cover("stopped")
	} else {
		vsym.Cover("went on")
	}
}

// Two updates in a row are killed.
func VerifC17_twice() {
	w := newWorld()
	args := updates[vsym.Choice("update", 2)]
	first := updates[vsym.Choice("first", 2)]
	old := w.get("idx")
	done1, n := w.rehearse(first)
	p := w.proc("idx", "cindex", first...)
	p.Kill = 1 + vsym.Choice("kill", n)
	p.Torn = 40 * vsym.Choice("torn", vsym.Pick(1, 2))
	vsym.Run(p)
	now := w.get("idx")
	vsym.Assert(now == old || now == done1, "after an interrupted update the index is neither the old nor the new one")
	had := now == done1 && hasArg(first, "b")
	w.put("b/h", "more text\n\n")
	done2, n := w.rehearse(args)
	p = w.proc("idx", "cindex", args...)
	p.Kill = 1 + vsym.Choice("kill2", n)
	vsym.Run(p)
	now2 := w.get("idx")
	vsym.Assert(now2 == now || now2 == done2, "after two interrupted updates the index is neither the old nor the new one")
	had = had || now2 == done2 && hasArg(args, "b")
	w.put("b/h", "more text\n")
	w.later(had, nil)
	vsym.Cover("twice")
}
