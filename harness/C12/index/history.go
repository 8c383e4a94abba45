package index

import (
	"os"

	"github.com/google/codesearch/internal/vsym"
)

// verifTree is what is on disk below one root.
type verifTreeState struct {
	root  string
	files []verifFile
}

func verifRootsOf(ts []verifTreeState) (roots []string, files []verifFile) {
	for _, t := range ts {
		roots = append(roots, t.root)
		files = append(files, t.files...)
	}
	return
}

// verifUpdate applies one update to the index file: the given trees are indexed and merged in.
func verifUpdate(version int, ts []verifTreeState) {
	file := verifTmp("index")
	roots, files := verifRootsOf(ts)
	if _, err := os.Stat(file); err != nil {
		verifWrite(file, version, roots, files)
		return
	}
	verifWrite(file+"~", version, roots, files)
	Merge(file+"~~", file, file+"~")
	os.Remove(file + "~")
	os.Rename(file+"~~", file)
}

// verifSame compares the updated index with one built in one go.
func verifSame(final []verifTreeState) {
	roots, files := verifRootsOf(final)
	ix := Open(verifTmp("index"))
	verifWrite(verifTmp("scratch"), 2, roots, files)
	ref := Open(verifTmp("scratch"))
	names, want := verifIndexNames(ix), verifIndexNames(ref)
	vsym.Assert(len(names) == len(want), "the updated index has other files than one built from scratch")
	for i := range want {
		vsym.Assert(names[i] == want[i] && ix.Name(i).String() == want[i], "the updated index has other files than one built from scratch")
	}
	rs, rw := verifIndexRoots(ix), verifIndexRoots(ref)
	vsym.Assert(len(rs) == len(rw), "the updated index has other roots than one built from scratch")
	for i := range rw {
		vsym.Assert(rs[i] == rw[i], "the updated index has other roots than one built from scratch")
	}
	t := verifTrigram("t")
	a, b := ix.PostingList(t), ref.PostingList(t)
	vsym.Assert(len(a) == len(b), "the updated index has other posting lists than one built from scratch")
	for i := range a {
		vsym.Assert(a[i] == b[i], "the updated index has other posting lists than one built from scratch")
	}
	vsym.Assert(ix.Check() == nil, "the updated index does not pass its check")
	vsym.Cover("same")
}

var verifUniverse = []string{"a", "b", "b.c"}

// verifState is one state of the tree number i.
func verifStateOf(i, state int) verifTreeState {
	root := verifUniverse[i]
	t := verifTreeState{root: root}
	switch state {
	case 0: // empty
	case 1:
		t.files = []verifFile{{root + "/x", "one " + root}}
	case 2:
		t.files = []verifFile{{root + "/x", "two " + root}, {root + "/y/z", "three"}}
	}
	return t
}

// Any history of updates over three roots.
func VerifC12_history() {
	steps := vsym.Pick(3, 4)
	var now [3]*verifTreeState
	for s := 0; s < steps; s++ {
		mask := 1 + vsym.Choice("roots", vsym.Pick(3, 7))
		var ts []verifTreeState
		for i := range now {
			if mask>>i&1 != 0 {
				t := verifStateOf(i, vsym.Choice("state", 3))
				now[i] = &t
				ts = append(ts, t)
			}
		}
		verifUpdate(2, ts)
	}
	var final []verifTreeState
	for _, t := range now {
		if t != nil {
			final = append(final, *t)
		}
	}
	verifSame(final)
}

// The same update again and again.
func VerifC12_again() {
	n := 2 + vsym.Choice("times", vsym.Pick(4, 9))
	first := vsym.Choice("format", 2) + 1
	mask := vsym.Choice("roots", 4)
	for s := 0; s < n; s++ {
		v := 2
		if s == 0 {
			v = first
		}
		var ts []verifTreeState
		if s == 0 || mask&1 != 0 {
			ts = append(ts, verifStateOf(0, 1))
		}
		if s == 0 || mask&2 != 0 {
			ts = append(ts, verifStateOf(1, 2))
		}
		verifUpdate(v, ts)
	}
	verifSame([]verifTreeState{verifStateOf(0, 1), verifStateOf(1, 2)})
}

// Contents that change between updates.
func VerifC12_contents() {
	text := func() string { return verifText("c", vsym.Pick(3, 4), 2) }
	a := verifTreeState{"a", []verifFile{{"a/x", text()}}}
	b := verifTreeState{"b", []verifFile{{"b/x", "abab"}}}
	verifUpdate(2, []verifTreeState{a, b})
	switch vsym.Choice("second", 2) {
	case 0:
		a.files = []verifFile{{"a/w", text()}, {"a/x", "bbaa"}}
		verifUpdate(2, []verifTreeState{a})
	case 1:
		b.files = nil
		verifUpdate(2, []verifTreeState{b})
	}
	b.files = []verifFile{{"b/y", text()}}
	verifUpdate(2, []verifTreeState{b})
	verifSame([]verifTreeState{a, b})
}

// Roots that are files themselves, next to ones that are directories.
func VerifC12_files() {
	names := []string{"a", "a.b", "b"}
	state := func(i, k int) verifTreeState {
		t := verifTreeState{root: names[i]}
		switch k {
		case 1: // a file
			t.files = []verifFile{{names[i], "one " + names[i]}}
		case 2: // a directory
			t.files = []verifFile{{names[i] + "/x", "two " + names[i]}, {names[i] + "/y", "three"}}
		}
		return t
	}
	var now [3]*verifTreeState
	steps := vsym.Pick(2, 3)
	for s := 0; s < steps; s++ {
		mask := 7
		if s > 0 {
			mask = 1 + vsym.Choice("roots", 7)
		}
		var ts []verifTreeState
		for i := range now {
			if mask>>i&1 != 0 {
				t := state(i, vsym.Choice("state", 3))
				now[i] = &t
				ts = append(ts, t)
			}
		}
		verifUpdate(2, ts)
	}
	var final []verifTreeState
	for _, t := range now {
		final = append(final, *t)
	}
	verifSame(final)
}

func verifSymName(tag string, max int, slash bool) string {
	b := make([]byte, 1+vsym.Choice(tag+" length", max))
	for i := range b {
		b[i] = vsym.Byte(tag)
		vsym.Assume(vsym.And(b[i] >= ' ', b[i] != 0x7f))
		if !slash || i == 0 || i == len(b)-1 {
			vsym.Assume(b[i] != '/')
		}
	}
	return string(b)
}

func verifSymTree(root string, n, max int, text string) verifTreeState {
	t := verifTreeState{root: root}
	for i := 0; i < n; i++ {
		f := verifFile{root + "/" + verifSymName("file", max, true), text}
		if i > 0 {
			vsym.Assume(verifLess(t.files[i-1].name, f.name))
		}
		t.files = append(t.files, f)
	}
	return t
}

// Roots and files of any names, of which one root is indexed again or a new one
// is added.
func VerifC12_names() {
	k := 2
	var roots []string
	for i := 0; i < k; i++ {
		roots = append(roots, verifSymName("root", 2, false))
	}
	vsym.Assume(verifLess(roots[0], roots[1]))
	counts := vsym.Choice("counts", 4)
	ts := []verifTreeState{
		verifSymTree(roots[0], 1+counts&1, vsym.Pick(1, 2), "one"),
		verifSymTree(roots[1], 1+counts>>1&1, vsym.Pick(1, 2), "two"),
	}
	switch vsym.Choice("how", 3) {
	case 0:
		verifUpdate(2, ts[:1])
		verifUpdate(2, ts[1:])
	case 1:
		verifUpdate(2, ts[1:])
		verifUpdate(2, ts[:1])
	case 2:
		verifUpdate(2, ts)
	}
	if i := vsym.Choice("again", 3); i < 2 {
		ts[i] = verifSymTree(roots[i], vsym.Choice("left", 2), vsym.Pick(1, 2), "new")
		verifUpdate(2, ts[i:i+1])
	}
	verifSame(ts)
}

// An update of a root inside one that is indexed, and the other way round.
func VerifC12_nested() {
	t := verifSymTree("r", 1+vsym.Choice("files", 2), 3, "one")
	sub := "r/" + verifSymName("sub", vsym.Pick(1, 2), false)
	s := verifSymTree(sub, vsym.Choice("inside", 2), vsym.Pick(1, 2), "two")
	outer := verifTreeState{root: "r"}
	for _, f := range t.files {
		if !verifUnder(f.name, sub) {
			outer.files = append(outer.files, f)
		}
	}
	switch vsym.Choice("how", 3) {
	case 0: // the whole, then the part
		verifUpdate(2, []verifTreeState{t})
		verifUpdate(2, []verifTreeState{s})
	case 1: // the part, then the whole
		verifUpdate(2, []verifTreeState{s})
		verifUpdate(2, []verifTreeState{t})
		verifSame([]verifTreeState{t})
		return
	case 2: // the part between two others
		verifUpdate(2, []verifTreeState{{"q", []verifFile{{"q/x", "one"}}}, {sub, []verifFile{{sub + "/old", "old"}}}})
		verifUpdate(2, []verifTreeState{t, {"s", []verifFile{{"s/x", "one"}}}})
		verifUpdate(2, []verifTreeState{s})
	}
	at := 0
	for at < len(outer.files) && verifLess(outer.files[at].name, sub+"/") {
		at++
	}
	all := append(outer.files[:at:at], s.files...)
	outer.files = append(all, outer.files[at:]...)
	if vsym.Choice("again", 2) == 1 {
		verifUpdate(2, []verifTreeState{outer})
	}
	if verifHasRoot("q") {
		verifSame([]verifTreeState{{"q", []verifFile{{"q/x", "one"}}}, outer, {"s", []verifFile{{"s/x", "one"}}}})
		return
	}
	verifSame([]verifTreeState{outer})
}

func verifHasRoot(r string) bool {
	return verifOneOf(r, verifIndexRoots(Open(verifTmp("index"))))
}
