package vharness

import (
	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// Few files may be open, where many are read.
const (
	verifMost = 24
	verifMany = 32
)

// verifHeld prepares a file of one of several kinds and returns the argument
// or directory entry that it is.
func verifHeld(w *world, dir string, i, kind int, c byte) string {
	name := dir + "/f" + string([]byte{byte('0' + i/10), byte('0' + i%10)})
	text := "text\nte" + string([]byte{c}) + "t\n"
	switch kind {
	case 0:
		w.put(name, text)
	case 1:
		name += ".zip"
		w.put(name, vref.Zip(vref.Member{Name: "a", Text: text}, vref.Member{Name: "b", Text: "text\n"}))
	case 2: // no archive
		name += ".zip"
		w.put(name, text)
	case 3: // members that cannot be read
		name += ".zip"
		w.put(name, vref.Zip(vref.Member{Name: "a", Text: text, Kind: 4}, vref.Member{Name: "b", Text: text, Kind: 5}, vref.Member{Name: "c", Text: text, Kind: 6}))
	case 4:
		w.mkdir(name)
		w.put(name+"/g", text)
	case 5:
		w.put(name, "")
	case 6: // not text
		w.put(name, text+"\x00")
	}
	return name
}

func verifSame(p, q *vsym.Proc) {
	same := vsym.And(vsym.EqStr(p.Stdout, q.Stdout), vsym.And(vsym.EqStr(p.Stderr, q.Stderr), p.Code == q.Code))
	if same == false {
		vsym.Note(p.Stderr)
	}
	vsym.Assert(same, "a command does something else where few files may be open")
}

// few runs a command that writes an index twice from the same state.
func (w *world) few(name string, args ...string) {
	old := w.get("idx")
	q := w.run("idx", name, args...)
	want := w.get("idx")
	if old == "missing" {
		w.del("idx")
	} else {
		w.put("idx", old)
	}
	p := w.proc("idx", name, args...)
	p.Files = verifMost
	vsym.Run(p)
	verifSame(p, q)
	vsym.Assert(vsym.EqStr(w.get("idx"), want), "an index is different where few files may be open")
}

// Indexing many files, directories and archives.
func VerifC30_index() {
	w := &world{dir: vsym.TempDir()}
	c := byte('x')
	kind := vsym.Choice("kind", 7)
	if kind == 6 {
		c = vsym.Byte("text")
	}
	w.mkdir("r")
	var args []string
	for i := 0; i < verifMany; i++ {
		name := verifHeld(w, "r", i, kind, c)
		if i%3 == 0 {
			args = append(args, name)
		}
	}
	switch vsym.Choice("how", 4) {
	case 0:
		w.few("cindex", "r")
	case 1:
		w.few("cindex", "-zip", "r")
	case 2: // an update
		w.run("idx", "cindex", "r")
		w.few("cindex", "-zip")
	case 3: // many roots
		for len(args) < verifMost+4 {
			args = append(args, args[len(args)%5])
		}
		w.run("idx", "cindex", "r/f05")
		w.few("cindex", append([]string{"-zip"}, args...)...)
	}
	vsym.Cover("indexed")
}

// Searching in many files and archives, some of which are gone.
func VerifC30_search() {
	w := &world{dir: vsym.TempDir()}
	c := vsym.Byte("text")
	vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	kind := vsym.Choice("kind", 3)
	w.mkdir("r")
	var files []string
	for i := 0; i < verifMany; i++ {
		files = append(files, verifHeld(w, "r", i, kind, 'x'))
	}
	w.run("idx", "cindex", "-zip", "r")
	// the sixteenth is any text
	verifHeld(w, "r", 16, kind, c)
	if k := vsym.Choice("now", 5); k > 0 {
		for _, f := range files {
			switch k {
			case 1:
				w.del(f)
			case 2:
				w.put(f, "nothing\n")
			case 3:
				w.put(f, vref.Zip(vref.Member{Name: "a", Text: "text\n", Kind: 4}, vref.Member{Name: "c", Text: "text\n"}))
			case 4:
				w.del(f)
				w.mkdir(f)
			}
		}
	}
	args := [][]string{{"te.t"}, {"-l", "te.t"}, {"-c", "-h", "te.t"}, {"-html", "-f", "f.*", "te.t"}, {"-brute", "-m", "3", "texx*t"}}[vsym.Choice("flags", 5)]
	w.few("csearch", args...)
	vsym.Cover("searched")
}

// Reading many files one after the other.
func VerifC30_grep() {
	w := &world{dir: vsym.TempDir()}
	c := vsym.Byte("text")
	vsym.Assume(vsym.And(c >= ' ', c < 0x7f))
	kind := vsym.Choice("kind", 4)
	w.mkdir("r")
	args := [][]string{{"te.t"}, {"-l", "texx*t"}, {"-c", "-h", "te.t"}, {"-n", "-C", "1", "texx*t"}}[vsym.Choice("flags", 4)]
	for i := 0; i < verifMany; i++ {
		name := "r/gone"
		if kind < 3 {
			x := byte('x')
			if i == 16 {
				x = c
			}
			name = verifHeld(w, "r", i, []int{0, 4, 5}[kind], x)
		}
		args = append(args, name)
	}
	q := w.run("idx", "cgrep", args...)
	p := w.proc("idx", "cgrep", args...)
	p.Files = verifMost
	vsym.Run(p)
	verifSame(p, q)
	vsym.Cover("read")
}
