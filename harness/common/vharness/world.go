package vharness

import (
	"os"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/internal/vsym"
)

type world struct{ dir string }

func (w *world) put(name, data string) {
	vsym.Assert(os.WriteFile(w.dir+"/"+name, []byte(data), 0600) == nil, "setup: cannot write "+name)
}

func (w *world) mkdir(name string) {
	vsym.Assert(os.MkdirAll(w.dir+"/"+name, 0700) == nil, "setup: cannot make "+name)
}

func (w *world) del(name string) {
	vsym.Assert(os.Remove(w.dir+"/"+name) == nil, "setup: cannot remove "+name)
}

func (w *world) get(name string) string {
	b, err := os.ReadFile(w.dir + "/" + name)
	if err != nil {
		return "missing"
	}
	return string(b)
}

func (w *world) proc(index, name string, args ...string) *vsym.Proc {
	return &vsym.Proc{Name: name, Args: args, Dir: w.dir, Env: []string{"CSEARCHINDEX=" + w.dir + "/" + index}}
}

func (w *world) run(index, name string, args ...string) *vsym.Proc {
	p := w.proc(index, name, args...)
	vsym.Run(p)
	return p
}

// names lists the files of an index, in its order, without the scratch directory.
func (w *world) names(file string) (l []string) {
	ix := index.Open(w.dir + "/" + file)
	for _, id := range ix.PostingQuery(&index.Query{Op: index.QAll}) {
		n := ix.Name(id).String()
		if len(n) > len(w.dir) && n[:len(w.dir)+1] == w.dir+"/" {
			n = n[len(w.dir)+1:]
		}
		l = append(l, n)
	}
	return
}

// having lists the files of an index that it says contain a trigram.
func (w *world) having(file, tri string) (l []string) {
	ix := index.Open(w.dir + "/" + file)
	for _, id := range ix.PostingQuery(&index.Query{Op: index.QAnd, Trigram: []string{tri}}) {
		l = append(l, ix.Name(id).String()[len(w.dir)+1:])
	}
	return
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func hasArg(args []string, a string) bool {
	for _, x := range args {
		if x == a {
			return true
		}
	}
	return false
}
