package vharness

import "github.com/google/codesearch/internal/vsym"

// model is what the index should hold: the files below each root as they were
// when the root was last indexed.
type model struct {
	roots []string
	files map[string]string
}

func (m *model) under(f string) string {
	for _, r := range m.roots {
		if len(f) > len(r) && f[:len(r)+1] == r+"/" {
			return r
		}
	}
	return ""
}

// Any sequence of runs and changes of the files in between.
func VerifC18_history() {
	w := &world{dir: vsym.TempDir()}
	disk := map[string]string{}
	paths := []string{"a/f", "a/s/g", "ab/h"}
	rootNames := []string{"a", "a/s", "ab"}
	w.mkdir("a/s")
	w.mkdir("ab")
	var m *model // nil without an index
	for s := 0; s < 3; s++ {
		for i, p := range paths {
			if s > 0 && i == 2 {
				continue
			}
			v := 1
			if s > 0 || i == 0 || vsym.Thorough() {
				v = vsym.Choice("content", []int{3, 2, 2}[i])
			}
			switch v {
			case 0:
				if _, ok := disk[p]; ok {
					w.del(p)
					delete(disk, p)
					if i == 1 {
						w.del("a/s") // a root, maybe
					}
				}
			case 1:
				w.mkdir("a/s")
				w.put(p, "one\n")
				disk[p] = "one"
			case 2:
				w.mkdir("a/s")
				w.put(p, "two\n")
				disk[p] = "two"
			}
		}
		args := [][]string{{"a"}, {"a/s"}, {"ab"}, {}, {"a", "ab"}, {"-reset", "a"}, {"-reset"}}[vsym.Choice("run", 7)]
		if m == nil && len(args) == 0 {
			vsym.Assume(false)
		}
		p := w.run("idx", "cindex", args...)
		vsym.Assert(p.Code == 0, "cindex fails")
		if hasArg(args, "-reset") {
			m = nil
			args = args[1:]
			if len(args) == 0 {
				vsym.Assert(w.get("idx") == "missing", "the index is not removed")
				continue
			}
		}
		if m == nil {
			m = &model{files: map[string]string{}}
		}
		which := args
		if len(args) == 0 {
			which = m.roots
		}
		for _, r := range which {
			for f := range m.files {
				if len(f) > len(r) && f[:len(r)+1] == r+"/" {
					delete(m.files, f)
				}
			}
			for f, t := range disk {
				if len(f) > len(r) && f[:len(r)+1] == r+"/" {
					m.files[f] = t
				}
			}
		}
		var roots []string
		for _, r := range rootNames {
			if hasArg(m.roots, r) || hasArg(which, r) {
				if r == "a/s" && hasArg(roots, "a") {
					continue
				}
				roots = append(roots, r)
			}
		}
		m.roots = roots
		list := ""
		for _, r := range roots {
			list += w.dir + "/" + r + "\n"
		}
		p = w.run("idx", "cindex", "-list")
		vsym.Assert(p.Code == 0 && p.Stdout == list, "the listing does not show exactly the roots")
		var all, one, two []string
		for _, f := range paths {
			t, ok := m.files[f]
			if ok {
				all = append(all, f)
			}
			if t == "one" {
				one = append(one, f)
			}
			if t == "two" {
				two = append(two, f)
			}
		}
		// path order: a/f, a/s/g, ab/h
		vsym.Assert(sameStrings(w.names("idx"), all), "the index holds the wrong files")
		vsym.Assert(sameStrings(w.having("idx", "one"), one), "the index holds wrong contents")
		vsym.Assert(sameStrings(w.having("idx", "two"), two), "the index holds wrong contents")
	}
	vsym.Cover("followed")
}
