package index

import "github.com/google/codesearch/internal/vsym"

func verifPathByte(tag string) byte {
	c := vsym.Byte(tag)
	vsym.Assume(vsym.Or(c >= ' ', c == 1))
	return c
}

func verifPathStr(tag string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = verifPathByte(tag)
	}
	return string(b)
}

func verifLong(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%7)
	}
	return string(b)
}

// verifNameList is a list with symbolic parts; skip concrete names come first
// so that every position relative to the groups is reached.
func verifNameList() []string {
	var names []string
	skip := []int{0, 1, 14, 15, 16, 31}[vsym.Choice("skip", 6)]
	for i := 0; i < skip; i++ {
		names = append(names, "src/"+string(rune('a'+i)))
	}
	pre := ""
	switch vsym.Choice("shape", 5) {
	case 1:
		pre = "src/"
	case 2:
		pre = verifLong(127)
	case 3:
		pre = verifLong(126)
	case 4:
		pre = verifLong(300)
	}
	k := vsym.Pick(3, 4)
	for i := 0; i < k; i++ {
		names = append(names, pre+verifPathStr("n", 1+vsym.Choice("len", 2)))
		if i == 0 && vsym.Choice("short", 2) == 1 {
			pre = ""
		}
	}
	return names
}

// verifRead reads the list back in every way.
func verifRead(ix *Index, names []string) {
	i := 0
	for p := range ix.NamesAt(0, len(names)).All() {
		vsym.Assert(i < len(names) && p.String() == names[i], "a name is not read back as written")
		i++
	}
	vsym.Assert(i == len(names), "names are missing when reading the whole list")
	for i := max(0, len(names)-5); i < len(names); i++ {
		vsym.Assert(ix.Name(i).String() == names[i], "a name looked up by its id is wrong")
	}
	vsym.Assert(ix.Name(0).String() == names[0], "the first name looked up by its id is wrong")
	lo := len(names) - 1 - vsym.Choice("lo", min(4, len(names)))
	hi := lo + vsym.Choice("hi", len(names)-lo+1)
	i = lo
	for p := range ix.Names(lo, hi) {
		vsym.Assert(i < hi && p.String() == names[i], "a sub-range of the names is read back wrongly")
		i++
	}
	vsym.Assert(i == hi, "names are missing when reading a sub-range")
	r := ix.NamesAt(lo, hi)
	for i = lo; i < hi; i++ {
		vsym.Assert(r.Valid() && r.Path().String() == names[i], "reading names from an id on gives a wrong name")
		r.Next()
	}
	vsym.Assert(!r.Valid(), "reading names up to an id does not stop there")
	vsym.Cover("read")
}

func verifIndexOf(version int, names []string) *Index {
	data := verifMemBuffer(1 << 16)
	index := verifMemBuffer(1 << 12)
	data.WriteString("header")
	verifWithVersion(version, func() {
		w := NewPathWriter(data, index, version, nameGroupSize)
		for _, n := range names {
			w.Write(MakePath(n))
		}
		if version == 1 {
			w.Write(MakePath(""))
		}
	})
	d := append([]byte{}, data.buf...)
	d = append(d, "pad"...)
	ix := &Index{version: version, nameData: 6, postData: len(d), nameIndex: len(d), numName: len(names)}
	ix.data.d = append(d, index.buf...)
	return ix
}

func VerifC15_v2() {
	names := verifNameList()
	verifRead(verifIndexOf(2, names), names)
}

func VerifC15_v1() {
	names := verifNameList()
	verifRead(verifIndexOf(1, names), names)
}

// A root list is written without groups.
func VerifC15_roots() {
	version := 1 + vsym.Choice("version", 2)
	var names []string
	for i := vsym.Choice("k", 4); i > 0; i-- {
		names = append(names, verifPathStr("n", 1+vsym.Choice("len", 3)))
	}
	data := verifMemBuffer(1 << 12)
	w := NewPathWriter(data, nil, version, 0)
	w.Collect(func(yield func(Path) bool) {
		for _, n := range names {
			if !yield(MakePath(n)) {
				return
			}
		}
	})
	if version == 1 {
		w.Write(MakePath(""))
	} else {
		vsym.Assert(w.Count() == len(names), "the number of paths written is wrong")
	}
	limit := len(names)
	if version == 1 {
		limit = -1
	}
	i := 0
	for p := range NewPathReader(version, data.buf, limit).All() {
		vsym.Assert(i < len(names) && p.String() == names[i], "a root is not read back as written")
		i++
	}
	vsym.Assert(i == len(names), "roots are missing")
	vsym.Cover("read")
}

// Reading anything at all as a name list ends, inside the data.
func VerifC15_arbitrary() {
	version := 1 + vsym.Choice("version", 2)
	data := vsym.Bytes("d", vsym.Choice("n", vsym.Pick(6, 9)))
	limit := []int{-1, 0, 1, 3}[vsym.Choice("limit", 4)]
	n := 0
	code := verifTry(func() {
		for range NewPathReader(version, data, limit).All() {
			if n++; n > len(data) {
				return
			}
		}
	})
	vsym.Assert(code != 3, "reading arbitrary bytes as names leaves the data")
	vsym.Assert(n <= len(data), "reading arbitrary bytes as names does not make progress")
	vsym.Cover("read")
}
