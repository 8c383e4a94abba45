package index

import (
	"errors"

	"github.com/google/codesearch/internal/vsym"
)

// verifPairOK: the byte d can follow the byte c in text.
func verifPairOK(c, d byte) bool {
	cont := vsym.And(d >= 0x80, d <= 0xbf)
	start := vsym.Or(d < 0x80, vsym.And(d >= 0xc0, d <= 0xf7))
	r := vsym.IteBool(c < 0x80, start, vsym.IteBool(c < 0xc0, vsym.Or(start, cont), cont))
	return vsym.And(r, c < 0xf8)
}

// verifIsText: no NUL and no impossible byte pair (the text begins a character).
func verifIsText(b []byte) bool {
	ok := true
	prev := byte(0)
	for _, c := range b {
		ok = vsym.And(ok, vsym.And(c != 0, verifPairOK(prev, c)))
		prev = c
	}
	return ok
}

func verifOpen(name string, ix *IndexWriter) *Index {
	ix.Flush()
	return Open(verifTmp(name))
}

func verifNames(ix *Index) []string {
	var l []string
	for i := 0; i < verifNumNames(ix); i++ {
		l = append(l, ix.Name(i).String())
	}
	return l
}

// checkNeighbours adds a file between two others; the file must be present exactly if want.
func verifEligible(content func() ([]byte, bool), sizes []int, pin bool) {
	ix := Create(verifTmp("i"))
	ix.AddRoots([]Path{MakePath("d")})
	ix.Add("d/a", &verifReader{data: "uv"})
	data, want := content()
	err := ix.Add("d/b", &verifReader{data: string(data), sizes: sizes})
	vsym.Assert(err == nil, "adding a file fails")
	if pin {
		for i := range data {
			data[i] = vsym.Pin(data[i])
		}
	}
	ix.Add("d/c", &verifReader{data: "pqr"})
	r := verifOpen("i", ix)
	names := verifNames(r)
	in := len(names) == 3
	vsym.Assert(len(names) == 2 || len(names) == 3, "wrong number of names")
	vsym.Assert(vsym.Iff(in, want), "a file is indexed though not eligible, or the other way round")
	vsym.Assert(names[0] == "d/a" && names[len(names)-1] == "d/c" && (!in || names[1] == "d/b"), "wrong names")
	if in {
		vsym.Cover("accepted")
	} else {
		vsym.Cover("rejected")
	}
	list := r.PostingList('p'<<16 | 'q'<<8 | 'r')
	vsym.Assert(len(list) >= 1 && list[len(list)-1] == len(names)-1, "the file after it is damaged")
	if len(data) > 100 {
		data = data[len(data)-8:]
	}
	// nothing of a rejected file stays behind
	if !in {
		for i := 0; i+2 < len(data); i++ {
			t := uint32(data[i])<<16 | uint32(data[i+1])<<8 | uint32(data[i+2])
			if t == 'p'<<16|'q'<<8|'r' {
				continue
			}
			vsym.Assert(len(r.PostingList(t)) == 0, "a rejected file leaves a posting list")
		}
	} else {
		for i := 0; i+2 < len(data); i++ {
			t := uint32(data[i])<<16 | uint32(data[i+1])<<8 | uint32(data[i+2])
			l := r.PostingList(t)
			vsym.Assert(len(l) >= 1 && l[0] == 1, "an accepted file is missing a trigram")
		}
	}
}

// Any two bytes: every pair, at the start and after another byte.
func VerifC09_bytes2() {
	n := vsym.Choice("n", 3)
	verifEligible(func() ([]byte, bool) {
		b := vsym.Bytes("c", n)
		return b, verifIsText(b)
	}, nil, false)
}

// Longer sequences of any bytes; after the decision one representative is followed.
func VerifC09_bytes() {
	n := 3 + vsym.Choice("n", vsym.Pick(2, 4))
	verifEligible(func() ([]byte, bool) {
		b := vsym.Bytes("c", n)
		return b, verifIsText(b)
	}, [][]int{nil, {1}, {2}}[vsym.Choice("frag", 3)], true)
}

// A bad byte anywhere in a text with other characters around it.
func VerifC09_inside() {
	text := []string{"ab\xc3\xa9cd\n", "x\xe2\x82\xacy", "\xf0\x9f\x98\x80\xf0\x9f\x98\x80", "\n\n\n"}[vsym.Choice("text", 4)]
	verifEligible(func() ([]byte, bool) {
		b := []byte(text)
		i := vsym.Choice("at", len(b))
		b[i] = vsym.Byte("c")
		if j := i + 1; j < len(b) && vsym.Choice("two", 2) == 1 {
			b[j] = vsym.Byte("c")
		}
		return b, verifIsText(b)
	}, nil, true)
}

// Lines around the length limit: a line with its newline may have 2000 bytes.
func VerifC09_lines() {
	pre := 1994 + vsym.Choice("pre", vsym.Pick(7, 9))
	lead := vsym.Choice("lead", 2)
	verifEligible(func() ([]byte, bool) {
		var b []byte
		if lead == 1 {
			b = append(b, "xx\n"...)
		}
		n0 := len(b)
		for i := 0; i < pre; i++ {
			b = append(b, 'x')
		}
		k := vsym.Pick(3, 6)
		for i := 0; i < k; i++ {
			c := vsym.Byte("c")
			vsym.Assume(vsym.Or(c == 'x', c == '\n'))
			b = append(b, c)
		}
		for i := 0; i < 1990; i++ {
			b = append(b, 'x')
		}
		for i := 0; i < k; i++ {
			c := vsym.Byte("d")
			vsym.Assume(vsym.Or(c == 'x', c == '\n'))
			b = append(b, c)
		}
		ok := true
		n := 0
		for _, c := range b[n0:] {
			n++
			ok = vsym.And(ok, n <= 2000)
			n = vsym.IteInt(c == '\n', 0, n)
		}
		return b, ok
	}, nil, true)
}

// verifDistinct is a text with exactly n distinct trigrams.
func verifDistinct(n int) []byte {
	var b []byte
	seen := make([]bool, 1<<15)
	const k = 30
	count := 0
	add := func(c byte) bool {
		b = append(b, c)
		if len(b) >= 3 {
			m := func(c byte) int { return int(c-'A') & 31 }
			if c == '\n' || b[len(b)-2] == '\n' || b[len(b)-3] == '\n' {
				// a newline and its neighbours: A at both sides, so three trigrams in all
				return count+3 >= n
			}
			t := m(b[len(b)-3])<<10 | m(b[len(b)-2])<<5 | m(b[len(b)-1])
			if !seen[t] {
				seen[t] = true
				count++
			}
		}
		return count+3 >= n
	}
	// standard enumeration of Lyndon words of length dividing 3
	line := 0
	emit := func(w ...byte) bool {
		for _, c := range w {
			if add('A' + c) {
				return true
			}
		}
		return false
	}
	b = append(b, "AA\nAA"...)
	seen[0] = false
	for i := byte(0); i < k; i++ {
		if emit(i) {
			return b
		}
		for j := i; j < k; j++ {
			for l := i; l < k; l++ {
				if l <= i && !(j == i && l == i) && !(l > i) {
					continue
				}
				if j == i && l == i {
					continue
				}
				if emit(i, j, l) {
					return b
				}
				if line++; line%500 == 0 {
					// break the line between two As
					for _, c := range []byte("AA\nAA") {
						if add(c) {
							return b
						}
					}
				}
			}
		}
	}
	return b
}

// Numbers of distinct trigrams around the limit.
func VerifC09_trigrams() {
	base := []int{19997, 19998, 19999, 20000, 20001}[vsym.Choice("base", 5)]
	verifEligible(func() ([]byte, bool) {
		b := verifDistinct(base)
		seen := map[uint32]bool{}
		for i := 0; i+2 < len(b); i++ {
			seen[uint32(b[i])<<16|uint32(b[i+1])<<8|uint32(b[i+2])] = true
		}
		n := len(seen)
		// three more letters that are new or not
		tail := b[len(b)-2:]
		p, q := tail[0], tail[1]
		k := vsym.Pick(2, 3)
		for i := 0; i < k; i++ {
			c := vsym.Byte("c")
			vsym.Assume(vsym.And(c >= '0', c <= '0'+byte(i)))
			b = append(b, c)
		}
		rest := b[len(b)-k-2:]
		_, _ = p, q
		for i := 0; i+2 < len(rest); i++ {
			isNew := true
			for j := 0; j < i; j++ {
				same := vsym.And(rest[i] == rest[j], vsym.And(rest[i+1] == rest[j+1], rest[i+2] == rest[j+2]))
				isNew = vsym.And(isNew, vsym.Not(same))
			}
			n = vsym.IteInt(isNew, n+1, n)
		}
		return b, n <= 20000
	}, nil, true)
}

// Names: any three bytes.
func VerifC09_names() {
	n := vsym.Choice("n", vsym.Pick(3, 4))
	name := "d/" + vsym.String("c", n)
	if vsym.Choice("bare", 2) == 1 {
		name = name[2:]
	}
	ok := len(name) > 0
	for i := 0; i < len(name); i++ {
		ok = vsym.And(ok, name[i] >= ' ')
	}
	ix := Create(verifTmp("i"))
	ix.AddRoots([]Path{MakePath("")})
	err := ix.Add(name, &verifReader{data: "abcd"})
	vsym.Assert(vsym.Iff(err == nil, ok), "a name with control characters is accepted, or another one rejected")
	r := verifOpen("i", ix)
	if err != nil {
		vsym.Cover("rejected")
		vsym.Assert(verifNumNames(r) == 0, "a rejected name is in the index")
		vsym.Assert(len(r.PostingList('a'<<16|'b'<<8|'c')) == 0, "a rejected name left a posting list")
		return
	}
	vsym.Cover("accepted")
	vsym.Assert(verifNumNames(r) == 1 && vsym.EqStr(r.Name(0).String(), name), "the name is not stored as given")
}

type verifBadReader struct {
	data string
	err  error
}

func (r *verifBadReader) Read(b []byte) (int, error) {
	if r.data == "" {
		return 0, r.err
	}
	n := copy(b, r.data)
	r.data = r.data[n:]
	return n, nil
}

// A file that cannot be read to its end leaves no trace.
func VerifC09_readError() {
	ix := Create(verifTmp("i"))
	ix.AddRoots([]Path{MakePath("d")})
	ix.Add("d/a", &verifReader{data: "abc"})
	data := "xyzxyz"[:vsym.Choice("n", 7)]
	e := errors.New("read error")
	if vsym.Choice("empty", 2) == 1 {
		e = nil // a read that returns nothing
	}
	err := ix.Add("d/b", &verifBadReader{data: data, err: e})
	vsym.Assert(err != nil, "a read error is not reported")
	ix.Add("d/c", &verifReader{data: "abc"})
	r := verifOpen("i", ix)
	vsym.Assert(verifNumNames(r) == 2 && r.Name(0).String() == "d/a" && r.Name(1).String() == "d/c", "an unreadable file left a name")
	vsym.Assert(len(r.PostingList('x'<<16|'y'<<8|'z')) == 0, "an unreadable file left a posting list")
	l := r.PostingList('a'<<16 | 'b'<<8 | 'c')
	vsym.Assert(len(l) == 2 && l[0] == 0 && l[1] == 1, "the other files are damaged")
	vsym.Cover("read error")
}
