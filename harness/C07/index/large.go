package index

import (
	"os"

	"github.com/google/codesearch/internal/vsym"
)

// An index several times as large as the writer's buffers, with tens of
// thousands of posting lists.
func VerifC07_large() {
	n := vsym.Pick(18000, 19500)
	nf := vsym.Pick(4, 6)
	var files []verifFile
	for i := 0; i < nf; i++ {
		files = append(files, verifFile{"d/" + string(rune('p'+i)), verifLarge(i+1, n)})
	}
	// what comes first in the posting lists shifts everything else
	files[0].data += "\n\n\n\n   \n "[:vsym.Choice("shift", vsym.Pick(4, 9))]
	file := verifTmp("large")
	verifWrite(file, 2, []string{"d"}, files)
	st, err := os.Stat(file)
	vsym.Assert(err == nil && st.Size() > 1<<18, "the index is not as large as intended")
	ix := Open(file)
	verifCheckLarge(ix, files, vsym.Pick(61, 17))
	vsym.Cover("looked up")
}

// More names than fit the writer's buffer.
func VerifC07_largeNames() {
	n := vsym.Pick(300, 600)
	ix := Create(verifTmp("names"))
	ix.AddRoots([]Path{MakePath("d")})
	pad := make([]byte, 1000+vsym.Choice("pad", vsym.Pick(3, 16)))
	for i := range pad {
		pad[i] = 'a' + byte(i%26)
	}
	var names []string
	for i := 0; i < n; i++ {
		c := byte('m')
		if i%100 == 61 {
			c = vsym.Byte("c")
			vsym.Assume(c >= ' ')
		}
		names = append(names, "d/"+string([]byte{byte('a' + i/26), byte('a' + i%26)})+string(pad)+string([]byte{c}))
	}
	for _, s := range names {
		ix.Add(s, &verifReader{data: "xyz"})
	}
	ix.Flush()
	r := Open(verifTmp("names"))
	ok := true
	for i, s := range names {
		ok = vsym.And(ok, vsym.EqStr(r.Name(i).String(), s))
	}
	vsym.Assert(ok, "a file has the wrong name")
	i := 0
	for p := range r.Names(0, n) {
		vsym.Assert(i < n && vsym.EqStr(p.String(), names[i]), "the list of names differs from the names added")
		i++
	}
	vsym.Assert(i == n, "the list of names differs from the names added")
	vsym.Cover("compared")
}

// More files than 16 bits can number.
func VerifC07_manyFiles() {
	const n = 1<<16 + 40
	ix := Create(verifTmp("many"))
	ix.AddRoots([]Path{MakePath("d")})
	name := func(i int) string {
		return "d/" + string([]byte{'a' + byte(i>>12), 'a' + byte(i>>8&15), 'a' + byte(i>>4&15), 'a' + byte(i&15)})
	}
	every := vsym.Choice("every", vsym.Pick(1, 3))*100 + 7
	for i := 0; i < n; i++ {
		t := "xyz"
		if i%every == 3 {
			t = "xyzw"
		}
		if i == 1<<16+5 {
			t = "pq" + string([]byte{vsym.Byte("c")&1 + 'a'})
		}
		ix.Add(name(i), &verifReader{data: t})
	}
	ix.Flush()
	r := Open(verifTmp("many"))
	l := r.PostingList('y'<<16 | 'z'<<8 | 'w')
	k := 0
	ok := true
	for i := 3; i < n; i += every {
		if i != 1<<16+5 {
			ok = ok && k < len(l) && l[k] == i
			k++
		}
	}
	vsym.Assert(ok && len(l) == k, "a posting list differs from the files that contain the trigram")
	t := 'p'<<16 | 'q'<<8 | uint32(vsym.Byte("t"))
	m := r.PostingList(t)
	vsym.Assert(len(m) <= 1 && (len(m) == 0 || m[0] == 1<<16+5), "a posting list differs from the files that contain the trigram")
	for i := 0; i < n; i += 4095 {
		vsym.Assert(r.Name(i).String() == name(i), "a file has the wrong name")
	}
	vsym.Cover("looked up")
}

// A name as long as the writer's buffer.
func VerifC07_hugeName() {
	pad := make([]byte, 1<<18-8+vsym.Choice("length", vsym.Pick(12, 24)))
	for i := range pad {
		pad[i] = 'a' + byte(i%25)
	}
	c := vsym.Byte("c")
	vsym.Assume(c >= ' ')
	names := []string{"d/a", "d/b" + string(pad) + string([]byte{c}), "d/c"}
	if vsym.Choice("two", 2) == 1 {
		names = append(names[:2:2], names[1]+"x", "d/c")
	}
	ix := Create(verifTmp("huge"))
	ix.AddRoots([]Path{MakePath("d")})
	for _, s := range names {
		ix.Add(s, &verifReader{data: "xyz"})
	}
	ix.Flush()
	r := Open(verifTmp("huge"))
	for i, s := range names {
		vsym.Assert(vsym.EqStr(r.Name(i).String(), s), "a file has the wrong name")
	}
	i := 0
	for p := range r.Names(0, len(names)) {
		vsym.Assert(i < len(names) && vsym.EqStr(p.String(), names[i]), "the list of names differs from the names added")
		i++
	}
	vsym.Assert(i == len(names), "the list of names differs from the names added")
	vsym.Cover("compared")
}
