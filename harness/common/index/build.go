package index

import (
	"io"

	"github.com/google/codesearch/internal/vsym"
)

type verifFile struct {
	name string
	data string
}

// verifReader delivers data in pieces of the given sizes (the last size repeats).
type verifReader struct {
	data  string
	sizes []int
	eof   bool // the end comes together with the last piece
}

func (r *verifReader) Read(b []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	k := len(r.data)
	if len(r.sizes) > 0 {
		k = min(k, r.sizes[0])
		if len(r.sizes) > 1 {
			r.sizes = r.sizes[1:]
		}
	}
	n := copy(b, r.data[:k])
	r.data = r.data[n:]
	if r.eof && len(r.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func verifTmp(name string) string { return vsym.TempDir() + "/" + name }

// verifWrite indexes the files into a file.
func verifWrite(file string, version int, roots []string, files []verifFile) {
	verifWithVersion(version, func() {
		ix := Create(file)
		var rs []Path
		for _, r := range roots {
			rs = append(rs, MakePath(r))
		}
		ix.AddRoots(rs)
		for _, f := range files {
			ix.Add(f.name, &verifReader{data: f.data})
		}
		ix.Flush()
	})
}

func verifBuild(name string, version int, roots []string, files []verifFile) *Index {
	verifWrite(verifTmp(name), version, roots, files)
	return Open(verifTmp(name))
}

// verifHas: data contains the trigram t.
func verifHas(data string, t uint32) bool {
	has := false
	for i := 0; i+2 < len(data); i++ {
		m := vsym.And(data[i] == byte(t>>16), vsym.And(data[i+1] == byte(t>>8), data[i+2] == byte(t)))
		has = vsym.Or(has, m)
	}
	return has
}

// verifIsList: list is exactly the ascending list of ids i with member[i].
func verifIsList(list []int, member []bool) bool {
	ok := true
	n := 0
	for id := range member {
		at := false
		for _, x := range list {
			at = vsym.Or(at, x == id)
		}
		ok = vsym.And(ok, vsym.Iff(at, member[id]))
		n = vsym.IteInt(member[id], n+1, n)
	}
	ok = vsym.And(ok, n == len(list))
	for i := 0; i+1 < len(list); i++ {
		ok = vsym.And(ok, list[i] < list[i+1])
	}
	return ok
}

func verifMembers(files []verifFile, t uint32) []bool {
	m := make([]bool, len(files))
	for i, f := range files {
		m[i] = verifHas(f.data, t)
	}
	return m
}

// verifTrigram is any three-byte sequence that text can contain.
func verifTrigram(tag string) uint32 {
	t := vsym.Uint32(tag)
	vsym.Assume(t < 1<<24)
	return t
}

// verifText is n bytes, each one of the first k letters.
func verifText(tag string, n, k int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte(tag)
		vsym.Assume(vsym.And(b[i] >= 'a', b[i] < 'a'+byte(k)))
	}
	return string(b)
}
