package index

import "github.com/google/codesearch/internal/vsym"

// A file longer than the writer's input buffer: every three-byte sequence
// across the boundaries is found.
func VerifC07_buffer() {
	file := verifTmp("buffer")
	ix := Create(file)
	ix.AddRoots([]Path{MakePath("d")})
	size := cap(ix.inbuf)
	vsym.Assume(size >= 100 && size <= 1<<20)
	b := make([]byte, size+40)
	for i := range b {
		b[i] = 'x'
		if i%80 == 79 {
			b[i] = '\n'
		}
	}
	for i := size - 2; i < size+vsym.Pick(2, 3); i++ {
		b[i] = vsym.Byte("c")
		vsym.Assume(vsym.And(b[i] >= 'a', b[i] < 'c'))
	}
	files := []verifFile{{"d/a", "aba"}, {"d/b", string(b)}, {"d/c", "bbab"}}
	r := &verifReader{data: string(b)}
	if vsym.Choice("short", 2) == 1 {
		r.sizes = []int{size - 1, 1, 2, size}
	}
	ix.Add(files[0].name, &verifReader{data: files[0].data})
	vsym.Assert(ix.Add(files[1].name, r) == nil, "a file longer than the buffer is not added")
	ix.Add(files[2].name, &verifReader{data: files[2].data})
	ix.Flush()
	near := verifFile{"d/b", string(b[size-80:])}
	t := verifTrigram("t")
	vsym.Assert(verifIsList(Open(file).PostingList(t), verifMembers([]verifFile{files[0], near, files[2]}, t)), "a posting list differs from the files that contain the trigram")
	vsym.Cover("looked up")
}
