package index

import (
	"encoding/binary"
	"os"

	"github.com/google/codesearch/internal/vsym"
)

type verifEntry struct {
	trigram  uint32
	at       int // of the count in the file
	count    int
	off, end int // of the list in the file
}

// verifEntries reads the posting index as the format comment describes it.
func verifEntries(ix *Index, data []byte) []verifEntry {
	var es []verifEntry
	for b := 0; b < ix.numPostBlock; b++ {
		p := ix.postIndex + b*postBlockSize
		end := p + postBlockSize
		off := 0
		for p+3 < end && (data[p] != 0 || data[p+1] != 0 || data[p+2] != 0) {
			e := verifEntry{trigram: uint32(data[p])<<16 | uint32(data[p+1])<<8 | uint32(data[p+2]), at: p + 3}
			c, n1 := binary.Uvarint(data[p+3 : end])
			o, n2 := binary.Uvarint(data[p+3+n1 : end])
			off += int(o)
			e.count = int(c)
			e.off = ix.postData + off + 3
			e.end = ix.nameIndex
			if len(es) > 0 {
				es[len(es)-1].end = e.off - 3
			}
			es = append(es, e)
			p += 3 + n1 + n2
		}
	}
	return es
}

func verifLists() ([]byte, []verifEntry) {
	fs := []verifFile{{"/a/a", "abcd\n"}, {"/a/b", "xbcd\n"}, {"/a/c", "nothing\n"}, {"/a/d", "abcd\n"}, {"/a/e", "abcde\n"}}
	file := verifTmp("x")
	verifWrite(file, 2, []string{"/a"}, fs)
	if vsym.Choice("merged", 2) == 1 {
		verifWrite(verifTmp("z"), 2, []string{"/b"}, []verifFile{{"/b/x", "abcd\n"}, {"/b/y", "bcde\n"}})
		Merge(verifTmp("m"), file, verifTmp("z"))
		file = verifTmp("m")
	}
	data, err := os.ReadFile(file)
	vsym.Assert(err == nil, "")
	return data, verifEntries(Open(file), data)
}

func verifReported(data []byte) bool {
	vsym.Assert(os.WriteFile(verifTmp("p"), data, 0666) == nil, "")
	var err error
	code := verifTry(func() { err = Open(verifTmp("p")).Check() })
	return code != 0 || err != nil
}

// A list whose recorded count is not its length is reported.
func VerifC16_counts() {
	data, es := verifLists()
	e := es[vsym.Choice("list", len(es))]
	c := vsym.Byte("count")
	vsym.Assume(vsym.And(c < 0x80, c != byte(e.count)))
	data[e.at] = c
	vsym.Assert(verifReported(data), "a posting list whose recorded count is wrong is not reported")
	vsym.Cover("reported")
}

// Whatever the bytes of a list are: if the check is content, the list has
// exactly as many entries as its count says.
func VerifC16_lists() {
	data, es := verifLists()
	k := vsym.Choice("list", vsym.Pick(3, 8))
	e := es[min(k*len(es)/vsym.Pick(3, 8), len(es)-1)]
	for i := e.off; i < e.end && i < e.off+vsym.Pick(2, 3); i++ {
		data[i] = vsym.Byte("bits")
	}
	if verifReported(data) {
		vsym.Cover("reported")
		return
	}
	ix := Open(verifTmp("p"))
	var r deltaReader
	r.init(ix, data[e.off:ix.nameIndex])
	for i := 0; i < e.count; i++ {
		vsym.Assert(r.next() != 0, "a posting list that ends early passes the check")
	}
	vsym.Assert(r.next() == 0, "a posting list that runs on passes the check")
	vsym.Cover("passed")
}
