package index

import (
	"encoding/binary"
	"os"
)

type verifList struct {
	tri string
	ids []int
}

// verifWriteV1 writes an index in the older format from its description.
func verifWriteV1(file string, roots, names []string, lists []verifList) {
	var d []byte
	u32 := func(x int) { d = binary.BigEndian.AppendUint32(d, uint32(x)) }
	d = append(d, "csearch index 1\n"...)
	rootsAt := len(d)
	for _, r := range roots {
		d = append(append(d, r...), 0)
	}
	d = append(d, 0)
	namesAt := len(d)
	var nameOff []int
	for _, n := range names {
		nameOff = append(nameOff, len(d)-namesAt)
		d = append(append(d, n...), 0)
	}
	nameOff = append(nameOff, len(d)-namesAt)
	d = append(d, 0)
	post := len(d)
	var offs []int
	for _, l := range append(append([]verifList{}, lists...), verifList{tri: "\xff\xff\xff"}) {
		offs = append(offs, len(d)-post)
		d = append(d, l.tri...)
		last := -1
		for _, id := range l.ids {
			d = binary.AppendUvarint(d, uint64(id-last))
			last = id
		}
		d = append(d, 0)
	}
	nameIndex := len(d)
	for _, o := range nameOff {
		u32(o)
	}
	postIndex := len(d)
	for k, l := range lists {
		d = append(d, l.tri...)
		u32(len(l.ids))
		u32(offs[k])
	}
	d = append(d, "\xff\xff\xff"...)
	u32(0)
	u32(offs[len(lists)])
	u32(rootsAt)
	u32(namesAt)
	u32(post)
	u32(nameIndex)
	u32(postIndex)
	d = append(d, "\ncsearch trailr\n"...)
	os.WriteFile(file, d, 0600)
}

// verifWriteV2 is the same index in the current format.
func verifWriteV2(file string, roots, names []string, lists []verifList) {
	data := make([]string, len(names))
	for _, l := range lists {
		for _, id := range l.ids {
			data[id] += l.tri + "\n"
		}
	}
	ix := Create(file)
	var rs []Path
	for _, r := range roots {
		rs = append(rs, MakePath(r))
	}
	ix.AddRoots(rs)
	for i, n := range names {
		verifAdd(ix, n, &verifReader{data: data[i]})
	}
	ix.Flush()
}
