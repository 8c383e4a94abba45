package index

import "github.com/google/codesearch/internal/vsym"

// verifDelta is a delta of exactly lg+1 bits.
func verifDelta(name string, lg int) int {
	x := uint64(1) << lg
	if lg > 0 {
		x |= vsym.Uint64(name) & (1<<lg - 1)
	}
	return int(x)
}

func verifRoundTrip(version int, xs []int) {
	b := verifMemBuffer(4096)
	verifWithVersion(version, func() {
		var w deltaWriter
		w.init(b)
		for _, x := range xs {
			w.Write(x)
		}
		w.Write(0)
		w.Flush()
		// a second list right behind the first one
		w.Write(1)
		w.Write(0)
		w.Flush()
	})
	var r deltaReader
	r.init(&Index{version: version}, b.buf)
	for _, x := range xs {
		vsym.Assert(r.next() == x, "a delta is not read back as written")
	}
	vsym.Assert(r.next() == 0, "the end of the list is not read back")
	r.clearBits()
	vsym.Assert(r.next() == 1, "the list after it is not read back")
	vsym.Assert(r.next() == 0, "the end of the list after it is not read back")
	vsym.Assert(len(r.d) == 0, "the reader does not consume exactly the bytes written")
	vsym.Cover("round trip")
}

// Any delta at any bit alignment, followed by a small one.
func VerifC13_gamma() {
	var xs []int
	switch vsym.Choice("pre", 9) {
	case 0:
	case 1:
		xs = append(xs, 2) // 3 bits: the concrete values only set up the alignment
	case 2:
		xs = append(xs, 2, 2)
	case 3:
		xs = append(xs, 1, 1, 1, 1)
	case 4:
		xs = append(xs, 2, 1, 1)
	case 5:
		xs = append(xs, 1)
	case 6:
		xs = append(xs, 1, 1)
	case 7:
		xs = append(xs, 15)
	case 8:
		xs = append(xs, 2, 2, 2, 2, 2, 15)
	}
	xs = append(xs, verifDelta("x", vsym.Choice("lg", 62)))
	xs = append(xs, verifDelta("y", vsym.Choice("lgy", 6)))
	verifRoundTrip(2, xs)
}

// Two large deltas in a row.
func VerifC13_gammaPair() {
	ls := []int{3, 4, 5, 7, 8, 15, 16, 23, 24, 30, 31, 32, 33, 34, 39, 40, 47, 55, 61}
	xs := []int{verifDelta("x", ls[vsym.Choice("lgx", len(ls))]), verifDelta("y", ls[vsym.Choice("lgy", len(ls))])}
	verifRoundTrip(2, xs)
}

func VerifC13_varint() {
	xs := []int{verifDelta("x", vsym.Choice("lg", 63)), verifDelta("y", vsym.Choice("lgy", 10))}
	verifRoundTrip(1, xs)
}

func verifDecode(version, n int) {
	data := vsym.Bytes("d", n)
	ix := &Index{version: version}
	var r deltaReader
	code := verifTry(func() {
		r.init(ix, data)
		for i := 0; i < 4; i++ {
			r.next()
		}
	})
	vsym.Assert(code != 3, "decoding arbitrary bytes reads outside the data")
	vsym.Assert(len(r.d) <= n, "decoding does not make progress")
	vsym.Cover("decoded")
	if code == 1 {
		vsym.Cover("reported corrupt")
	}
}

func VerifC13_decodeGamma() { verifDecode(2, vsym.Choice("n", vsym.Pick(5, 9))) }

func VerifC13_decodeVarint() { verifDecode(1, vsym.Choice("n", vsym.Pick(8, 14))) }
