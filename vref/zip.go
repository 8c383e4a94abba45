package vref

import "hash/crc32"

// A Member is an entry of a ZIP file.
type Member struct {
	Name string
	Text string // uncompressed
	Kind int    // 0 stored, 1 deflated, 2 stored with the sizes after the data, 3 without a checksum, 4 with a wrong checksum, 5 by an unknown method, 6 cut short
}

func le(n int, v uint32) string {
	s := ""
	for i := 0; i < n; i++ {
		s += string([]byte{byte(v >> (8 * i))})
	}
	return s
}

// Zip returns a ZIP file with some members.
func Zip(ms ...Member) string {
	return ZipAround("", "", ms...)
}

// ZipAround returns a ZIP file with text before it and a comment.
func ZipAround(before, comment string, ms ...Member) string {
	out, dir := before, ""
	for _, m := range ms {
		data, method, flags := m.Text, uint32(0), uint32(0)
		var crc uint32
		if m.Kind != 3 {
			crc = crc32.ChecksumIEEE([]byte(m.Text))
		}
		size := uint32(len(m.Text))
		switch m.Kind {
		case 1:
			method = 8
			data = Deflate(m.Text)
		case 2:
			flags = 8
		case 4:
			crc++
		case 5:
			method = 77
		case 6:
			size++
		}
		off := uint32(len(out))
		c, s, z := crc, uint32(len(data)), size
		if m.Kind == 2 {
			c, s, z = 0, 0, 0
		}
		out += "PK\x03\x04" + le(2, 20) + le(2, flags) + le(2, method) + le(4, 0) + le(4, c) + le(4, s) + le(4, z) + le(2, uint32(len(m.Name))) + le(2, 0) + m.Name + data
		if m.Kind == 2 {
			out += "PK\x07\x08" + le(4, crc) + le(4, uint32(len(data))) + le(4, size)
		}
		dir += "PK\x01\x02" + le(2, 20) + le(2, 20) + le(2, flags) + le(2, method) + le(4, 0) + le(4, crc) + le(4, uint32(len(data))) + le(4, size) + le(2, uint32(len(m.Name))) + le(2, 0) + le(2, 0) + le(2, 0) + le(2, 0) + le(4, 0) + le(4, off) + m.Name
	}
	at := uint32(len(out))
	return out + dir + "PK\x05\x06" + le(4, 0) + le(2, uint32(len(ms))) + le(2, uint32(len(ms))) + le(4, uint32(len(dir))) + le(4, at) + le(2, uint32(len(comment))) + comment
}

// Deflate returns text in the form of one block of fixed codes, for ASCII.
func Deflate(text string) string {
	var out []byte
	var acc, n uint32
	put := func(v, bits uint32) { // lowest bit first
		acc |= v << n
		n += bits
		for n >= 8 {
			out = append(out, byte(acc))
			acc >>= 8
			n -= 8
		}
	}
	put(1, 1) // final
	put(1, 2) // fixed codes
	for i := 0; i < len(text); i++ {
		v, bits := 0x30+uint32(text[i]), uint32(8)
		if text[i] >= 144 {
			v, bits = 0x190+uint32(text[i])-144, 9
		}
		for b := int(bits) - 1; b >= 0; b-- {
			put(v>>b&1, 1)
		}
	}
	put(0, 7)
	if n > 0 {
		out = append(out, byte(acc))
	}
	return string(out)
}

// PathLess is the order of paths: like that of bytes, with / before all.
func PathLess(a, b string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] == '/' || b[i] == '/' {
				return a[i] == '/'
			}
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// PathSort sorts paths.
func PathSort(s []string) {
	for i := range s {
		for j := i; j > 0 && PathLess(s[j], s[j-1]); j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
