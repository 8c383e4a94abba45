package regexp

import (
	"regexp/syntax"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

// verifRune is any character with an encoding of n bytes.
func verifRune(tag string, n int) uint32 {
	r := vsym.Uint32(tag)
	lo := []uint32{0, 0x80, 0x800, 0x10000, 0x110000}
	vsym.Assume(vsym.And(r >= lo[n-1], r < lo[n]))
	if n == 3 {
		vsym.Assume(vsym.Or(r < 0xD800, r > 0xDFFF))
	}
	return r
}

// Every range lo-hi against every string of up to four bytes.
func VerifC04_whole() {
	p := vsym.Choice("lengths", 10)
	k := 0
	for nlo := 1; nlo <= 4; nlo++ {
		for nhi := nlo; nhi <= 4; nhi++ {
			if k == p {
				n := 1 + vsym.Choice("len", 4)
				if n > nhi && !vsym.Thorough() {
					return
				}
				lo, hi := verifRune("lo", nlo), verifRune("hi", nhi)
				vsym.Assume(lo <= hi)
				verifRange(lo, hi, n)
				return
			}
			k++
		}
	}
}

func verifRange(lo, hi uint32, n int) {
	prog := &syntax.Prog{Start: 1, Inst: []syntax.Inst{
		{Op: syntax.InstFail},
		{Op: syntax.InstEmptyWidth, Arg: uint32(syntax.EmptyBeginLine), Out: 2},
		{Op: syntax.InstRune, Rune: []rune{rune(lo), rune(hi)}, Out: 3},
		{Op: syntax.InstEmptyWidth, Arg: uint32(syntax.EmptyEndLine), Out: 4},
		{Op: syntax.InstMatch},
	}}
	toByteProg(prog)
	var m matcher
	m.init(prog)
	b := verifBytes(n)
	r, ok := vref.DecodeN(b)
	want := vsym.And(ok, vsym.And(lo <= r, r <= hi))
	got := m.match(b, true, true)
	if got < 0 {
		vsym.Assert(vsym.Not(want), "a member of the class is not matched")
	} else {
		vsym.Assert(want, "bytes are matched that do not encode a member of the class")
	}
	vsym.Cover("decided")
}
