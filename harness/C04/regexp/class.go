package regexp

import (
	"strconv"
	"unicode"

	"github.com/google/codesearch/internal/vref"
	"github.com/google/codesearch/internal/vsym"
)

func verifNew(e string) *Regexp {
	re, err := Compile(e)
	vsym.Assert(err == nil, "an expression does not compile")
	return re
}

// verifBytes is any line of n bytes that is not the encoding of a surrogate.
func verifBytes(n int) []byte {
	b := vsym.Bytes("text", n)
	vsym.Assume(vref.Line(b))
	if n == 3 {
		vsym.Assume(vsym.Not(vsym.And(b[0] == 0xED, vsym.And(b[1] >= 0xA0, b[1] <= 0xBF))))
	}
	return b
}

func verifDecide(e string, n int, member func(r uint32) bool) {
	b := verifBytes(n)
	r, ok := vref.DecodeN(b)
	want := vsym.And(ok, member(r))
	got := verifNew("(?m)^"+e+"$").Match(b, true, true)
	if got < 0 {
		vsym.Assert(vsym.Not(want), "a member of the class is not matched")
	} else {
		vsym.Assert(want, "bytes are matched that do not encode a member of the class")
	}
	vsym.Cover("decided")
}

func verifHex(r rune) string { return `\x{` + strconv.FormatInt(int64(r), 16) + `}` }

// Ranges whose ends lie at and next to every boundary of the encoding.
func VerifC04_edges() {
	at := []rune{0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xBF, 0xC0, 0xFF, 0x100, 0x7BF, 0x7FF, 0x800, 0x83F, 0x840, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD001, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xE03F, 0xE040, 0xEFFF, 0xF000, 0xFFBF, 0xFFFF, 0x10000, 0x10FFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFBE, 0x10FFFF}
	i := vsym.Choice("lo", len(at))
	j := vsym.Choice("hi", len(at))
	if j < i {
		return
	}
	if !vsym.Thorough() && (i+j+vsym.Seed())%4 != 0 && (at[i] < 0xD000 || at[j] > 0xE040) {
		return
	}
	n := 1 + vsym.Choice("len", 4)
	lo, hi := uint32(at[i]), uint32(at[j])
	verifDecide("["+verifHex(at[i])+"-"+verifHex(at[j])+"]", n, func(r uint32) bool { return vsym.And(lo <= r, r <= hi) })
}

// Classes of several ranges, and their complements.
func VerifC04_sets() {
	v := vref.Seeded(vsym.Seed(), vsym.Choice("set", vsym.Pick(40, 400)))
	n := 1 + vsym.Choice("len", 4)
	e := "["
	neg := v.N(2) == 0
	if neg {
		e += "^"
	}
	var set []uint32
	for k := 2 + v.N(4); k > 0; k-- {
		lo := rune(v.N([]int{0x80, 0x800, 0x10000, 0x110000}[v.N(4)]))
		hi := min(lo+rune(v.N([]int{1, 3, 100, 5000, 100000}[v.N(5)])), 0x10FFFF)
		for _, x := range []*rune{&lo, &hi} {
			if *x >= 0xD800 && *x <= 0xDFFF {
				*x = 0xE000
			}
		}
		e += verifHex(lo)
		if hi > lo {
			e += "-" + verifHex(hi)
		}
		set = append(set, uint32(lo), uint32(hi))
	}
	verifDecide(e+"]", n, func(r uint32) bool {
		in := false
		for i := 0; i < len(set); i += 2 {
			in = vsym.Or(in, vsym.And(set[i] <= r, r <= set[i+1]))
		}
		return vsym.Not(vsym.Iff(in, neg))
	})
}

// Characters that have other cases, ignoring case.
func VerifC04_folded() {
	always := []rune{'a', 'k', 's', 'K', 0x17F, 0x212A, 0xB5, 0x3BC, 0x3C3, 0x3C2, 0xDF, 0x1E9E, 0xE5, 0x212B, 0x1C4, 0x1C5, 0x1C6, 0x390, 0x1FD3, 0x2126, 0x345, 0x399, 0x1FBE, 0x10A0, 0x2D00, 0x13A0, 0xAB70, 0xFF21, 0xFB05, 0xFB06, 0x10400, 0x1E900, '1', '[', '@', '\x60', '{', 0x130, 0x131, 0x434, 0x1C80}
	var all []rune
	if vsym.Thorough() {
		for r := rune(0); r < 0x1F000; r++ {
			if unicode.SimpleFold(r) != r {
				all = append(all, r)
			}
		}
	}
	i := vsym.Choice("char", len(always)+len(all))
	n := 1 + vsym.Choice("len", 4)
	all = append(all, always...)
	c := all[i]
	member := func(r uint32) bool {
		in := r == uint32(c)
		for x := unicode.SimpleFold(c); x != c; x = unicode.SimpleFold(x) {
			in = vsym.Or(in, r == uint32(x))
		}
		return in
	}
	e := verifHex(c)
	if vsym.Choice("class", 2) == 0 {
		e = "[" + e + "]"
	}
	verifDecide("(?i)"+e, n, member)
}

// The same character in several spellings.
func VerifC04_pairs() {
	exprs := []string{`k|K`, `é|É`, `[Éé]`, `ǅ|Ǆ`, `[σΣ]`, `Σ|σ|ς`, `[sS]`, `s|S|ſ`, `(?i:[é])`, `(?i:[a-z])`, `(?i:[^k])`, `(?i:[à-þ])`, `(?i:[α-ω])`, `(?i:[K])`, `[Aa]|[Bb]`, `(?:A|a)`, `µ|μ`, `1|(?i:1)`}
	sets := [][]rune{{'k', 'k', 'K', 'K'}, {0xE9, 0xE9, 0xC9, 0xC9}, {0xC9, 0xC9, 0xE9, 0xE9}, {0x1C4, 0x1C5}, {0x3C3, 0x3C3, 0x3A3, 0x3A3}, {0x3C3, 0x3C3, 0x3A3, 0x3A3, 0x3C2, 0x3C2}, {'s', 's', 'S', 'S'}, {'s', 's', 'S', 'S', 0x17F, 0x17F},
		{0xE9, 0xE9, 0xC9, 0xC9}, {'a', 'z', 'A', 'Z', 0x17F, 0x17F, 0x212A, 0x212A}, {0, 'J', 'L', 'j', 'l', 0x2129, 0x212B, 0x10FFFF}, {0xE0, 0xFE, 0xC0, 0xDE, 0x212B, 0x212B}, nil, {'k', 'k', 'K', 'K', 0x212A, 0x212A}, {'a', 'b', 'A', 'B'}, {'a', 'a', 'A', 'A'}, {0xB5, 0xB5, 0x3BC, 0x3BC}, {'1', '1'}}
	i := vsym.Choice("expr", len(exprs))
	n := 1 + vsym.Choice("len", 4)
	set := sets[i]
	if set == nil {
		for c := rune(0x3B1); c <= 0x3C9; c++ {
			for x := unicode.SimpleFold(c); ; x = unicode.SimpleFold(x) {
				set = append(set, x, x)
				if x == c {
					break
				}
			}
		}
	}
	verifDecide("(?:"+exprs[i]+")", n, func(r uint32) bool {
		in := false
		for i := 0; i < len(set); i += 2 {
			lo, hi := uint32(set[i]), uint32(set[i+1])
			// the sign between the capital letters is not one
			in = vsym.Or(in, vsym.And(vsym.And(lo <= r, r <= hi), vsym.Or(lo != 0xC0, r != 0xD7)))
		}
		return in
	})
}
