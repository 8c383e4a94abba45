// Package vref is a reference for what regular expressions mean. It follows
// the syntax tree directly, over texts whose bytes may be symbolic, so that
// one formula covers every text of a length.
package vref

import (
	"regexp/syntax"
	"unicode"

	"github.com/google/codesearch/internal/vsym"
)

// A Text is one line, without its newline.
type Text struct {
	B        []byte
	BOT, EOT bool // the line starts at the beginning, ends at the end of the text
	runes    [][5]uint32
	valid    [][5]bool
}

func or(a, b bool) bool  { return vsym.Or(a, b) }
func and(a, b bool) bool { return vsym.And(a, b) }

// NewText prepares the decoding of the text at every position.
func NewText(b []byte, bot, eot bool) *Text {
	t := &Text{B: b, BOT: bot, EOT: eot}
	t.runes = make([][5]uint32, len(b))
	t.valid = make([][5]bool, len(b))
	for i := range b {
		for n := 1; n <= 4 && i+n <= len(b); n++ {
			t.runes[i][n], t.valid[i][n] = DecodeN(b[i : i+n])
		}
	}
	return t
}

// DecodeN reports whether b is the UTF-8 encoding of one character, and which.
func DecodeN(b []byte) (r uint32, ok bool) {
	c := func(i int) uint32 { return uint32(b[i]) }
	cont := func(i int) bool { return b[i]&0xC0 == 0x80 }
	switch len(b) {
	case 1:
		return c(0), c(0) < 0x80
	case 2:
		r = (c(0)&0x1F)<<6 | c(1)&0x3F
		return r, and(c(0)&0xE0 == 0xC0, and(cont(1), r >= 0x80))
	case 3:
		r = (c(0)&0x0F)<<12 | (c(1)&0x3F)<<6 | c(2)&0x3F
		ok = and(c(0)&0xF0 == 0xE0, and(cont(1), and(cont(2), r >= 0x800)))
		return r, and(ok, or(r < 0xD800, r > 0xDFFF))
	case 4:
		r = (c(0)&0x07)<<18 | (c(1)&0x3F)<<12 | (c(2)&0x3F)<<6 | c(3)&0x3F
		ok = and(c(0)&0xF8 == 0xF0, and(cont(1), and(cont(2), cont(3))))
		return r, and(ok, and(r >= 0x10000, r <= 0x10FFFF))
	}
	return 0, false
}

// Valid reports whether b is valid UTF-8.
func Valid(b []byte) bool {
	v := make([]bool, len(b)+1)
	v[0] = true
	for i := range b {
		for n := 1; n <= 4 && i+n <= len(b); n++ {
			_, ok := DecodeN(b[i : i+n])
			v[i+n] = or(v[i+n], and(v[i], ok))
		}
	}
	return v[len(b)]
}

// Line reports whether b contains no newline.
func Line(b []byte) bool {
	ok := true
	for _, c := range b {
		ok = and(ok, c != '\n')
	}
	return ok
}

// Match reports whether the expression matches somewhere in the text.
func (t *Text) Match(re *syntax.Regexp) bool {
	s := make([]bool, len(t.B)+1)
	for i := range s {
		s[i] = true
	}
	m := false
	for _, x := range t.step(re, s) {
		m = or(m, x)
	}
	return m
}

// class returns the ranges of characters a one-character expression matches.
func class(re *syntax.Regexp) []rune {
	switch re.Op {
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return []rune{0, unicode.MaxRune}
	}
	return re.Rune
}

func folds(r rune) []rune {
	c := []rune{r, r}
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		c = append(c, x, x)
	}
	return c
}

func encLen(r rune) int {
	switch {
	case r < 0x80:
		return 1
	case r < 0x800:
		return 2
	case r < 0x10000:
		return 3
	}
	return 4
}

func (t *Text) one(c []rune, s []bool) []bool {
	out := make([]bool, len(s))
	for i := range t.B {
		for n := 1; n <= 4 && i+n <= len(t.B); n++ {
			in := false
			r := t.runes[i][n]
			for k := 0; k+1 < len(c); k += 2 {
				lo, hi := uint32(c[k]), uint32(c[k+1])
				if encLen(rune(hi)) < n || encLen(rune(lo)) > n {
					continue
				}
				if lo == hi {
					in = or(in, r == lo)
				} else {
					in = or(in, and(lo <= r, r <= hi))
				}
			}
			out[i+n] = or(out[i+n], and(s[i], and(t.valid[i][n], in)))
		}
	}
	return out
}

func union(a, b []bool) []bool {
	c := make([]bool, len(a))
	for i := range c {
		c[i] = or(a[i], b[i])
	}
	return c
}

func where(s []bool, f func(i int) bool) []bool {
	c := make([]bool, len(s))
	for i := range c {
		c[i] = and(s[i], f(i))
	}
	return c
}

func (t *Text) word(i int) bool {
	if i < 0 || i >= len(t.B) {
		return false
	}
	c := t.B[i]
	return or(or(and('0' <= c, c <= '9'), c == '_'), or(and('A' <= c, c <= 'Z'), and('a' <= c, c <= 'z')))
}

func (t *Text) boundary(i int) bool { return vsym.Not(vsym.Iff(t.word(i-1), t.word(i))) }

// step returns the positions where a match that starts at a position in s can end.
func (t *Text) step(re *syntax.Regexp, s []bool) []bool {
	n := len(t.B)
	switch re.Op {
	case syntax.OpNoMatch:
		return make([]bool, n+1)
	case syntax.OpEmptyMatch:
		return s
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			c := []rune{r, r}
			if re.Flags&syntax.FoldCase != 0 {
				c = folds(r)
			}
			s = t.one(c, s)
		}
		return s
	case syntax.OpCharClass, syntax.OpAnyCharNotNL, syntax.OpAnyChar:
		return t.one(class(re), s)
	case syntax.OpBeginLine:
		return where(s, func(i int) bool { return i == 0 })
	case syntax.OpEndLine:
		return where(s, func(i int) bool { return i == n })
	case syntax.OpBeginText:
		return where(s, func(i int) bool { return i == 0 && t.BOT })
	case syntax.OpEndText:
		return where(s, func(i int) bool { return i == n && t.EOT })
	case syntax.OpWordBoundary:
		return where(s, t.boundary)
	case syntax.OpNoWordBoundary:
		return where(s, func(i int) bool { return vsym.Not(t.boundary(i)) })
	case syntax.OpCapture:
		return t.step(re.Sub[0], s)
	case syntax.OpStar:
		return t.star(re.Sub[0], s)
	case syntax.OpPlus:
		return t.star(re.Sub[0], t.step(re.Sub[0], s))
	case syntax.OpQuest:
		return union(s, t.step(re.Sub[0], s))
	case syntax.OpRepeat:
		for i := 0; i < re.Min; i++ {
			s = t.step(re.Sub[0], s)
		}
		if re.Max < 0 {
			return t.star(re.Sub[0], s)
		}
		for i := re.Min; i < re.Max; i++ {
			s = union(s, t.step(re.Sub[0], s))
		}
		return s
	case syntax.OpConcat:
		for _, x := range re.Sub {
			s = t.step(x, s)
		}
		return s
	case syntax.OpAlternate:
		out := make([]bool, n+1)
		for _, x := range re.Sub {
			out = union(out, t.step(x, s))
		}
		return out
	}
	panic("vref: unknown operator " + re.Op.String())
}

func (t *Text) star(x *syntax.Regexp, s []bool) []bool {
	for i := 0; i < len(t.B); i++ {
		s = union(s, t.step(x, s))
	}
	return s
}

// Parse parses an expression the way the commands document it.
func Parse(expr string) *syntax.Regexp {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		panic("vref: " + err.Error())
	}
	return re
}

// MinLen returns the length in bytes of the shortest text that could match.
func MinLen(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		n := 0
		for _, r := range re.Rune {
			m := encLen(r)
			if re.Flags&syntax.FoldCase != 0 {
				for _, x := range folds(r) {
					m = min(m, encLen(x))
				}
			}
			n += m
		}
		return n
	case syntax.OpCharClass, syntax.OpAnyCharNotNL, syntax.OpAnyChar:
		if c := class(re); len(c) > 0 {
			return encLen(c[0])
		}
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return MinLen(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min * MinLen(re.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, x := range re.Sub {
			n += MinLen(x)
		}
		return n
	case syntax.OpAlternate:
		n := MinLen(re.Sub[0])
		for _, x := range re.Sub {
			n = min(n, MinLen(x))
		}
		return n
	}
	return 0
}
