package index

import "github.com/google/codesearch/internal/vsym"

// verifName is any name of length n that may be stored: no control characters
// other than the one that separates an archive from a member.
func verifName(tag string, n int) string {
	s := vsym.String(tag, n)
	for i := 0; i < n; i++ {
		vsym.Assume(vsym.Or(s[i] >= ' ', s[i] == 1))
	}
	return s
}

// verifClean is a cleaned path: no empty elements and no slash at the end.
func verifClean(tag string, n int) string {
	s := verifName(tag, n)
	for i := 0; i+1 < n; i++ {
		vsym.Assume(vsym.Not(vsym.And(s[i] == '/', s[i+1] == '/')))
	}
	if n > 1 {
		vsym.Assume(s[n-1] != '/')
	}
	return s
}

func verifKey(c byte) byte { return vsym.IteByte(c == '/', 0, c) }

// verifRefLess is the order the format documents: byte-wise, with slash first.
func verifRefLess(a, b string) bool {
	less := len(a) < len(b)
	for i := min(len(a), len(b)) - 1; i >= 0; i-- {
		x, y := verifKey(a[i]), verifKey(b[i])
		less = vsym.Or(x < y, vsym.And(x == y, less))
	}
	return less
}

// verifBelow: p is d or lies below it.
func verifBelow(p, d string) bool {
	if len(p) == len(d) {
		return vsym.EqStr(p, d)
	}
	if len(p) < len(d) {
		return false
	}
	pre := vsym.EqStr(p[:len(d)], d)
	return vsym.And(pre, vsym.Or(p[len(d)] == '/', d[len(d)-1] == '/'))
}

func VerifC14_order() {
	n := vsym.Pick(5, 8)
	a := verifName("a", 1+vsym.Choice("na", n))
	b := verifName("b", 1+vsym.Choice("nb", n))
	c := MakePath(a).Compare(MakePath(b))
	vsym.Assert(vsym.Iff(c < 0, verifRefLess(a, b)), "Compare does not order by bytes with slash first")
	vsym.Assert(vsym.Iff(c == 0, vsym.EqStr(a, b)), "Compare is zero for different paths, or not for equal ones")
	d := MakePath(b).Compare(MakePath(a))
	vsym.Assert(vsym.Iff(c < 0, d > 0), "Compare is not antisymmetric")
	vsym.Assert(MakePath(a).String() == a, "a path does not keep its name")
	vsym.Cover("pair")
}

func VerifC14_transitive() {
	n := vsym.Pick(3, 5)
	a := verifName("a", 1+vsym.Choice("na", n))
	b := verifName("b", 1+vsym.Choice("nb", n))
	c := verifName("c", 1+vsym.Choice("nc", n))
	if MakePath(a).Compare(MakePath(b)) <= 0 && MakePath(b).Compare(MakePath(c)) <= 0 {
		vsym.Assert(MakePath(a).Compare(MakePath(c)) <= 0, "Compare is not transitive")
		vsym.Cover("chain")
	}
}

func VerifC14_prefix() {
	d := verifClean("d", 1+vsym.Choice("nd", vsym.Pick(3, 4)))
	p := verifClean("p", 1+vsym.Choice("np", vsym.Pick(5, 6)))
	vsym.Assert(vsym.Iff(MakePath(p).HasPathPrefix(MakePath(d)), verifBelow(p, d)), "HasPathPrefix does not mean the same path or below it")
	vsym.Cover("pair")
}

// Everything between two paths of a subtree is in the subtree.
func VerifC14_contiguous() {
	d := verifClean("d", 1+vsym.Choice("nd", vsym.Pick(2, 3)))
	m := vsym.Pick(4, 5)
	p := MakePath(d)
	if vsym.Choice("same", 2) == 1 {
		p = MakePath(verifClean("p", len(d)+1+vsym.Choice("np", m-len(d))))
	}
	q := MakePath(verifClean("q", 1+vsym.Choice("nq", m)))
	r := MakePath(verifClean("r", len(d)+1+vsym.Choice("nr", m-len(d))))
	vsym.Assume(vsym.And(verifBelow(p.s, d), verifBelow(r.s, d)))
	if p.Compare(q) <= 0 && q.Compare(r) <= 0 {
		vsym.Cover("between")
		vsym.Assert(verifBelow(q.String(), d), "a path outside a directory sorts between two paths below it")
	}
}

// Names that share a long beginning: every tail, however far in.
func VerifC14_long() {
	k := []int{6, 7, 8, 14, 15, 16, 17, 29, 31, 32, 63, 64, 127, 128, 255, 256, 300}[vsym.Choice("shared", 17)]
	const cycle = "/ab-c/\xe9x.y"
	pre := ""
	for i := 0; i < k; i++ {
		pre += cycle[i%len(cycle) : i%len(cycle)+1]
	}
	n := vsym.Pick(2, 3)
	a := pre + verifName("a", vsym.Choice("na", n+1))
	b := pre + verifName("b", vsym.Choice("nb", n+1))
	c := MakePath(a).Compare(MakePath(b))
	vsym.Assert(vsym.Iff(c < 0, verifRefLess(a, b)), "Compare does not order by bytes with slash first")
	vsym.Assert(vsym.Iff(c == 0, vsym.EqStr(a, b)), "Compare is zero for different paths, or not for equal ones")
	for _, s := range []string{a, b} {
		for i := k - 1; i+1 < len(s); i++ {
			vsym.Assume(vsym.Not(vsym.And(s[i] == '/', s[i+1] == '/')))
		}
		vsym.Assume(s[len(s)-1] != '/')
	}
	vsym.Assert(vsym.Iff(MakePath(a).HasPathPrefix(MakePath(b)), verifBelow(a, b)), "HasPathPrefix does not mean the same path or below it")
	vsym.Cover("pair")
}
