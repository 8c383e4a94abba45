package index

import "github.com/google/codesearch/internal/vsym"

func verifSlash(c byte) byte { return vsym.IteByte(c == '/', 0, c) }

// verifLess is the path order: bytewise with the slash first.
func verifLess(p, q string) bool {
	r := len(p) < len(q)
	for i := min(len(p), len(q)) - 1; i >= 0; i-- {
		a, b := verifSlash(p[i]), verifSlash(q[i])
		r = vsym.Or(a < b, vsym.And(a == b, r))
	}
	return r
}

func verifEq(p, q string) bool {
	if len(p) != len(q) {
		return false
	}
	return vsym.EqStr(p, q)
}

// verifUnder: p is root or lies below it (or is a member of the archive root).
func verifUnder(p, root string) bool {
	if len(p) < len(root) {
		return false
	}
	r := vsym.EqStr(p[:len(root)], root)
	if len(p) == len(root) || root != "" && root == "/" {
		return r
	}
	c := p[len(root)]
	return vsym.And(r, vsym.Or(c == '/', c == 1))
}

func verifSorted(l []string) bool {
	r := true
	for i := 0; i+1 < len(l); i++ {
		r = vsym.And(r, verifLess(l[i], l[i+1]))
	}
	return r
}

// verifOneOf: p is in l.
func verifOneOf(p string, l []string) bool {
	r := false
	for _, q := range l {
		r = vsym.Or(r, verifEq(p, q))
	}
	return r
}

// verifIndexNames lists the names of an index through the name iterator.
func verifIndexNames(ix *Index) []string {
	var l []string
	for p := range ix.Names(0, verifNumNames(ix)) {
		l = append(l, p.String())
	}
	return l
}

func verifIndexRoots(ix *Index) []string {
	var l []string
	for p := range ix.Roots().All() {
		l = append(l, p.String())
	}
	return l
}
