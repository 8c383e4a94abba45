package sparse

import "github.com/google/codesearch/internal/vsym"

type verifRef struct{ vals []uint32 }

func (r *verifRef) has(x uint32) bool {
	ok := false
	for _, v := range r.vals {
		ok = vsym.Or(ok, v == x)
	}
	return ok
}

func verifCheck(s *Set, r *verifRef, x uint32) {
	vsym.Assert(s.Len() == len(r.vals), "size differs from the number of distinct values")
	d := s.Dense()
	vsym.Assert(len(d) == len(r.vals), "enumeration has the wrong length")
	for i, v := range r.vals {
		vsym.Assert(d[i] == v, "enumeration differs from the insertion order")
	}
	vsym.Assert(vsym.Iff(s.Has(x), r.has(x)), "membership differs from the inserted values")
}

func verifRun(s *Set, max uint32, ops int) {
	r := &verifRef{}
	for i := 0; i < ops; i++ {
		if vsym.Choice("op", 2) == 1 {
			s.Reset()
			r.vals = nil
		} else {
			x := vsym.Uint32("x")
			vsym.Assume(x < max)
			s.Add(x)
			if !r.has(x) {
				r.vals = append(r.vals, x)
			}
		}
		q := vsym.Uint32("q")
		vsym.Assume(q < max)
		verifCheck(s, r, q)
	}
	vsym.Cover("sequence completed")
}

// A small universe and long sequences.
func VerifC23_small() { verifRun(NewSet(8), 8, vsym.Pick(8, 10)) }

// The universe that trigrams use.
func VerifC23_trigrams() { verifRun(NewSet(1<<24), 1<<24, vsym.Pick(7, 9)) }

// Sets that already hold a great many values: membership of any value, and
// what one more insertion of any value does.
func VerifC23_large() {
	max := []uint32{1 << 18, 1 << 24}[vsym.Choice("max", 2)]
	n := []int{127, 128, 255, 256, 257, 65535, 65536, 65537, 70000}[vsym.Choice("members", 9)]
	step := max / uint32(n+1)
	if step == 1 {
		vsym.Assume(false)
	}
	s := NewSet(max)
	for i := 0; i < n; i++ {
		s.Add(uint32(i) * step)
	}
	if vsym.Choice("reset", 2) == 1 {
		// the same values again, the other way round
		s.Reset()
		for i := n - 1; i >= 0; i-- {
			s.Add(uint32(i) * step)
		}
	}
	vsym.Assert(s.Len() == n, "size differs from the number of distinct values")
	// a window of eight members
	w := []int{0, 250, 65530, n - 8}[vsym.Choice("window", 4)]
	vsym.Assume(w >= 0 && w+8 <= n)
	x := uint32(w+vsym.Int("member", 0, 7)) * step
	vsym.Assert(s.Has(x), "a value that was inserted is not a member")
	d := uint32(vsym.Int("off", 1, int(min(step-1, 3))))

	vsym.Assert(!s.Has(x+d), "a value that was not inserted is a member")
	s.Add(x)
	vsym.Assert(s.Len() == n && len(s.Dense()) == n, "a value is inserted twice")
	s.Add(x + d)
	vsym.Assert(s.Len() == n+1 && s.Dense()[n] == x+d, "an inserted value is not enumerated")
	vsym.Assert(s.Has(x+d) && s.Has(x), "a value that was inserted is not a member")
	vsym.Cover("large")
}
