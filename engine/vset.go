package main

import "slices"

// Value sets: an over-approximation of the values a term can take, used to narrow
// the elements a symbolic index can select.

const (
	vsetMax   = 256
	vsetNodes = 20000
)

type vsets struct {
	st   *State
	memo map[uint32][]uint64
	n    int
}

// valueSet returns a superset of the values of t (sorted), or nil when it is not small.
func (st *State) valueSet(t *Term) []uint64 {
	v := &vsets{st: st, memo: map[uint32][]uint64{}}
	return v.of(t)
}

func (v *vsets) of(t *Term) []uint64 {
	if t.op == OpConst {
		return []uint64{t.k}
	}
	if r, ok := v.memo[t.id]; ok {
		return r
	}
	if v.n++; v.n > vsetNodes {
		return nil
	}
	r := v.calc(t)
	if r == nil && t.hi-t.lo < vsetMax {
		for k := t.lo; ; k++ {
			if k&t.kz == 0 && ^k&t.ko == 0 {
				r = append(r, k)
			}
			if k == t.hi {
				break
			}
		}
	}
	v.memo[t.id] = r
	return r
}

func (v *vsets) calc(t *Term) []uint64 {
	if t.w == 0 {
		if b, ok := v.st.implied(t); ok {
			return []uint64{b2u(b)}
		}
		if t.op != OpVar {
			return []uint64{0, 1}
		}
	}
	switch t.op {
	case OpVar:
		if t.w > 8 {
			return nil
		}
		d := v.st.domOf(uint32(t.k))
		var r []uint64
		for i := uint64(0); i < 256; i++ {
			if d[i/64]>>(i%64)&1 != 0 {
				r = append(r, i)
			}
		}
		return r
	case OpIte:
		c := v.of(t.a)
		if len(c) == 1 {
			if c[0] != 0 {
				return v.of(t.b)
			}
			return v.of(t.c)
		}
		a := v.of(t.b)
		if a == nil {
			return nil
		}
		b := v.of(t.c)
		if b == nil {
			return nil
		}
		return vsetUnion(a, b)
	case OpZExt, OpSExt, OpExtract:
		a := v.of(t.a)
		if a == nil {
			return nil
		}
		r := make([]uint64, len(a))
		for i, x := range a {
			switch t.op {
			case OpSExt:
				x = uint64(sx(x, t.a.w)) & mask(t.w)
			case OpExtract:
				x = x >> t.k & mask(t.w)
			}
			r[i] = x
		}
		return vsetNorm(r)
	}
	if t.b == nil || t.c != nil || t.w == 0 {
		return nil
	}
	a := v.of(t.a)
	if a == nil {
		return nil
	}
	b := v.of(t.b)
	if b == nil || len(a)*len(b) > 4096 {
		return nil
	}
	if len(t.vars) == 1 && varWidth(t.vars[0]) <= 8 {
		// exact: the operands are correlated
		var r []uint64
		m := make(Model, t.vars[0]+1)
		d := v.st.domOf(t.vars[0])
		for i := uint64(0); i < 256; i++ {
			if d[i/64]>>(i%64)&1 != 0 {
				m[t.vars[0]] = i
				r = append(r, t.eval(m))
			}
		}
		return vsetNorm(r)
	}
	r := make([]uint64, 0, len(a)*len(b))
	for _, x := range a {
		for _, y := range b {
			k := evalBin(t.op, t.w, x, y)
			if k < t.lo || k > t.hi || k&t.kz != 0 || ^k&t.ko&mask(t.w) != 0 {
				continue
			}
			r = append(r, k)
		}
	}
	return vsetNorm(r)
}

func vsetUnion(a, b []uint64) []uint64 {
	r := make([]uint64, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	if len(r) > vsetMax {
		return nil
	}
	return r
}

func vsetNorm(r []uint64) []uint64 {
	slices.Sort(r)
	n := 0
	for i, x := range r {
		if i == 0 || x != r[n-1] {
			r[n] = x
			n++
		}
	}
	if n > vsetMax || n == 0 {
		return nil
	}
	return r[:n]
}
