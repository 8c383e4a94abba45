package main

// Terms: hash-consed SMT bit-vector and boolean expressions with light
// simplification, known bits and unsigned interval tracking.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpExtract // k = lo bit; width = w
)

var opNames = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor",
	"bvshl", "bvlshr", "bvashr", "zext", "sext", "extract"}

type Term struct {
	id     uint32
	op     Op
	w      uint8 // 0 = Bool
	k      uint64
	a      *Term
	b      *Term
	c      *Term
	kz, ko uint64   // known zero and one bits
	lo, hi uint64   // unsigned interval
	vars   []uint32 // sorted variable indices
	size   uint32   // tree size (saturating)
	tt     atomic.Pointer[[4]uint64]
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c uint32
}

const nShard = 256

type shard struct {
	mu sync.Mutex
	m  map[termKey]*Term
}

var shards [nShard]shard
var termCount atomic.Uint32

type varInfo struct {
	name string
	w    uint8
	t    *Term
}

var (
	varMu     sync.RWMutex
	varTab    []*varInfo
	varByName = map[string]*Term{}
)

func init() {
	for i := range shards {
		shards[i].m = map[termKey]*Term{}
	}
	TrueT = intern(termKey{op: OpConst, w: 0, k: 1}, nil, nil, nil)
	FalseT = intern(termKey{op: OpConst, w: 0, k: 0}, nil, nil, nil)
}

var TrueT, FalseT *Term

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func unionVars(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if &a[0] == &b[0] && len(a) == len(b) {
		return a
	}
	// subset checks to share storage
	i, j := 0, 0
	out := make([]uint32, 0, len(a)+len(b))
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func intern(key termKey, a, b, c *Term) *Term {
	key.a, key.b, key.c = tid(a), tid(b), tid(c)
	h := uint64(key.op)*0x9E3779B97F4A7C15 ^ key.k*0xC2B2AE3D27D4EB4F ^ uint64(key.a)*0x165667B19E3779F9 ^ uint64(key.b)*0x27D4EB2F165667C5 ^ uint64(key.c)*0x85EBCA77C2B2AE63 ^ uint64(key.w)
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	s := &shards[(h>>40)%nShard]
	s.mu.Lock()
	if t := s.m[key]; t != nil {
		s.mu.Unlock()
		return t
	}
	t := &Term{op: key.op, w: key.w, k: key.k, a: a, b: b, c: c}
	t.id = termCount.Add(1)
	t.finish()
	s.m[key] = t
	s.mu.Unlock()
	return t
}

func (t *Term) finish() {
	sz := uint64(1)
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			sz += uint64(x.size)
			t.vars = unionVars(t.vars, x.vars)
		}
	}
	if sz > 1<<30 {
		sz = 1 << 30
	}
	t.size = uint32(sz)
	m := mask(t.w)
	if t.w == 0 {
		m = 1
	}
	t.lo, t.hi = 0, m
	a, b, c := t.a, t.b, t.c
	switch t.op {
	case OpConst:
		t.ko = t.k
		t.kz = ^t.k & m
		t.lo, t.hi = t.k, t.k
	case OpIte:
		t.kz = b.kz & c.kz
		t.ko = b.ko & c.ko
		t.lo = min(b.lo, c.lo)
		t.hi = max(b.hi, c.hi)
	case OpBAnd:
		t.ko = a.ko & b.ko
		t.kz = a.kz | b.kz
		t.hi = min(a.hi, b.hi)
	case OpBOr:
		t.ko = a.ko | b.ko
		t.kz = a.kz & b.kz
		t.lo = max(a.lo, b.lo)
	case OpBXor:
		t.ko = a.ko&b.kz | a.kz&b.ko
		t.kz = a.ko&b.ko | a.kz&b.kz
	case OpAdd:
		pz := ^a.kz&m + ^b.kz&m
		po := a.ko + b.ko
		ckz := ^(pz ^ a.kz ^ b.kz)
		cko := po ^ a.ko ^ b.ko
		known := (a.kz | a.ko) & (b.kz | b.ko) & (ckz | cko) & m
		t.kz = ^pz & known
		t.ko = po & known
		if s, cr := bits.Add64(a.hi, b.hi, 0); cr == 0 && s <= m {
			t.lo, t.hi = a.lo+b.lo, s
		}
	case OpSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpMul:
		if hi, lo := bits.Mul64(a.hi, b.hi); hi == 0 && lo <= m {
			t.lo, t.hi = a.lo*b.lo, lo
		}
		tz := bits.TrailingZeros64(^a.kz) + bits.TrailingZeros64(^b.kz)
		if tz > 64 {
			tz = 64
		}
		t.kz |= mask(uint8(tz)) & m
	case OpUDiv:
		if b.lo > 0 {
			t.hi = a.hi / b.lo
			t.lo = a.lo / b.hi
		}
	case OpURem:
		if b.lo > 0 {
			t.hi = min(a.hi, b.hi-1)
		}
	case OpShl:
		if b.op == OpConst && b.k < uint64(t.w) {
			t.kz = (a.kz<<b.k | mask(uint8(b.k))) & m
			t.ko = a.ko << b.k & m
			if bits.Len64(a.hi)+int(b.k) <= int(t.w) {
				t.lo, t.hi = a.lo<<b.k, a.hi<<b.k
			}
		}
	case OpLShr:
		if b.op == OpConst && b.k < uint64(t.w) {
			t.kz = (a.kz>>b.k | ^(m >> b.k)) & m
			t.ko = a.ko >> b.k
			t.lo, t.hi = a.lo>>b.k, a.hi>>b.k
		} else {
			t.hi = a.hi
		}
	case OpZExt:
		t.kz = a.kz | (m &^ mask(a.w))
		t.ko = a.ko
		t.lo, t.hi = a.lo, a.hi
	case OpSExt:
		sb := uint64(1) << (a.w - 1)
		t.kz = a.kz &^ sb
		t.ko = a.ko &^ sb
		if a.kz&sb != 0 {
			t.kz |= m &^ mask(a.w-1)
			t.lo, t.hi = a.lo, a.hi
		} else if a.ko&sb != 0 {
			t.ko |= m &^ mask(a.w-1)
		}
	case OpExtract:
		t.kz = a.kz >> t.k & m
		t.ko = a.ko >> t.k & m
		if t.k == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		}
	}
	if t.w > 0 {
		t.lo = max(t.lo, t.ko)
		t.hi = min(t.hi, ^t.kz&m)
		// leading zeros from interval
		n := bits.Len64(t.hi)
		t.kz |= m &^ mask(uint8(n))
	}
}

func Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v&1 != 0 {
			return TrueT
		}
		return FalseT
	}
	return intern(termKey{op: OpConst, w: w, k: v & mask(w)}, nil, nil, nil)
}

func NewVar(name string, w uint8) *Term {
	varMu.Lock()
	defer varMu.Unlock()
	if t := varByName[name]; t != nil {
		if t.w != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d (was %d)", name, w, t.w))
		}
		return t
	}
	idx := uint32(len(varTab))
	t := &Term{op: OpVar, w: w, k: uint64(idx)}
	t.id = termCount.Add(1)
	t.finish()
	t.vars = []uint32{idx}
	varTab = append(varTab, &varInfo{name, w, t})
	varByName[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	t := intern(termKey{op: op, w: w, k: k}, a, b, c)
	if t.op != OpConst && w > 0 && t.kz|t.ko == mask(w) {
		return Const(w, t.ko)
	}
	if t.op != OpConst && w > 0 && t.lo == t.hi {
		return Const(w, t.lo)
	}
	return t
}

func Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return Const(0, a.k^1)
	case OpNot:
		return a.a
	}
	return mk(OpNot, 0, 0, a, nil, nil)
}

func And(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k == 0 {
			return FalseT
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 0 {
			return FalseT
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return FalseT
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OpAnd, 0, 0, a, b, nil)
}

func Or(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k != 0 {
			return TrueT
		}
		return b
	}
	if b.op == OpConst {
		if b.k != 0 {
			return TrueT
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return TrueT
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OpOr, 0, 0, a, b, nil)
}

func Ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		c, a, b = c.a, b, a
	}
	if a.w == 0 {
		if a == TrueT {
			return Or(c, b)
		}
		if a == FalseT {
			return And(Not(c), b)
		}
		if b == TrueT {
			return Or(Not(c), a)
		}
		if b == FalseT {
			return And(c, a)
		}
		if a == Not(b) {
			return Eq(c, a)
		}
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if b.op == OpIte && b.a == c {
		b = b.c
	}
	if b.op == OpIte && b.b == a {
		return Ite(Or(c, b.a), a, b.c)
	}
	if a == b {
		return a
	}
	return mk(OpIte, a.w, 0, c, a, b)
}

// constLeaves reports whether t is an ite tree with constant leaves of small size.
func constLeaves(t *Term, budget *int) bool {
	if *budget--; *budget < 0 {
		return false
	}
	if t.op == OpConst {
		return true
	}
	if t.op == OpIte {
		return constLeaves(t.b, budget) && constLeaves(t.c, budget)
	}
	return false
}

func isConstTree(t *Term) bool {
	if t.op != OpIte {
		return false
	}
	b := 24
	return constLeaves(t, &b)
}

func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == OpIte {
		return Ite(t.a, mapLeaves(t.b, f), mapLeaves(t.c, f))
	}
	return f(t)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TrueT
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OpConst {
			if b.k != 0 {
				return a
			}
			return Not(a)
		}
		if a.op == OpNot && b.op == OpNot {
			return Eq(a.a, b.a)
		}
		if a.op == OpNot {
			return Not(Eq(a.a, b))
		}
		if b.op == OpNot {
			return Not(Eq(a, b.a))
		}
	} else {
		if a.op == OpConst && b.op == OpConst {
			return Const(0, b2u(a.k == b.k))
		}
		if a.ko&b.kz != 0 || a.kz&b.ko != 0 || a.lo > b.hi || b.lo > a.hi {
			return FalseT
		}
		if b.op == OpConst {
			switch a.op {
			case OpZExt:
				return Eq(a.a, Const(a.a.w, b.k))
			case OpSExt:
				m := mask(a.a.w)
				v := b.k & m
				sx := v
				if v>>(a.a.w-1)&1 != 0 {
					sx |= mask(a.w) &^ m
				}
				if sx != b.k {
					return FalseT
				}
				return Eq(a.a, Const(a.a.w, v))
			case OpAdd:
				if a.b.op == OpConst {
					return Eq(a.a, Const(a.w, b.k-a.b.k))
				}
			case OpSub:
				if a.b.op == OpConst {
					return Eq(a.a, Const(a.w, b.k+a.b.k))
				}
				if a.a.op == OpConst {
					return Eq(a.b, Const(a.w, a.a.k-b.k))
				}
			case OpBXor:
				if a.b.op == OpConst {
					return Eq(a.a, Const(a.w, b.k^a.b.k))
				}
			case OpIte:
				if a.b.op == OpConst || a.c.op == OpConst || isConstTree(a) {
					return Ite(a.a, Eq(a.b, b), Eq(a.c, b))
				}
			case OpShl:
				if a.b.op == OpConst && a.b.k < uint64(a.w) {
					// low bits known zero; already checked compatible
					s := uint8(a.b.k)
					return Eq(Extract(a.a, 0, a.w-s), Const(a.w-s, b.k>>s))
				}
			case OpBOr:
				// disjoint or: split on known parts
				if a.a.hi != 0 && a.b.hi != 0 {
					ma, mb := ^a.a.kz&mask(a.w), ^a.b.kz&mask(a.w)
					if ma&mb == 0 {
						return And(Eq(a.a, Const(a.w, b.k&ma)), Eq(a.b, Const(a.w, b.k&mb)))
					}
				}
			}
		} else {
			if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
				return Eq(a.a, b.a)
			}
			if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
				return Eq(a.a, b.a)
			}
			if a.op == OpBOr && b.op == OpBOr {
				m1, m2 := ^a.a.kz&mask(a.w), ^a.b.kz&mask(a.w)
				n1, n2 := ^b.a.kz&mask(a.w), ^b.b.kz&mask(a.w)
				if m1&m2 == 0 && n1&n2 == 0 {
					if m1|n1 != 0 && (m1|n1)&(m2|n2) == 0 {
						return And(Eq(a.a, b.a), Eq(a.b, b.b))
					}
					if (m1|n2)&(m2|n1) == 0 {
						return And(Eq(a.a, b.b), Eq(a.b, b.a))
					}
				}
			}
			if a.op == OpShl && b.op == OpShl && a.b == b.b && a.b.op == OpConst && a.b.k < uint64(a.w) {
				s := uint8(a.b.k)
				return Eq(Extract(a.a, 0, a.w-s), Extract(b.a, 0, a.w-s))
			}
			if a.op == OpAdd && b.op == OpAdd && a.b == b.b {
				return Eq(a.a, b.a)
			}
		}
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return mk(OpEq, 0, 0, a, b, nil)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func Ult(a, b *Term) *Term {
	if a == b || b.hi == 0 {
		return FalseT
	}
	if a.hi < b.lo {
		return TrueT
	}
	if a.lo >= b.hi {
		return FalseT
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return Ult(a.a, b.a)
	}
	if a.op == OpZExt && b.op == OpConst {
		return Ult(a.a, Const(a.a.w, b.k)) // b.k <= a.hi here
	}
	if b.op == OpZExt && a.op == OpConst {
		return Ult(Const(b.a.w, a.k), b.a)
	}
	if b.op == OpConst && b.k == 1 {
		return Eq(a, Const(a.w, 0))
	}
	if b.op == OpConst && isConstTree(a) {
		return mapLeaves(a, func(x *Term) *Term { return Ult(x, b) })
	}
	if a.op == OpConst && isConstTree(b) {
		return mapLeaves(b, func(x *Term) *Term { return Ult(a, x) })
	}
	return mk(OpUlt, 0, 0, a, b, nil)
}

func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }

func signBit(w uint8) uint64 { return 1 << (w - 1) }

func Slt(a, b *Term) *Term {
	if a == b {
		return FalseT
	}
	if a.op == OpConst && b.op == OpConst {
		return Const(0, b2u(sx(a.k, a.w) < sx(b.k, b.w)))
	}
	sb := signBit(a.w)
	if a.kz&sb != 0 && b.kz&sb != 0 || a.ko&sb != 0 && b.ko&sb != 0 {
		return Ult(a, b)
	}
	if a.ko&sb != 0 && b.kz&sb != 0 {
		return TrueT
	}
	if a.kz&sb != 0 && b.ko&sb != 0 {
		return FalseT
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return Slt(a.a, b.a)
	}
	if b.op == OpConst && isConstTree(a) {
		return mapLeaves(a, func(x *Term) *Term { return Slt(x, b) })
	}
	if a.op == OpConst && isConstTree(b) {
		return mapLeaves(b, func(x *Term) *Term { return Slt(a, x) })
	}
	return mk(OpSlt, 0, 0, a, b, nil)
}

func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

func sx(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		a := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m
	}
	panic("evalBin")
}

func Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(engineErr("width mismatch %s %d %d", opNames[op], a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return Const(w, evalBin(op, w, a.k, b.k))
	}
	m := mask(w)
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.op == OpConst || b.op != OpConst && a.id > b.id {
			a, b = b, a
		}
	}
	if b.op == OpConst && isConstTree(a) {
		return mapLeaves(a, func(x *Term) *Term { return Const(w, evalBin(op, w, x.k, b.k)) })
	}
	if a.op == OpConst && isConstTree(b) {
		return mapLeaves(b, func(x *Term) *Term { return Const(w, evalBin(op, w, a.k, x.k)) })
	}
	switch op {
	case OpAdd:
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return Bin(OpAdd, a.a, Const(w, a.b.k+b.k))
			}
			if a.op == OpSub && a.b.op == OpConst {
				return Bin(OpAdd, a.a, Const(w, b.k-a.b.k))
			}
			// (zext x) + c where no carries: keep as is
		}
		// disjoint bits: or
		if ^a.kz&^b.kz&m == 0 {
			return Bin(OpBOr, a, b)
		}
	case OpSub:
		if a == b {
			return Const(w, 0)
		}
		if b.op == OpConst {
			return Bin(OpAdd, a, Const(w, -b.k))
		}
		if a.op == OpAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
	case OpMul:
		if b.op == OpConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return Bin(OpShl, a, Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		}
	case OpUDiv:
		if b.op == OpConst && b.k != 0 && b.k&(b.k-1) == 0 {
			return Bin(OpLShr, a, Const(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OpURem:
		if b.op == OpConst && b.k != 0 && b.k&(b.k-1) == 0 {
			return Bin(OpBAnd, a, Const(w, b.k-1))
		}
		if b.op == OpConst && a.hi < b.k {
			return a
		}
	case OpSDiv:
		if a.kz&signBit(w) != 0 && b.kz&signBit(w) != 0 {
			return Bin(OpUDiv, a, b)
		}
	case OpSRem:
		if a.kz&signBit(w) != 0 && b.kz&signBit(w) != 0 {
			return Bin(OpURem, a, b)
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return b
			}
			if ^b.k&^a.kz&m == 0 { // mask keeps all possibly-set bits
				return a
			}
			if a.op == OpBAnd && a.b.op == OpConst {
				return Bin(OpBAnd, a.a, Const(w, a.b.k&b.k))
			}
			if a.op == OpBOr {
				x := Bin(OpBAnd, a.a, b)
				y := Bin(OpBAnd, a.b, b)
				if x.op == OpConst || y.op == OpConst || x == a.a || y == a.b {
					return Bin(OpBOr, x, y)
				}
			}
			if a.op == OpZExt && b.k&^mask(a.a.w) == 0 {
				return ZExt(Bin(OpBAnd, a.a, Const(a.a.w, b.k)), w)
			}
			if a.op == OpZExt {
				return Bin(OpBAnd, a, Const(w, b.k&mask(a.a.w)))
			}
			// contiguous high part mask over shl: (x<<s) & m
			if a.op == OpShl && a.b.op == OpConst {
				s := a.b.k
				inner := Bin(OpBAnd, a.a, Const(w, b.k>>s))
				return Bin(OpShl, inner, a.b)
			}
		}
	case OpBOr:
		if a == b {
			return a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
			if a.op == OpBOr && a.b.op == OpConst {
				return Bin(OpBOr, a.a, Const(w, a.b.k|b.k))
			}
		}
		if a.hi == 0 {
			return b
		}
		if b.hi == 0 {
			return a
		}
	case OpBXor:
		if a == b {
			return Const(w, 0)
		}
		if b.op == OpConst && b.k == 0 {
			return a
		}
	case OpShl:
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return Const(w, 0)
			}
			if a.op == OpShl && a.b.op == OpConst {
				return Bin(OpShl, a.a, Const(w, min(a.b.k+b.k, uint64(w))))
			}
			if a.op == OpBOr {
				return Bin(OpBOr, Bin(OpShl, a.a, b), Bin(OpShl, a.b, b))
			}
		}
		if a.hi == 0 {
			return a
		}
	case OpLShr:
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) || a.hi>>b.k == 0 {
				return Const(w, 0)
			}
			if a.op == OpBOr {
				return Bin(OpBOr, Bin(OpLShr, a.a, b), Bin(OpLShr, a.b, b))
			}
			if a.op == OpLShr && a.b.op == OpConst {
				return Bin(OpLShr, a.a, Const(w, min(a.b.k+b.k, uint64(w))))
			}
			if a.op == OpShl && a.b.op == OpConst && a.b.k < uint64(w) && bits.Len64(a.a.hi)+int(a.b.k) <= int(w) {
				// no bits lost by the shl
				if a.b.k >= b.k {
					return Bin(OpShl, a.a, Const(w, a.b.k-b.k))
				}
				return Bin(OpLShr, a.a, Const(w, b.k-a.b.k))
			}
			if a.op == OpZExt && b.k < uint64(a.a.w) {
				return ZExt(Bin(OpLShr, a.a, Const(a.a.w, b.k)), w)
			}
		}
		if a.hi == 0 {
			return a
		}
	case OpAShr:
		if a.kz&signBit(w) != 0 {
			return Bin(OpLShr, a, b)
		}
		if b.op == OpConst && b.k == 0 {
			return a
		}
	}
	return mk(op, w, 0, a, b, nil)
}

func ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return Const(w, a.k)
	}
	if a.op == OpZExt {
		return ZExt(a.a, w)
	}
	if isConstTree(a) {
		return mapLeaves(a, func(x *Term) *Term { return Const(w, x.k) })
	}
	return mk(OpZExt, w, 0, a, nil, nil)
}

func SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return Const(w, uint64(sx(a.k, a.w)))
	}
	if a.kz&signBit(a.w) != 0 {
		return ZExt(a, w)
	}
	if isConstTree(a) {
		return mapLeaves(a, func(x *Term) *Term { return Const(w, uint64(sx(x.k, x.w))) })
	}
	return mk(OpSExt, w, 0, a, nil, nil)
}

// Extract returns bits [lo, lo+w) of a.
func Extract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.op == OpConst {
		return Const(w, a.k>>lo)
	}
	m := mask(w) << lo
	if ^a.kz&m == 0 {
		return Const(w, 0)
	}
	switch a.op {
	case OpExtract:
		return Extract(a.a, lo+uint8(a.k), w)
	case OpZExt:
		if lo+w <= a.a.w {
			return Extract(a.a, lo, w)
		}
		if lo == 0 {
			return ZExt(a.a, w) // w > a.a.w
		}
		if lo < a.a.w {
			return ZExt(Extract(a.a, lo, a.a.w-lo), w)
		}
	case OpSExt:
		if lo+w <= a.a.w {
			return Extract(a.a, lo, w)
		}
	case OpBAnd, OpBOr, OpBXor:
		return Bin(a.op, Extract(a.a, lo, w), Extract(a.b, lo, w))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return Bin(a.op, Extract(a.a, 0, w), Extract(a.b, 0, w))
		}
	case OpLShr:
		if a.b.op == OpConst && uint64(lo)+a.b.k+uint64(w) <= uint64(a.w) {
			return Extract(a.a, lo+uint8(a.b.k), w)
		}
	case OpShl:
		if a.b.op == OpConst {
			s := a.b.k
			if uint64(lo) >= s {
				return Extract(a.a, lo-uint8(s), w)
			}
			if lo == 0 && s < uint64(w) {
				return Bin(OpShl, Extract(a.a, 0, w), Const(w, s))
			}
		}
	case OpIte:
		if a.b.op == OpConst || a.c.op == OpConst || isConstTree(a) {
			return Ite(a.a, Extract(a.b, lo, w), Extract(a.c, lo, w))
		}
	}
	return mk(OpExtract, w, uint64(lo), a, nil, nil)
}

func BNot(a *Term) *Term { return Bin(OpBXor, a, Const(a.w, mask(a.w))) }
func Neg(a *Term) *Term  { return Bin(OpSub, Const(a.w, 0), a) }

// Model maps variable index to value; missing = 0.
type Model []uint64

func (m Model) get(i uint32) uint64 {
	if int(i) < len(m) {
		return m[i]
	}
	return 0
}

func (m Model) with(i uint32, v uint64) Model {
	n := len(m)
	if int(i) >= n {
		n = int(i) + 1
	}
	r := make(Model, n)
	copy(r, m)
	r[i] = v
	return r
}

func (t *Term) eval(m Model) uint64 {
	if t.size > 48 {
		return t.evalMemo(m, map[uint32]uint64{})
	}
	return t.evalMemo(m, nil)
}

func (t *Term) evalMemo(m Model, memo map[uint32]uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return m.get(uint32(t.k))
	}
	if memo != nil {
		if v, ok := memo[t.id]; ok {
			return v
		}
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = t.a.evalMemo(m, memo) ^ 1
	case OpAnd:
		r = t.a.evalMemo(m, memo)
		if r != 0 {
			r = t.b.evalMemo(m, memo)
		}
	case OpOr:
		r = t.a.evalMemo(m, memo)
		if r == 0 {
			r = t.b.evalMemo(m, memo)
		}
	case OpIte:
		if t.a.evalMemo(m, memo) != 0 {
			r = t.b.evalMemo(m, memo)
		} else {
			r = t.c.evalMemo(m, memo)
		}
	case OpEq:
		r = b2u(t.a.evalMemo(m, memo) == t.b.evalMemo(m, memo))
	case OpUlt:
		r = b2u(t.a.evalMemo(m, memo) < t.b.evalMemo(m, memo))
	case OpUle:
		r = b2u(t.a.evalMemo(m, memo) <= t.b.evalMemo(m, memo))
	case OpSlt:
		r = b2u(sx(t.a.evalMemo(m, memo), t.a.w) < sx(t.b.evalMemo(m, memo), t.a.w))
	case OpSle:
		r = b2u(sx(t.a.evalMemo(m, memo), t.a.w) <= sx(t.b.evalMemo(m, memo), t.a.w))
	case OpZExt:
		r = t.a.evalMemo(m, memo)
	case OpSExt:
		r = uint64(sx(t.a.evalMemo(m, memo), t.a.w)) & mask(t.w)
	case OpExtract:
		r = t.a.evalMemo(m, memo) >> t.k & mask(t.w)
	default:
		r = evalBin(t.op, t.w, t.a.evalMemo(m, memo), t.b.evalMemo(m, memo))
	}
	if memo != nil {
		memo[t.id] = r
	}
	return r
}

// truthTable returns, for a boolean term over exactly one variable of width <= 8,
// the set of values making it true.
func (t *Term) truthTable() *[4]uint64 {
	if p := t.tt.Load(); p != nil {
		return p
	}
	v := t.vars[0]
	varMu.RLock()
	w := varTab[v].w
	varMu.RUnlock()
	m := make(Model, v+1)
	var r [4]uint64
	for i := uint64(0); i <= mask(w); i++ {
		m[v] = i
		if t.eval(m) != 0 {
			r[i/64] |= 1 << (i % 64)
		}
	}
	t.tt.Store(&r)
	return &r
}

func varWidth(i uint32) uint8 {
	varMu.RLock()
	defer varMu.RUnlock()
	return varTab[i].w
}

func varName(i uint32) string {
	varMu.RLock()
	defer varMu.RUnlock()
	return varTab[i].name
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.k != 0)
		} else {
			fmt.Fprintf(sb, "%#x", t.k)
		}
		return
	case OpVar:
		sb.WriteString(varName(uint32(t.k)))
		return
	}
	if d == 0 {
		sb.WriteString("...")
		return
	}
	fmt.Fprintf(sb, "(%s", opNames[t.op])
	if t.op == OpExtract {
		fmt.Fprintf(sb, "[%d+%d]", t.k, t.w)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, d-1)
		}
	}
	sb.WriteByte(')')
}

func sortedUnique(x []uint32) []uint32 {
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	w := 0
	for i, v := range x {
		if i == 0 || x[w-1] != v {
			x[w] = v
			w++
		}
	}
	return x[:w]
}

type engineError struct{ msg string }

func (e *engineError) Error() string { return e.msg }
func engineErr(f string, a ...any) *engineError {
	return &engineError{fmt.Sprintf(f, a...)}
}
