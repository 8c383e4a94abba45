package main

// Values, type layouts and the copy-on-write heap.

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// A Value is one cell: a scalar (n, or a *Term in x when symbolic), a pointer
// (n = obj<<32|offset, or *SymPtr), or a reference to one of the types below.
// The zero Value is the zero value of every cell type.
type Value struct {
	n uint64
	x any
}

func (v Value) sym() *Term {
	if t, ok := v.x.(*Term); ok {
		return t
	}
	return nil
}

func mkv(n uint64) Value { return Value{n: n} }

// tv makes a Value from a term.
func tv(t *Term) Value {
	if t.op == OpConst {
		return Value{n: t.k}
	}
	return Value{x: t}
}

func (v Value) term(w uint8) *Term {
	if v.x != nil {
		t, ok := v.x.(*Term)
		if !ok {
			panic(engineErr("term of non-scalar %T", v.x))
		}
		return t
	}
	return Const(w, v.n)
}

func bv(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

type SymPtr struct {
	obj    uint32
	off    int
	idx    *Term // 64-bit, in [0,count)
	stride int
	count  int
}

type Slice struct {
	obj           uint32
	off, len, cap int // off in cells, len and cap in elements
	es            int // cells per element
}

// Str is a string, possibly with symbolic bytes.
type Str struct {
	s string
	t []*Term // nil, or one entry per byte; nil entry = concrete
}

type Iface struct {
	rt *RType
	v  Value
}

type Closure struct {
	fn    *Fn
	binds []Value
	intr  intrinsic // for bound intrinsics
}

type Agg struct{ c []Value }

func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{x: &Str{s: s}}
}

var emptyStr = &Str{}

func (v Value) str() *Str {
	if v.x == nil {
		return emptyStr
	}
	return v.x.(*Str)
}

func (v Value) slice() *Slice {
	if v.x == nil {
		return nil
	}
	return v.x.(*Slice)
}

func (s *Str) at(i int) Value {
	if s.t != nil && s.t[i] != nil {
		return Value{x: s.t[i]}
	}
	return Value{n: uint64(s.s[i])}
}

func (s *Str) sub(i, j int) *Str {
	r := &Str{s: s.s[i:j]}
	if s.t != nil {
		for _, t := range s.t[i:j] {
			if t != nil {
				r.t = s.t[i:j]
				break
			}
		}
	}
	return r
}

func (s *Str) concrete() bool { return s.t == nil }

func concatStr(a, b *Str) *Str {
	r := &Str{s: a.s + b.s}
	if a.t != nil || b.t != nil {
		r.t = make([]*Term, len(r.s))
		copy(r.t, a.t)
		if b.t != nil {
			copy(r.t[len(a.s):], b.t)
		}
	}
	return r
}

func strFromValues(vs []Value) *Str {
	b := make([]byte, len(vs))
	var t []*Term
	for i, v := range vs {
		if s := v.sym(); s != nil {
			if t == nil {
				t = make([]*Term, len(vs))
			}
			t[i] = s
		} else {
			b[i] = byte(v.n)
		}
	}
	return &Str{s: string(b), t: t}
}

func strVal(s *Str) Value {
	if len(s.s) == 0 {
		return Value{}
	}
	return Value{x: s}
}

// ---- type layouts

type Kind uint8

const (
	kBool Kind = iota
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kMap
	kFunc
	kIface
	kChan
	kStruct
	kArray
	kTuple
)

type Layout struct {
	t      types.Type
	kind   Kind
	w      uint8
	signed bool
	n      int // cells
	offs   []int
	fields []*Layout
	elem   *Layout
	alen   int
	byt    bool // element type is a byte (for arrays): object may use byte storage
	size   int64
	hasPtr bool
}

var layMu sync.Mutex
var layTab = map[types.Type]*Layout{}
var sizes = types.SizesFor("gc", "amd64")

func layoutOf(t types.Type) *Layout {
	layMu.Lock()
	defer layMu.Unlock()
	return layoutOf1(t)
}

func layoutOf1(t types.Type) *Layout {
	if l := layTab[t]; l != nil {
		return l
	}
	l := &Layout{t: t, n: 1}
	layTab[t] = l
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			l.kind = kBool
			l.size = 1
		case u.Info()&types.IsInteger != 0:
			l.kind = kInt
			l.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				l.w = 8
			case types.Int16, types.Uint16:
				l.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				l.w = 32
			default:
				l.w = 64
			}
			l.size = int64(l.w / 8)
		case u.Info()&types.IsFloat != 0:
			l.kind = kFloat
			l.w = 64
			if u.Kind() == types.Float32 {
				l.w = 32
			}
			l.size = int64(l.w / 8)
		case u.Info()&types.IsComplex != 0:
			l.kind = kComplex
			l.size = 16
		case u.Info()&types.IsString != 0:
			l.kind = kString
			l.size = 16
			l.hasPtr = true
		default: // unsafe.Pointer, untyped nil, invalid
			l.kind = kPtr
			l.size = 8
			l.hasPtr = true
		}
	case *types.Pointer:
		l.kind = kPtr
		l.size, l.hasPtr = 8, true
	case *types.Slice:
		l.kind = kSlice
		l.size, l.hasPtr = 24, true
		l.elem = layoutOf1(u.Elem())
	case *types.Map:
		l.kind = kMap
		l.size, l.hasPtr = 8, true
	case *types.Signature:
		l.kind = kFunc
		l.size, l.hasPtr = 8, true
	case *types.Interface:
		l.kind = kIface
		l.size, l.hasPtr = 16, true
	case *types.Chan:
		l.kind = kChan
		l.size, l.hasPtr = 8, true
	case *types.Struct:
		l.kind = kStruct
		l.n = 0
		for i := 0; i < u.NumFields(); i++ {
			f := layoutOf1(u.Field(i).Type())
			l.offs = append(l.offs, l.n)
			l.fields = append(l.fields, f)
			l.n += f.n
			l.hasPtr = l.hasPtr || f.hasPtr
		}
		l.size = sizes.Sizeof(t)
	case *types.Array:
		l.kind = kArray
		l.elem = layoutOf1(u.Elem())
		l.alen = int(u.Len())
		l.n = l.alen * l.elem.n
		l.byt = l.elem.kind == kInt && l.elem.w == 8
		l.hasPtr = l.elem.hasPtr
		l.size = l.elem.size * u.Len()
	case *types.Tuple:
		l.kind = kTuple
		for i := 0; i < u.Len(); i++ {
			l.fields = append(l.fields, layoutOf1(u.At(i).Type()))
		}
	default:
		panic(engineErr("layout of %T %v", u, t))
	}
	return l
}

func (l *Layout) isByte() bool { return l.kind == kInt && l.w == 8 }

// RType is a canonical dynamic type.
type RType struct {
	id  int
	t   types.Type
	lay *Layout
	mu  sync.Mutex
	ms  map[string]*Fn
}

var rtMu sync.Mutex
var rtMap typeutil.Map
var rtByPtr = map[types.Type]*RType{}
var rtCount int

func rtypeOf(t types.Type) *RType {
	rtMu.Lock()
	defer rtMu.Unlock()
	if r := rtByPtr[t]; r != nil {
		return r
	}
	if r, ok := rtMap.At(t).(*RType); ok {
		rtByPtr[t] = r
		return r
	}
	rtCount++
	r := &RType{id: rtCount, t: t, lay: layoutOf(t), ms: map[string]*Fn{}}
	rtMap.Set(t, r)
	rtByPtr[t] = r
	return r
}

// ---- heap

const (
	bytePageShift = 10
	cellPageShift = 7
)

type page struct {
	owner uint64
	b     []byte
	s     []*Term
	v     []Value
}

type mid struct {
	owner uint64
	p     [64]*page
}

type logEntry struct {
	idx *Term // 64-bit element index relative to base
	off int   // cell offset of element 0 (+field offset)
	str int   // stride
	cnt int
	val Value
}

type mapEntry struct {
	k, v Value
	dead bool
}

type mapObj struct {
	ents  []mapEntry
	index map[string]int // concrete keys
	nsym  int            // live entries with symbolic keys
	live  int
}

type Obj struct {
	owner   uint64
	n       int
	bytes   bool
	pages   []*page
	top     []*mid
	log     []logEntry
	m       *mapObj
	lay     *Layout
	thread  uint8 // C25: creating thread
	local   bool  // a variable that does not escape
	acc     *accRec
	written bool
}

type accRec struct{}

const topThreshold = 256

func (o *Obj) shift() uint {
	if o.bytes {
		return bytePageShift
	}
	return cellPageShift
}

func newObj(owner uint64, n int, bytes bool) *Obj {
	o := &Obj{owner: owner, n: n, bytes: bytes}
	np := (n + 1<<o.shift() - 1) >> o.shift()
	if np > topThreshold {
		o.top = make([]*mid, (np+63)/64)
	} else {
		o.pages = make([]*page, np)
	}
	return o
}

func (o *Obj) page(p int) *page {
	if o.top != nil {
		m := o.top[p>>6]
		if m == nil {
			return nil
		}
		return m.p[p&63]
	}
	return o.pages[p]
}

// raw reads the cell ignoring the log.
func (o *Obj) raw(i int) Value {
	sh := o.shift()
	p := o.page(i >> sh)
	if p == nil {
		return Value{}
	}
	k := i & (1<<sh - 1)
	if o.bytes {
		if p.s != nil && p.s[k] != nil {
			return Value{x: p.s[k]}
		}
		return Value{n: uint64(p.b[k])}
	}
	return p.v[k]
}

// own returns a writable page; o must be owned.
func (o *Obj) own(p int) *page {
	var pp **page
	if o.top != nil {
		m := o.top[p>>6]
		if m == nil {
			m = &mid{owner: o.owner}
			o.top[p>>6] = m
		} else if m.owner != o.owner {
			m2 := *m
			m2.owner = o.owner
			m = &m2
			o.top[p>>6] = m
		}
		pp = &m.p[p&63]
	} else {
		pp = &o.pages[p]
	}
	pg := *pp
	if pg != nil && pg.owner == o.owner {
		return pg
	}
	sz := 1 << o.shift()
	if rem := o.n - p*sz; rem < sz {
		sz = rem
	}
	np := &page{owner: o.owner}
	if o.bytes {
		np.b = make([]byte, sz)
		if pg != nil {
			copy(np.b, pg.b)
			if pg.s != nil {
				np.s = append([]*Term(nil), pg.s...)
			}
		}
	} else {
		np.v = make([]Value, sz)
		if pg != nil {
			copy(np.v, pg.v)
		}
	}
	*pp = np
	return np
}

func (o *Obj) setRaw(i int, v Value) {
	sh := o.shift()
	p := o.own(i >> sh)
	k := i & (1<<sh - 1)
	if o.bytes {
		if t, ok := v.x.(*Term); ok {
			if p.s == nil {
				p.s = make([]*Term, len(p.b))
			}
			p.s[k] = t
			return
		}
		if p.s != nil {
			p.s[k] = nil
		}
		p.b[k] = byte(v.n)
		return
	}
	p.v[k] = v
}

func (o *Obj) clone(owner uint64) *Obj {
	c := *o
	c.owner = owner
	if o.top != nil {
		c.top = append([]*mid(nil), o.top...)
	} else {
		c.pages = append([]*page(nil), o.pages...)
	}
	c.log = o.log[:len(o.log):len(o.log)]
	if o.m != nil {
		m := &mapObj{ents: append([]mapEntry(nil), o.m.ents...), nsym: o.m.nsym, live: o.m.live}
		m.index = make(map[string]int, len(o.m.index))
		for k, v := range o.m.index {
			m.index[k] = v
		}
		c.m = m
	}
	return &c
}

const hchunkSize = 128

type hchunk struct {
	owner uint64
	o     [hchunkSize]*Obj
}

type Heap struct {
	owner  uint64
	chunks []*hchunk
	next   uint32 // next object id
}

func (h *Heap) get(id uint32) *Obj {
	if id == 0 || id >= h.next {
		return nil
	}
	return h.chunks[id/hchunkSize].o[id%hchunkSize]
}

func (h *Heap) slot(id uint32) **Obj {
	c := h.chunks[id/hchunkSize]
	if c.owner != h.owner {
		c2 := *c
		c2.owner = h.owner
		c = &c2
		h.chunks[id/hchunkSize] = c
	}
	return &c.o[id%hchunkSize]
}

func (h *Heap) put(o *Obj) uint32 {
	if h.next == 0 {
		h.next = 1
	}
	id := h.next
	h.next++
	if int(id/hchunkSize) >= len(h.chunks) {
		h.chunks = append(h.chunks, &hchunk{owner: h.owner})
	}
	*h.slot(id) = o
	return id
}

// free drops a dead object.
func (h *Heap) free(id uint32) {
	*h.slot(id) = nil
	if id == h.next-1 {
		h.next--
	}
}

func (h *Heap) own(id uint32) *Obj {
	o := h.get(id)
	if o == nil {
		panic(engineErr("write to dead object %d", id))
	}
	if o.owner == h.owner {
		return o
	}
	c := o.clone(h.owner)
	*h.slot(id) = c
	return c
}

func mkptr(obj uint32, off int) Value { return Value{n: uint64(obj)<<32 | uint64(uint32(off))} }
func ptrObj(v Value) uint32           { return uint32(v.n >> 32) }
func ptrOff(v Value) int              { return int(uint32(v.n)) }

func (v Value) String() string {
	switch x := v.x.(type) {
	case nil:
		return fmt.Sprintf("%#x", v.n)
	case *Str:
		if x.t == nil {
			return fmt.Sprintf("%q", x.s)
		}
		return fmt.Sprintf("symstr(%d)", len(x.s))
	case *Term:
		return x.String()
	case *Iface:
		return fmt.Sprintf("%v(%v)", x.rt.t, x.v)
	case *Slice:
		return fmt.Sprintf("slice{%d+%d len %d cap %d}", x.obj, x.off, x.len, x.cap)
	case *Agg:
		return fmt.Sprintf("agg%v", x.c)
	case *Closure:
		if x.fn != nil {
			return x.fn.name
		}
	}
	return fmt.Sprintf("%T", v.x)
}
