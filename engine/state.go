package main

// Execution states, forking and path conditions.

import (
	"fmt"
	"strings"
	"sync/atomic"
)

type frameKind uint8

const (
	fkNormal   frameKind = iota
	fkDefer              // run by RunDefers
	fkDeferPan           // run while unwinding
	fkPrelude            // return resumes the frame below without touching it
	fkMain               // program main started by vsym.RunMain
	fkTry                // function run by vsym.Try
)

type deferred struct {
	ci     *callInfo
	in     *instr
	callee Value
	args   []Value
}

type Frame struct {
	fn         *Fn
	regs       []Value
	blk        *Block
	pc         int
	dst        int32
	kind       frameKind
	unwinding  bool
	recovering bool
	defers     []deferred
	locals     []uint32
}

type panicRec struct {
	v         Value
	recovered bool
	pos       string
}

type knownLayer struct {
	parent *knownLayer
	m      map[uint32]bool
	depth  int
}

type inputRec struct {
	name string
	t    *Term // nil for concrete choice
	n    uint64
}

var ownerCounter atomic.Uint64

type State struct {
	w          *Worker
	run        *HarnessRun
	h          Heap
	frames     []*Frame
	pc         []*Term
	known      *knownLayer
	dom        map[uint32][4]uint64
	multi      map[uint32]bool
	model      Model
	names      map[string]int
	inputs     []inputRec
	panics     []panicRec
	steps      int64
	forks      int
	merge      int // >0: inside a merged region, no forking allowed
	nomerg     bool
	thread     uint8
	trace      []string
	access     []accessRec
	sharedObjs map[uint32]bool // created by one thread and used by another
	inAtomic   bool
	logs       []string
	obs        []*Str
	lockset    []lockRec
	cont       *Frame // frame whose call frame is being set up (unused)
}

type mergeAbort struct{}
type pathEnd struct{ why string }
type targetPanic struct{ v Value }
type exitPanic struct{ code Value }

func newOwner() uint64 { return ownerCounter.Add(1) }

func (st *State) clone() *State {
	statForks.Add(1)
	c := *st
	// both sides get fresh owners: everything shared becomes immutable
	st.h.owner = newOwner()
	c.h.owner = newOwner()
	c.h.chunks = append([]*hchunk(nil), st.h.chunks...)
	c.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		g.defers = append([]deferred(nil), f.defers...)
		g.locals = append([]uint32(nil), f.locals...)
		c.frames[i] = &g
	}
	c.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = c.pc
	if st.known != nil && len(st.known.m) > 0 {
		base := st.known
		if base.depth > 24 {
			m := map[uint32]bool{}
			for l := base; l != nil; l = l.parent {
				for k, v := range l.m {
					m[k] = v
				}
			}
			base = &knownLayer{m: m}
		}
		st.known = &knownLayer{parent: base, depth: base.depth + 1}
		c.known = &knownLayer{parent: base, depth: base.depth + 1}
	} else if st.known != nil {
		k := *st.known
		k.m = nil
		c.known = &k
	}
	c.dom = make(map[uint32][4]uint64, len(st.dom))
	for k, v := range st.dom {
		c.dom[k] = v
	}
	c.multi = make(map[uint32]bool, len(st.multi))
	for k := range st.multi {
		c.multi[k] = true
	}
	c.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		c.names[k] = v
	}
	c.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	st.inputs = c.inputs
	c.panics = append([]panicRec(nil), st.panics...)
	c.trace = st.trace[:len(st.trace):len(st.trace)]
	st.trace = c.trace
	c.access = st.access[:len(st.access):len(st.access)]
	st.access = c.access
	c.lockset = st.lockset[:len(st.lockset):len(st.lockset)]
	st.lockset = c.lockset
	c.logs = st.logs[:len(st.logs):len(st.logs)]
	st.logs = c.logs
	c.obs = st.obs[:len(st.obs):len(st.obs)]
	st.obs = c.obs
	c.forks++
	return &c
}

func (st *State) lookupKnown(id uint32) (v, ok bool) {
	for l := st.known; l != nil; l = l.parent {
		if v, ok := l.m[id]; ok {
			return v, true
		}
	}
	return false, false
}

func (st *State) setKnown(c *Term, v bool) {
	if st.known == nil {
		st.known = &knownLayer{}
	}
	if st.known.m == nil {
		st.known.m = map[uint32]bool{}
	}
	st.known.m[c.id] = v
}

func fullDom(w uint8) [4]uint64 {
	var d [4]uint64
	for i := uint64(0); i <= mask(w); i++ {
		d[i/64] |= 1 << (i % 64)
	}
	return d
}

func (st *State) domOf(v uint32) [4]uint64 {
	if d, ok := st.dom[v]; ok {
		return d
	}
	return fullDom(varWidth(v))
}

func singleByte(c *Term) (uint32, bool) {
	if len(c.vars) == 1 && varWidth(c.vars[0]) <= 8 {
		return c.vars[0], true
	}
	return 0, false
}

func (st *State) addConstraint(c *Term) {
	if c.op == OpConst {
		if c.k == 0 {
			panic(engineErr("adding false constraint"))
		}
		return
	}
	if c.op == OpAnd {
		st.setKnown(c, true)
		st.addConstraint(c.a)
		st.addConstraint(c.b)
		return
	}
	if c.op == OpNot && c.a.op == OpOr {
		st.setKnown(c, true)
		st.setKnown(c.a, false)
		st.addConstraint(Not(c.a.a))
		st.addConstraint(Not(c.a.b))
		return
	}
	if v, ok := singleByte(c); ok {
		d := st.domOf(v)
		tt := c.truthTable()
		var e [4]uint64
		for i := range d {
			e[i] = d[i] & tt[i]
		}
		if e == d {
			return
		}
		st.dom[v] = e
		st.pc = append(st.pc, c)
		return
	}
	if v, ok := st.lookupKnown(c.id); ok && v {
		return
	}
	st.pc = append(st.pc, c)
	for _, v := range c.vars {
		st.multi[v] = true
	}
	st.setKnown(c, true)
	if c.op == OpNot {
		st.setKnown(c.a, false)
	}
}

// implied reports whether c is decided by what is already known, without the solver.
func (st *State) implied(c *Term) (v, ok bool) {
	if c.op == OpConst {
		return c.k != 0, true
	}
	if x, ok := singleByte(c); ok {
		d := st.domOf(x)
		tt := c.truthTable()
		anyT, anyF := false, false
		for i := range d {
			if d[i]&tt[i] != 0 {
				anyT = true
			}
			if d[i]&^tt[i] != 0 {
				anyF = true
			}
		}
		if !anyT {
			return false, true
		}
		if !anyF {
			return true, true
		}
	}
	if v, ok := st.lookupKnown(c.id); ok {
		return v, true
	}
	if c.op == OpNot {
		if v, ok := st.lookupKnown(c.a.id); ok {
			return !v, true
		}
	}
	return false, false
}

// sat decides whether pc ∧ c is satisfiable and returns a model.
func (st *State) sat(c *Term) (satResult, Model) {
	if v, ok := st.implied(c); ok {
		if !v {
			return resUnsat, nil
		}
		return resSat, st.model
	}
	if c.eval(st.model) != 0 {
		statEvalHits.Add(1)
		return resSat, st.model
	}
	if x, ok := singleByte(c); ok {
		d := st.domOf(x)
		tt := c.truthTable()
		isMulti := st.multi[x]
		tries := 0
		for i := uint64(0); i < 256; i++ {
			if d[i/64]&tt[i/64]>>(i%64)&1 == 0 {
				continue
			}
			m := st.model.with(x, i)
			if !isMulti {
				if flagCross {
					st.crossCheck(c, true)
				}
				statFast.Add(1)
				return resSat, m
			}
			ok := true
			for _, k := range st.pc {
				if len(k.vars) > 1 && hasVar(k.vars, x) && k.eval(m) == 0 {
					ok = false
					break
				}
			}
			if ok {
				statFast.Add(1)
				return resSat, m
			}
			if tries++; tries >= 8 {
				break
			}
		}
	}
	return st.w.feasible(st.pc, st.model, c)
}

func (st *State) crossCheck(c *Term, want bool) {
	r, _ := st.w.feasible(st.pc, st.model, c)
	if r != resUnknown && (r == resSat) != want {
		panic(engineErr("byte-domain reasoning disagrees with solver on %v", c))
	}
}

func hasVar(vars []uint32, v uint32) bool {
	for _, x := range vars {
		if x == v {
			return true
		}
	}
	return false
}

// decide returns the value of c on this path, forking if both are possible.
// The forked state re-executes the current instruction.
func (st *State) decide(c *Term) bool {
	if c.op == OpConst {
		return c.k != 0
	}
	if v, ok := st.implied(c); ok {
		return v
	}
	if st.merge > 0 {
		panic(mergeAbort{})
	}
	v := c.eval(st.model) != 0
	other := c
	if v {
		other = Not(c)
	}
	res, m := st.sat(other)
	switch res {
	case resUnsat:
		st.setKnown(c, v)
		return v
	case resUnknown:
		st.run.incomplete("solver gave no answer at " + st.where())
		st.setKnown(c, v)
		st.addConstraint(cond(v, c))
		return v
	}
	cl := st.clone()
	cl.model = m
	cl.addConstraint(other)
	st.run.push(cl)
	st.addConstraint(cond(v, c))
	return v
}

func cond(v bool, c *Term) *Term {
	if v {
		return c
	}
	return Not(c)
}

func (st *State) decideV(v Value) bool {
	if v.x == nil {
		return v.n != 0
	}
	return st.decide(v.x.(*Term))
}

// assume restricts the path; it ends the path if c is infeasible.
func (st *State) assume(c *Term) {
	if v, ok := st.implied(c); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	res, m := st.sat(c)
	switch res {
	case resUnsat:
		panic(pathEnd{"assume"})
	case resUnknown:
		st.run.incomplete("solver gave no answer at assume " + st.where())
		panic(pathEnd{"unknown"})
	}
	st.model = m
	st.addConstraint(c)
}

// concretize forks over the values of v (width w) and returns a concrete one.
func (st *State) concretize(v Value, w uint8) uint64 {
	t := v.sym()
	if t == nil {
		return v.n
	}
	for n := 0; ; n++ {
		if t.lo == t.hi {
			return t.lo
		}
		k := t.eval(st.model)
		if st.decide(Eq(t, Const(w, k))) {
			return k
		}
		if n > 100000 {
			panic(engineErr("concretize: too many values"))
		}
	}
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) where() string {
	if len(st.frames) == 0 {
		return "?"
	}
	f := st.top()
	if f.blk == nil || f.pc >= len(f.blk.ins) {
		return f.fn.name
	}
	return posOf(f.blk.ins[f.pc].ssa)
}

func (st *State) stack() string {
	var sb strings.Builder
	for i := len(st.frames) - 1; i >= 0 && i >= len(st.frames)-14; i-- {
		f := st.frames[i]
		p := ""
		if f.blk != nil && f.pc < len(f.blk.ins) {
			p = posOf(f.blk.ins[f.pc].ssa)
		}
		fmt.Fprintf(&sb, "  %s (%s)\n", f.fn.name, p)
	}
	return sb.String()
}

// ---- heap access

func (st *State) alloc(n int, bytes bool) uint32 {
	o := newObj(st.h.owner, n, bytes)
	o.thread = st.thread
	return st.h.put(o)
}

func (st *State) nilDeref() {
	st.rtPanic("invalid memory address or nil pointer dereference")
}

func (st *State) rtPanic(msg string) {
	if st.merge > 0 {
		panic(mergeAbort{})
	}
	panic(targetPanic{Value{x: &Iface{rt: rtErrorType(), v: strV(msg)}}})
}

func (st *State) cell(o *Obj, i int) Value {
	if i < 0 || i >= o.n {
		panic(engineErr("cell %d out of range %d", i, o.n))
	}
	if len(o.log) > 0 {
		return st.cellLog(o, i)
	}
	return o.raw(i)
}

func (e *logEntry) covers(i int) (int, bool) {
	d := i - e.off
	if d < 0 || d%e.str != 0 || d/e.str >= e.cnt {
		return 0, false
	}
	return d / e.str, true
}

func isScalarV(v Value) bool {
	if v.x == nil {
		return true
	}
	_, ok := v.x.(*Term)
	return ok
}

func (st *State) cellLog(o *Obj, i int) Value {
	type pend struct {
		c *Term
		v Value
	}
	var ps []pend
	var base Value
	done := false
	for k := len(o.log) - 1; k >= 0; k-- {
		e := &o.log[k]
		j, ok := e.covers(i)
		if !ok {
			continue
		}
		c := Eq(e.idx, Const(64, uint64(j)))
		if v, ok := st.implied(c); ok {
			if v {
				base, done = e.val, true
				break
			}
			continue
		}
		ps = append(ps, pend{c, e.val})
	}
	if !done {
		base = o.raw(i)
	}
	if len(ps) == 0 {
		return base
	}
	var w uint8
	if o.bytes {
		w = 8
	} else {
		w = wOf(base)
		for _, p := range ps {
			if w == 0 {
				w = wOf(p.v)
			}
		}
	}
	same := true
	for _, p := range ps {
		if !sameValue(p.v, base) {
			same = false
		}
	}
	if same {
		return base
	}
	if w != 0 {
		r := base.term(w)
		for k := len(ps) - 1; k >= 0; k-- {
			r = Ite(ps[k].c, ps[k].v.term(w), r)
		}
		return tv(r)
	}
	for _, p := range ps {
		if st.decide(p.c) {
			return p.v
		}
	}
	return base
}

// wOf returns the width of a symbolic scalar, 0 if unknown.
func wOf(v Value) uint8 {
	if t := v.sym(); t != nil {
		return t.w
	}
	return 0
}

func sameValue(a, b Value) bool {
	if a.x == nil && b.x == nil {
		return a.n == b.n
	}
	switch x := a.x.(type) {
	case *Term:
		y, ok := b.x.(*Term)
		return ok && x == y
	case *Str:
		y, ok := b.x.(*Str)
		return ok && (x == y || x.s == y.s && x.t == nil && y.t == nil)
	case *Slice:
		y, ok := b.x.(*Slice)
		return ok && *x == *y
	case *Closure:
		y, ok := b.x.(*Closure)
		return ok && x == y
	case *Iface:
		y, ok := b.x.(*Iface)
		return ok && (x == y || x.rt == y.rt && sameValue(x.v, y.v))
	case *SymPtr:
		y, ok := b.x.(*SymPtr)
		return ok && *x == *y
	}
	return false
}

func (st *State) load(p Value, l *Layout) Value {
	if l.n == 0 {
		if p.x == nil && p.n == 0 {
			st.nilDeref()
		}
		return Value{}
	}
	if p.x != nil {
		return st.symLoad(p, l)
	}
	if p.n == 0 {
		st.nilDeref()
	}
	id := ptrObj(p)
	o := st.h.get(id)
	if o == nil {
		panic(engineErr("load from dead object"))
	}
	if st.thread != 0 {
		st.noteAccess(id, o, ptrOff(p), l.n, false)
	}
	if id < firstHeapObj && !globalReady[id] {
		st.uninitGlobal(id)
	}
	off := ptrOff(p)
	if l.n == 1 {
		return st.cell(o, off)
	}
	if off+l.n > o.n {
		panic(engineErr("load of %v out of object", l.t))
	}
	c := make([]Value, l.n)
	for i := range c {
		c[i] = st.cell(o, off+i)
	}
	return Value{x: &Agg{c}}
}

func (st *State) store(p Value, v Value, l *Layout) {
	if l.n == 0 {
		return
	}
	if p.x != nil {
		st.symStore(p, v, l)
		return
	}
	if p.n == 0 {
		st.nilDeref()
	}
	id := ptrObj(p)
	off := ptrOff(p)
	o := st.h.own(id)
	o.written = true
	if st.thread != 0 {
		st.noteAccess(id, o, off, l.n, true)
	}
	if off+l.n > o.n {
		panic(engineErr("store of %v out of object", l.t))
	}
	if l.n == 1 {
		st.setCell(o, off, v)
		return
	}
	a, _ := v.x.(*Agg)
	for i := 0; i < l.n; i++ {
		var c Value
		if a != nil {
			c = a.c[i]
		}
		st.setCell(o, off+i, c)
	}
}

func (st *State) setCell(o *Obj, i int, v Value) {
	if len(o.log) > 0 {
		// keep order with respect to symbolic writes
		for k := range o.log {
			if _, ok := o.log[k].covers(i); ok {
				o.log = append(o.log[:len(o.log):len(o.log)], logEntry{idx: Const(64, 0), off: i, str: 1, cnt: 1, val: v})
				return
			}
		}
	}
	o.setRaw(i, v)
}

// candidates lists the feasible element indices of a symbolic pointer (syntactically).
func (st *State) candidates(sp *SymPtr) []int {
	t := sp.idx
	lo, hi := t.lo, t.hi
	if hi >= uint64(sp.count) {
		hi = uint64(sp.count) - 1
	}
	if len(t.vars) == 1 && varWidth(t.vars[0]) <= 8 {
		d := st.domOf(t.vars[0])
		seen := map[uint64]bool{}
		var r []int
		m := make(Model, t.vars[0]+1)
		for i := uint64(0); i < 256; i++ {
			if d[i/64]>>(i%64)&1 == 0 {
				continue
			}
			m[t.vars[0]] = i
			k := t.eval(m)
			if k < uint64(sp.count) && !seen[k] {
				seen[k] = true
				r = append(r, int(k))
			}
		}
		return r
	}
	if len(t.vars) >= 2 && len(t.vars) <= 4 && hi-lo > 64 {
		// enumerate the product of small domains
		total := 1
		var doms [][]uint64
		for _, v := range t.vars {
			if varWidth(v) > 8 {
				total = 1 << 30
				break
			}
			d := st.domOf(v)
			var l []uint64
			for i := uint64(0); i < 256; i++ {
				if d[i/64]>>(i%64)&1 != 0 {
					l = append(l, i)
				}
			}
			doms = append(doms, l)
			if total *= len(l); total > 4096 {
				break
			}
		}
		if total <= 4096 {
			m := make(Model, t.vars[len(t.vars)-1]+1)
			seen := map[uint64]bool{}
			var r []int
			var rec func(i int)
			rec = func(i int) {
				if i == len(doms) {
					k := t.eval(m)
					if k < uint64(sp.count) && !seen[k] {
						seen[k] = true
						r = append(r, int(k))
					}
					return
				}
				for _, x := range doms[i] {
					m[t.vars[i]] = x
					rec(i + 1)
				}
			}
			rec(0)
			sortInts(r)
			return r
		}
	}
	if hi-lo > 4 {
		if vs := st.valueSet(t); vs != nil {
			r := make([]int, 0, len(vs))
			for _, k := range vs {
				if k < uint64(sp.count) {
					r = append(r, int(k))
				}
			}
			if len(r) > 0 {
				return r
			}
		}
	}
	if hi-lo > 1<<16 {
		return nil
	}
	var r []int
	for k := lo; k <= hi; k++ {
		if k&t.kz != 0 || ^k&t.ko != 0 {
			continue
		}
		r = append(r, int(k))
	}
	return r
}

func sortInts(r []int) {
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j-1] > r[j]; j-- {
			r[j-1], r[j] = r[j], r[j-1]
		}
	}
}

func (st *State) symLoad(p Value, l *Layout) Value {
	sp, ok := p.x.(*SymPtr)
	if !ok {
		panic(engineErr("load through %T", p.x))
	}
	o := st.h.get(sp.obj)
	if st.thread != 0 {
		st.noteAccess(sp.obj, o, sp.off, sp.stride*(sp.count-1)+l.n, false)
	}
	if l.n != 1 {
		k := st.concretize(Value{x: sp.idx}, 64)
		return st.load(mkptr(sp.obj, sp.off+int(k)*sp.stride), l)
	}
	cand := st.candidates(sp)
	type ent struct {
		k int
		v Value
	}
	var ents []ent
	var def Value
	hasDef := false
	if cand == nil {
		// huge range: only materialised non-zero cells matter
		if len(o.log) == 0 || true {
			st.eachNonzero(o, func(i int, v Value) {
				d := i - sp.off
				if d < 0 || d%sp.stride != 0 {
					return
				}
				k := d / sp.stride
				if k >= sp.count || uint64(k) < sp.idx.lo || uint64(k) > sp.idx.hi || uint64(k)&sp.idx.kz != 0 || ^uint64(k)&sp.idx.ko != 0 {
					return
				}
				ents = append(ents, ent{k, v})
			})
			hasDef = true
		}
	} else {
		for _, k := range cand {
			ents = append(ents, ent{k, o.raw(sp.off + k*sp.stride)})
		}
	}
	// group by value
	type group struct {
		v  Value
		ks []int
	}
	var gs []*group
	byN := map[uint64]*group{}
	for _, e := range ents {
		if e.v.x == nil {
			g := byN[e.v.n]
			if g == nil {
				g = &group{v: e.v}
				byN[e.v.n] = g
				gs = append(gs, g)
			}
			g.ks = append(g.ks, e.k)
			continue
		}
		found := false
		for _, g := range gs {
			if g.v.x != nil && sameValue(g.v, e.v) {
				g.ks = append(g.ks, e.k)
				found = true
				break
			}
		}
		if !found {
			gs = append(gs, &group{v: e.v, ks: []int{e.k}})
		}
	}
	if hasDef {
		if g := byN[0]; g != nil {
			// zero group merges with default
			var r []*group
			for _, h := range gs {
				if h != g {
					r = append(r, h)
				}
			}
			gs = r
		}
	}
	scalar := l.kind == kInt || l.kind == kBool
	condOf := func(g *group) *Term { return inSet(sp.idx, g.ks, cand) }
	// entries from the write log, newest first
	type pend struct {
		c *Term
		v Value
	}
	var ps []pend
	for k := len(o.log) - 1; k >= 0; k-- {
		e := &o.log[k]
		// address equality: e.off + e.idx*e.str == sp.off + sp.idx*sp.stride
		var c *Term
		if e.str == sp.stride && (e.off-sp.off)%sp.stride == 0 && e.str > 0 && e.cnt > 1 {
			c = Eq(Bin(OpAdd, e.idx, Const(64, uint64(int64((e.off-sp.off)/sp.stride)))), sp.idx)
		} else if e.idx.op == OpConst {
			a := e.off + int(e.idx.k)*e.str - sp.off
			if a < 0 || a%sp.stride != 0 {
				continue
			}
			c = Eq(sp.idx, Const(64, uint64(a/sp.stride)))
		} else if e.str == sp.stride {
			continue // different field of the same record
		} else {
			panic(engineErr("mixed strides in symbolic access"))
		}
		if v, ok := st.implied(c); ok && !v {
			continue
		}
		ps = append(ps, pend{c, e.val})
	}
	if scalar {
		w := l.w
		if hasDef {
			def = Value{}
		} else {
			// most frequent value is the default
			bi := 0
			for i, g := range gs {
				if len(g.ks) > len(gs[bi].ks) {
					bi = i
				}
			}
			if len(gs) == 0 {
				panic(engineErr("symbolic load without candidates"))
			}
			def = gs[bi].v
			gs = append(gs[:bi:bi], gs[bi+1:]...)
		}
		r := def.term(w)
		for _, g := range gs {
			r = Ite(condOf(g), g.v.term(w), r)
		}
		for k := len(ps) - 1; k >= 0; k-- {
			r = Ite(ps[k].c, ps[k].v.term(w), r)
		}
		return tv(r)
	}
	for _, p := range ps {
		if st.decide(p.c) {
			return p.v
		}
	}
	for i, g := range gs {
		if i == len(gs)-1 && !hasDef {
			return g.v
		}
		if st.decide(condOf(g)) {
			return g.v
		}
	}
	return def
}

func (st *State) eachNonzero(o *Obj, f func(int, Value)) {
	sh := o.shift()
	visit := func(pi int, p *page) {
		if p == nil {
			return
		}
		if o.bytes {
			for i, b := range p.b {
				if p.s != nil && p.s[i] != nil {
					f(pi<<sh+i, Value{x: p.s[i]})
				} else if b != 0 {
					f(pi<<sh+i, Value{n: uint64(b)})
				}
			}
			return
		}
		for i, v := range p.v {
			if v.x != nil || v.n != 0 {
				f(pi<<sh+i, v)
			}
		}
	}
	if o.top != nil {
		for i, m := range o.top {
			if m != nil {
				for j, p := range m.p {
					visit(i*64+j, p)
				}
			}
		}
		return
	}
	for i, p := range o.pages {
		visit(i, p)
	}
}

// inSet builds idx ∈ ks, compressing runs that are contiguous among the candidates.
func inSet(idx *Term, ks []int, cand []int) *Term {
	if cand == nil {
		r := FalseT
		for _, k := range ks {
			r = Or(r, Eq(idx, Const(64, uint64(k))))
		}
		return r
	}
	in := map[int]bool{}
	for _, k := range ks {
		in[k] = true
	}
	r := FalseT
	for i := 0; i < len(cand); {
		if !in[cand[i]] {
			i++
			continue
		}
		j := i
		for j+1 < len(cand) && in[cand[j+1]] {
			j++
		}
		if i == j {
			r = Or(r, Eq(idx, Const(64, uint64(cand[i]))))
		} else {
			c := TrueT
			if i > 0 {
				c = And(c, Ule(Const(64, uint64(cand[i])), idx))
			}
			if j < len(cand)-1 {
				c = And(c, Ule(idx, Const(64, uint64(cand[j]))))
			}
			r = Or(r, c)
		}
		i = j + 1
	}
	return r
}

func (st *State) symStore(p Value, v Value, l *Layout) {
	sp, ok := p.x.(*SymPtr)
	if !ok {
		panic(engineErr("store through %T", p.x))
	}
	if l.n != 1 {
		k := st.concretize(Value{x: sp.idx}, 64)
		st.store(mkptr(sp.obj, sp.off+int(k)*sp.stride), v, l)
		return
	}
	cand := st.candidates(sp)
	if len(cand) == 1 && cand != nil {
		st.store(mkptr(sp.obj, sp.off+cand[0]*sp.stride), v, l)
		return
	}
	if t, ok := v.x.(*Term); ok && t.op != OpConst && sp.count <= 64 && l.w >= 32 {
		// a symbolic word placed at a symbolic position (sorting): splitting on the
		// position keeps the stored words apart
		k := st.concretize(Value{x: sp.idx}, 64)
		st.store(mkptr(sp.obj, sp.off+int(k)*sp.stride), v, l)
		return
	}
	o := st.h.own(sp.obj)
	if st.thread != 0 {
		st.noteAccess(sp.obj, o, sp.off, sp.stride*(sp.count-1)+l.n, true)
	}
	if (l.kind == kInt || l.kind == kBool) && cand != nil && len(cand) <= 512 && len(o.log) == 0 {
		nt := v.term(l.w)
		for _, k := range cand {
			i := sp.off + k*sp.stride
			old := o.raw(i).term(l.w)
			o.setRaw(i, tv(Ite(Eq(sp.idx, Const(64, uint64(k))), nt, old)))
		}
		return
	}
	o.log = append(o.log[:len(o.log):len(o.log)], logEntry{idx: sp.idx, off: sp.off, str: sp.stride, cnt: sp.count, val: v})
}

// ---- workers and harness runs

type Worker struct {
	solver  *Solver
	solver2 *Solver
	st      *State
}
