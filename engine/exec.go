package main

// The interpreter loop: one instruction at a time over symbolic values.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type icall struct {
	in     *instr
	fn     *Fn
	args   []Value
	dst    int32
	kind   frameKind
	pushed bool // the intrinsic pushed a frame that will deliver the result
}

type intrinsic func(st *State, c *icall) Value

func (f *Frame) get(i int32) Value {
	if i >= 0 {
		return f.regs[i]
	}
	return f.fn.consts[^i]
}

// ---- running a state to the end of its path

func (st *State) loop() (ev any) {
	defer func() {
		if e := recover(); e != nil {
			ev = e
		}
	}()
	st.run1()
	return nil
}

// runPath executes st until its path ends. It returns why.
func (st *State) runPath() (why string) {
	for {
		ev := st.loop()
		switch e := ev.(type) {
		case nil:
			return "done"
		case pathEnd:
			return e.why
		case targetPanic:
			if w := st.guard(func() { st.startPanic(e.v) }); w != "" {
				return w
			}
		case exitPanic:
			if w := st.guard(func() { st.doExit(e.code) }); w != "" {
				return w
			}
		case *engineError:
			st.run.errorAt(st, e.msg)
			return "unsupported"
		case mergeAbort:
			st.run.errorAt(st, "internal: stray merge abort")
			return "unsupported"
		default:
			st.run.errorAt(st, fmt.Sprintf("internal: %v", e))
			if debugPanics {
				panic(e)
			}
			return "unsupported"
		}
	}
}

var debugPanics = false

func (st *State) guard(f func()) (why string) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case pathEnd:
				why = e.why
			case *engineError:
				st.run.errorAt(st, e.msg)
				why = "unsupported"
			default:
				panic(e)
			}
		}
	}()
	f()
	return ""
}

func (st *State) popFrame() *Frame {
	f := st.top()
	for _, id := range f.locals {
		st.h.free(id)
	}
	st.frames[len(st.frames)-1] = nil
	st.frames = st.frames[:len(st.frames)-1]
	return f
}

func (st *State) startPanic(v Value) {
	st.panics = append(st.panics, panicRec{v: v, pos: st.where() + "\n" + st.stack()})
	st.unwind()
}

func (st *State) unwind() {
	for {
		if len(st.frames) == 0 {
			p := st.panics[len(st.panics)-1]
			st.run.violationMsg(st, "panic: "+st.panicText(p.v)+" at "+firstLine(p.pos), p.pos)
			panic(pathEnd{"panic"})
		}
		f := st.top()
		f.unwinding = true
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if st.runDeferred(d, fkDeferPan) {
				return
			}
			// an intrinsic ran in place
			if st.afterDeferPan() {
				return
			}
			continue
		}
		st.popFrame()
		switch f.kind {
		case fkMain:
			p := st.panics[len(st.panics)-1]
			st.logs = append(st.logs, "program panicked: "+st.panicText(p.v)+" at "+p.pos)
			st.panics = nil
			st.deliver(f.dst, mkv(2))
			return
		case fkTry:
			p := st.panics[len(st.panics)-1]
			st.panics = st.panics[:len(st.panics)-1]
			st.logs = append(st.logs, "caught: "+st.panicText(p.v)+" at "+firstLine(p.pos))
			st.deliver(f.dst, mkv(1))
			return
		case fkDeferPan:
			// the new panic replaces the one being handled
			n := len(st.panics)
			if n >= 2 {
				st.panics[n-2] = st.panics[n-1]
				st.panics = st.panics[:n-1]
			}
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (st *State) deliver(dst int32, v Value) {
	f := st.top()
	if dst >= 0 {
		f.regs[dst] = v
	}
	f.pc++
}

// afterDeferPan is called when a deferred call made while panicking returned.
// It reports whether normal execution resumes.
func (st *State) afterDeferPan() bool {
	n := len(st.panics)
	if n > 0 && st.panics[n-1].recovered {
		st.panics = st.panics[:n-1]
		f := st.top()
		f.unwinding = false
		f.recovering = true
		f.blk = f.fn.recoverBlock()
		f.pc = 0
		return true
	}
	return false
}

func (fn *Fn) recoverBlock() *Block {
	fnMu.Lock()
	defer fnMu.Unlock()
	if fn.recBlk == nil {
		b := &Block{fn: fn, idx: -1}
		b.ins = append(b.ins, instr{op: iRunDefers, dst: -1})
		if fn.recover != nil {
			b.ins = append(b.ins, instr{op: iJump, dst: -1, succ: [2]*Block{fn.recover}})
		} else {
			b.ins = append(b.ins, instr{op: iReturn, dst: -1, flag: true})
		}
		fn.recBlk = b
	}
	return fn.recBlk
}

const msgExit = "unexpected exit of the process"

func (st *State) doExit(code Value) {
	for len(st.frames) > 0 {
		f := st.popFrame()
		if f.kind == fkMain {
			st.panics = nil
			st.deliver(f.dst, code)
			return
		}
		if f.kind == fkTry {
			st.panics = nil
			st.deliver(f.dst, mkv(2))
			return
		}
	}
	st.run.violationMsg(st, msgExit, "")
	panic(pathEnd{"exit"})
}

func (st *State) panicText(v Value) string {
	i, ok := v.x.(*Iface)
	if !ok {
		return "nil"
	}
	if i.rt == rtErrorType() {
		return "runtime error: " + i.v.str().s
	}
	if i.rt.lay.kind == kString {
		return i.v.str().s
	}
	return fmt.Sprintf("%v %v", i.rt.t, i.v)
}

// ---- calls

func (st *State) pushFrame(fn *Fn, args, binds []Value, dst int32, kind frameKind) {
	fn.prepare()
	if fn.noBody {
		panic(engineErr("unsupported function %s", fn.name))
	}
	fn.entered.Store(true)
	if len(st.frames) > 2000 {
		panic(engineErr("call stack too deep"))
	}
	f := &Frame{fn: fn, regs: make([]Value, fn.nreg), blk: fn.blocks[0], dst: dst, kind: kind}
	copy(f.regs, args)
	copy(f.regs[fn.free0:], binds)
	st.frames = append(st.frames, f)
}

// invoke calls callee; done means the result is v already.
func (st *State) invoke(fn *Fn, binds []Value, args []Value, in *instr, dst int32, kind frameKind) (v Value, done bool) {
	if fn.intr != nil {
		fn.entered.Store(true)
		c := icall{in: in, fn: fn, args: args, dst: dst, kind: kind}
		v = fn.intr(st, &c)
		return v, !c.pushed
	}
	st.pushFrame(fn, args, binds, dst, kind)
	return Value{}, false
}

func (st *State) methodOf(rt *RType, m *types.Func) *Fn {
	id := m.Id()
	rt.mu.Lock()
	fn := rt.ms[id]
	rt.mu.Unlock()
	if fn != nil {
		return fn
	}
	f := prog.LookupMethod(rt.t, m.Pkg(), m.Name())
	if f == nil {
		panic(engineErr("no method %s on %v", m.Name(), rt.t))
	}
	fn = fnOf(f)
	rt.mu.Lock()
	rt.ms[id] = fn
	rt.mu.Unlock()
	return fn
}

// resolve finds the callee of a non-builtin call.
func (st *State) resolve(ci *callInfo, callee Value, args []Value) (*Fn, []Value, []Value) {
	switch {
	case ci.fn != nil:
		return ci.fn, nil, args
	case ci.method != nil:
		i, ok := callee.x.(*Iface)
		if !ok {
			st.nilDeref()
		}
		fn := st.methodOf(i.rt, ci.method)
		a := make([]Value, 0, len(args)+1)
		a = append(a, i.v)
		a = append(a, args...)
		return fn, nil, a
	}
	c, ok := callee.x.(*Closure)
	if !ok {
		st.nilDeref()
	}
	return c.fn, c.binds, args
}

// runDeferred starts d; false means it already completed in place.
func (st *State) runDeferred(d deferred, kind frameKind) bool {
	if d.ci.builtin != "" {
		st.builtin(d.in, d.ci, d.args)
		return false
	}
	fn, binds, args := st.resolve(d.ci, d.callee, d.args)
	_, done := st.invoke(fn, binds, args, d.in, -1, kind)
	return !done
}

func (st *State) doReturn(v Value) {
	f := st.popFrame()
	if len(st.frames) == 0 {
		return
	}
	switch f.kind {
	case fkNormal:
		st.deliver(f.dst, v)
	case fkDefer, fkPrelude:
	case fkDeferPan:
		if !st.afterDeferPan() {
			st.unwind()
		}
	case fkMain, fkTry:
		st.deliver(f.dst, Value{})
	}
}

func (st *State) enter(f *Frame, to *Block) {
	from := f.blk
	if len(to.phis) > 0 {
		e := to.predIndex(from)
		if len(to.phis) == 1 {
			p := &to.phis[0]
			f.regs[p.dst] = f.get(p.edges[e])
		} else {
			var buf [8]Value
			vals := buf[:0]
			for i := range to.phis {
				vals = append(vals, f.get(to.phis[i].edges[e]))
			}
			for i := range to.phis {
				f.regs[to.phis[i].dst] = vals[i]
			}
		}
	}
	f.blk = to
	f.pc = 0
}

func (st *State) run1() {
	for len(st.frames) > 0 {
		f := st.frames[len(st.frames)-1]
		in := &f.blk.ins[f.pc]
		st.steps++
		if st.steps&0xfff == 0 {
			st.tick()
		}
		switch in.op {
		case iNop:
			f.pc++
		case iJump:
			st.enter(f, in.succ[0])
		case iIf:
			c := f.get(in.a)
			if c.x == nil {
				if c.n != 0 {
					st.enter(f, in.succ[0])
				} else {
					st.enter(f, in.succ[1])
				}
				continue
			}
			t := c.x.(*Term)
			if v, ok := st.implied(t); ok {
				st.enter(f, in.succ[1-b2u(v)])
				continue
			}
			if !noMerge && st.mergeIf(f, in, t) {
				continue
			}
			if st.decide(t) {
				st.enter(f, in.succ[0])
			} else {
				st.enter(f, in.succ[1])
			}
		case iCall:
			ci := in.aux.(*callInfo)
			args := make([]Value, len(in.args))
			for i, a := range in.args {
				args[i] = f.get(a)
			}
			if ci.builtin != "" {
				v := st.builtin(in, ci, args)
				if in.dst >= 0 {
					f.regs[in.dst] = v
				}
				f.pc++
				continue
			}
			var callee Value
			if ci.fn == nil {
				callee = f.get(in.a)
			}
			fn, binds, args := st.resolve(ci, callee, args)
			if fn.intr == nil && !noMerge && fn.mergeable() && anySym(args) {
				if v, ok := st.mergeCall(fn, args); ok {
					if in.dst >= 0 {
						f.regs[in.dst] = v
					}
					f.pc++
					continue
				}
			}
			v, done := st.invoke(fn, binds, args, in, in.dst, fkNormal)
			if done {
				if in.dst >= 0 {
					f.regs[in.dst] = v
				}
				f.pc++
			}
		case iReturn:
			var v Value
			switch {
			case in.flag: // zero results
				if len(f.fn.results) > 1 {
					v = Value{x: &Agg{make([]Value, len(f.fn.results))}}
				}
			case len(in.args) == 0:
			case len(in.args) == 1:
				v = f.get(in.args[0])
			default:
				c := make([]Value, len(in.args))
				for i, a := range in.args {
					c[i] = f.get(a)
				}
				v = Value{x: &Agg{c}}
			}
			st.doReturn(v)
		case iStore:
			st.store(f.get(in.a), f.get(in.b), in.lay)
			f.pc++
		case iRunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				st.runDeferred(d, fkDefer)
				continue
			}
			f.pc++
		case iDefer:
			ci := in.aux.(*callInfo)
			d := deferred{ci: ci, in: in}
			for _, a := range in.args {
				d.args = append(d.args, f.get(a))
			}
			if ci.fn == nil && ci.builtin == "" {
				d.callee = f.get(in.a)
				if ci.method != nil && d.callee.x == nil {
					st.nilDeref()
				}
			}
			f.defers = append(f.defers, d)
			f.pc++
		case iPanic:
			panic(targetPanic{f.get(in.a)})
		case iAlloc:
			st.doAlloc(f, in)
			f.pc++
		case iUnsupported:
			panic(engineErr("unsupported: %v", in.aux))
		case iGo:
			panic(engineErr("unsupported: go statement"))
		default:
			v := st.eval(f, in)
			if in.dst >= 0 {
				f.regs[in.dst] = v
			}
			f.pc++
		}
	}
}

func anySym(args []Value) bool {
	for _, a := range args {
		if a.sym() != nil {
			return true
		}
	}
	return false
}

func (st *State) tick() {
	r := st.run
	if r.stopped() {
		panic(pathEnd{"stopped"})
	}
	if st.steps > r.maxSteps {
		r.violationHang(st)
		panic(pathEnd{"step limit"})
	}
}

func (st *State) doAlloc(f *Frame, in *instr) {
	if in.flag {
		f.regs[in.dst] = mkptr(st.allocLay(in.lay), 0)
		return
	}
	if p := f.regs[in.dst]; p.n != 0 {
		// same local variable, zeroed again
		id := ptrObj(p)
		o := newObj(st.h.owner, in.lay.n, in.lay.kind == kArray && in.lay.byt)
		o.thread, o.local = st.thread, true
		*st.h.slot(id) = o
		return
	}
	id := st.allocLay(in.lay)
	if st.thread != 0 {
		st.h.own(id).local = true
	}
	f.locals = append(f.locals, id)
	f.regs[in.dst] = mkptr(id, 0)
}

func (st *State) allocLay(l *Layout) uint32 {
	return st.alloc(l.n, l.kind == kArray && l.byt)
}

// eval executes a value-producing instruction without control effects.
func (st *State) eval(f *Frame, in *instr) Value {
	switch in.op {
	case iBin:
		a, b := f.get(in.a), f.get(in.b)
		if a.x == nil && b.x == nil && in.lay.kind == kInt {
			if v, ok := concBin(in, a.n, b.n); ok {
				return v
			}
		}
		return st.binop(in, a, b)
	case iLoad:
		return st.load(f.get(in.a), in.lay)
	case iNotOp:
		a := f.get(in.a)
		if a.x == nil {
			return mkv(a.n ^ 1)
		}
		return tv(Not(a.x.(*Term)))
	case iNeg:
		a := f.get(in.a)
		if in.lay.kind == kFloat {
			return mkv(math.Float64bits(-math.Float64frombits(a.n)))
		}
		if a.x == nil {
			return mkv(-a.n & mask(in.lay.w))
		}
		return tv(Neg(a.x.(*Term)))
	case iXor:
		a := f.get(in.a)
		if a.x == nil {
			return mkv(^a.n & mask(in.lay.w))
		}
		return tv(BNot(a.x.(*Term)))
	case iConvInt:
		return convInt(f.get(in.a), in.lay2, in.lay)
	case iConvOther:
		return st.convOther(f.get(in.a), in.lay2, in.lay)
	case iCopy:
		return f.get(in.a)
	case iExtract:
		a, _ := f.get(in.a).x.(*Agg)
		if a == nil {
			return Value{}
		}
		return a.c[in.k]
	case iField:
		return field(f.get(in.a), in.lay2, in.k, in.lay)
	case iFieldAddr:
		p := f.get(in.a)
		if p.x != nil {
			sp := *p.x.(*SymPtr)
			sp.off += in.k
			return Value{x: &sp}
		}
		if p.n == 0 {
			st.nilDeref()
		}
		return mkv(p.n + uint64(in.k))
	case iIndex:
		a := f.get(in.a)
		i := st.bounds(f.get(in.b), in.lay2, in.lay.alen)
		if i.x == nil {
			return field(a, in.lay, int(i.n)*in.lay.elem.n, in.lay.elem)
		}
		k := st.concretize(i, 64)
		return field(a, in.lay, int(k)*in.lay.elem.n, in.lay.elem)
	case iIndexAddr:
		return st.indexAddr(f, in)
	case iStrIndex:
		s := f.get(in.a).str()
		i := st.bounds(f.get(in.b), in.lay2, len(s.s))
		if i.x == nil {
			return s.at(int(i.n))
		}
		return st.symStrIndex(s, i.x.(*Term))
	case iMapLookup:
		return st.mapLookup(f.get(in.a), f.get(in.b), in)
	case iMakeClosure:
		c := &Closure{fn: in.aux.(*Fn)}
		for _, a := range in.args {
			c.binds = append(c.binds, f.get(a))
		}
		return Value{x: c}
	case iMakeInterface:
		return Value{x: &Iface{rt: in.aux.(*RType), v: f.get(in.a)}}
	case iMakeMap:
		id := st.alloc(0, false)
		st.h.own(id).m = &mapObj{index: map[string]int{}}
		return mkptr(id, 0)
	case iMakeSlice:
		n := st.concLen(f.get(in.a), in.lay2)
		c := st.concLen(f.get(in.b), in.lay2)
		if c < n {
			st.rtPanic("makeslice: cap out of range")
		}
		return st.makeSlice(in.lay, n, c)
	case iMapUpdate:
		st.mapUpdate(f.get(in.a), f.get(in.b), f.get(in.c), in.lay)
		return Value{}
	case iRange:
		id := st.alloc(2, false)
		o := st.h.own(id)
		o.setRaw(0, f.get(in.a))
		return mkptr(id, 0)
	case iNext:
		return st.next(f.get(in.a), in)
	case iSlice:
		return st.sliceOp(f, in)
	case iTypeAssert:
		return st.typeAssert(f.get(in.a), in)
	case iSliceToArrPtr:
		s := f.get(in.a).slice()
		n := in.lay.alen
		l := 0
		if s != nil {
			l = s.len
		}
		if l < n {
			st.rtPanic("cannot convert slice to array pointer")
		}
		if s == nil {
			return Value{}
		}
		return mkptr(s.obj, s.off)
	}
	panic(engineErr("eval of opcode %d", in.op))
}

func field(a Value, l *Layout, off int, fl *Layout) Value {
	if l.n == 1 {
		if fl.n == 0 {
			return Value{}
		}
		return a
	}
	ag, _ := a.x.(*Agg)
	if ag == nil || fl.n == 0 {
		return Value{}
	}
	if fl.n == 1 {
		return ag.c[off]
	}
	return Value{x: &Agg{ag.c[off : off+fl.n]}}
}

func (st *State) concLen(v Value, l *Layout) int {
	if v.x != nil {
		t := v.x.(*Term)
		if l.w < 64 {
			t = extend(t, l.signed, 64)
		}
		if !st.decide(Ult(t, Const(64, 1<<32))) {
			st.rtPanic("makeslice: len out of range")
		}
		return int(st.concretize(Value{x: t}, 64))
	}
	n := int64(v.n)
	if l.signed {
		n = sx(v.n, l.w)
	}
	if n < 0 || n > 1<<40 {
		st.rtPanic("makeslice: len out of range")
	}
	return int(n)
}

func extend(t *Term, signed bool, w uint8) *Term {
	if t.w == w {
		return t
	}
	if signed {
		return SExt(t, w)
	}
	return ZExt(t, w)
}

func (st *State) makeSlice(el *Layout, n, c int) Value {
	cells := c * el.n
	if cells > 1<<31 {
		panic(engineErr("slice too large: %d", c))
	}
	id := st.alloc(cells, el.isByte())
	return Value{x: &Slice{obj: id, len: n, cap: c, es: el.n}}
}

// bounds checks index v against n and returns it as a 64-bit value.
func (st *State) bounds(v Value, l *Layout, n int) Value {
	if v.x == nil {
		i := int64(v.n)
		if l.signed {
			i = sx(v.n, l.w)
		}
		if i < 0 || i >= int64(n) {
			st.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return mkv(uint64(i))
	}
	t := extend(v.x.(*Term), l.signed, 64)
	if t.hi >= uint64(n) {
		if !st.decide(Ult(t, Const(64, uint64(n)))) {
			st.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
	}
	return tv(t)
}

func (st *State) indexAddr(f *Frame, in *instr) Value {
	base := f.get(in.a)
	var obj uint32
	var off, n int
	if in.flag {
		n = in.k
		if sp, ok := base.x.(*SymPtr); ok {
			k := st.concretize(Value{x: sp.idx}, 64)
			base = mkptr(sp.obj, sp.off+int(k)*sp.stride)
		}
		if base.n == 0 {
			if n == 0 {
				st.rtPanic("index out of range")
			}
			st.nilDeref()
		}
		obj, off = ptrObj(base), ptrOff(base)
	} else if s := base.slice(); s != nil {
		obj, off, n = s.obj, s.off, s.len
	}
	i := st.bounds(f.get(in.b), in.lay2, n)
	if i.x == nil {
		return mkptr(obj, off+int(i.n)*in.lay.n)
	}
	t := i.x.(*Term)
	return Value{x: &SymPtr{obj: obj, off: off, idx: t, stride: in.lay.n, count: n}}
}

func (st *State) symStrIndex(s *Str, t *Term) Value {
	sp := &SymPtr{idx: t, stride: 1, count: len(s.s)}
	cand := st.candidates(sp)
	if len(cand) == 0 {
		panic(engineErr("string index without candidates"))
	}
	groups := map[Value][]int{}
	var order []Value
	for _, k := range cand {
		v := s.at(k)
		if _, ok := groups[v]; !ok {
			order = append(order, v)
		}
		groups[v] = append(groups[v], k)
	}
	best := 0
	for i, v := range order {
		if len(groups[v]) > len(groups[order[best]]) {
			best = i
		}
	}
	r := order[best].term(8)
	for i, v := range order {
		if i != best {
			r = Ite(inSet(t, groups[v], cand), v.term(8), r)
		}
	}
	return tv(r)
}

// ---- arithmetic

func concBin(in *instr, x, y uint64) (Value, bool) {
	l := in.lay
	w := l.w
	m := mask(w)
	switch in.tok {
	case token.ADD:
		return mkv((x + y) & m), true
	case token.SUB:
		return mkv((x - y) & m), true
	case token.MUL:
		return mkv((x * y) & m), true
	case token.AND:
		return mkv(x & y), true
	case token.OR:
		return mkv(x | y), true
	case token.XOR:
		return mkv(x ^ y), true
	case token.AND_NOT:
		return mkv(x &^ y), true
	case token.EQL:
		return bv(x == y), true
	case token.NEQ:
		return bv(x != y), true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		var lt, eq bool
		eq = x == y
		if l.signed {
			lt = sx(x, w) < sx(y, w)
		} else {
			lt = x < y
		}
		switch in.tok {
		case token.LSS:
			return bv(lt), true
		case token.LEQ:
			return bv(lt || eq), true
		case token.GTR:
			return bv(!lt && !eq), true
		}
		return bv(!lt), true
	case token.QUO, token.REM:
		if y == 0 {
			return Value{}, false
		}
		op := OpUDiv
		if in.tok == token.REM {
			op = OpURem
		}
		if l.signed {
			op = OpSDiv
			if in.tok == token.REM {
				op = OpSRem
			}
		}
		return mkv(evalBin(op, w, x, y)), true
	case token.SHL, token.SHR:
		if in.lay2.signed && sx(y, in.lay2.w) < 0 {
			return Value{}, false
		}
		if in.tok == token.SHL {
			if y >= uint64(w) {
				return mkv(0), true
			}
			return mkv(x << y & m), true
		}
		if l.signed {
			return mkv(evalBin(OpAShr, w, x, y)), true
		}
		if y >= uint64(w) {
			return mkv(0), true
		}
		return mkv(x >> y), true
	}
	return Value{}, false
}

func (st *State) binop(in *instr, a, b Value) Value {
	l := in.lay
	switch in.tok {
	case token.EQL:
		return tv(st.valueEq(l, a, b))
	case token.NEQ:
		return tv(Not(st.valueEq(l, a, b)))
	}
	switch l.kind {
	case kString:
		x, y := a.str(), b.str()
		switch in.tok {
		case token.ADD:
			return strVal(concatStr(x, y))
		case token.LSS:
			return tv(strLess(x, y))
		case token.GTR:
			return tv(strLess(y, x))
		case token.LEQ:
			return tv(Not(strLess(y, x)))
		case token.GEQ:
			return tv(Not(strLess(x, y)))
		}
	case kFloat:
		x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
		if a.x != nil || b.x != nil {
			panic(engineErr("symbolic float"))
		}
		var r float64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return bv(x < y)
		case token.LEQ:
			return bv(x <= y)
		case token.GTR:
			return bv(x > y)
		case token.GEQ:
			return bv(x >= y)
		}
		if l.w == 32 {
			r = float64(float32(r))
		}
		return mkv(math.Float64bits(r))
	case kBool:
		x, y := a.term(0), b.term(0)
		switch in.tok {
		case token.AND:
			return tv(And(x, y))
		case token.OR:
			return tv(Or(x, y))
		}
	case kInt:
		return st.intBin(in, a.term(l.w), b.term(in.lay2.w))
	}
	panic(engineErr("binop %v on %v", in.tok, l.t))
}

func (st *State) intBin(in *instr, x, y *Term) Value {
	l := in.lay
	w := l.w
	switch in.tok {
	case token.ADD:
		return tv(Bin(OpAdd, x, y))
	case token.SUB:
		return tv(Bin(OpSub, x, y))
	case token.MUL:
		return tv(Bin(OpMul, x, y))
	case token.AND:
		return tv(Bin(OpBAnd, x, y))
	case token.OR:
		return tv(Bin(OpBOr, x, y))
	case token.XOR:
		return tv(Bin(OpBXor, x, y))
	case token.AND_NOT:
		return tv(Bin(OpBAnd, x, BNot(y)))
	case token.QUO, token.REM:
		if st.decide(Eq(y, Const(w, 0))) {
			st.rtPanic("integer divide by zero")
		}
		op := OpUDiv
		if in.tok == token.REM {
			op = OpURem
		}
		if l.signed {
			op = OpSDiv
			if in.tok == token.REM {
				op = OpSRem
			}
		}
		return tv(Bin(op, x, y))
	case token.SHL, token.SHR:
		if in.lay2.signed && y.kz&signBit(y.w) == 0 {
			if st.decide(Slt(y, Const(y.w, 0))) {
				st.rtPanic("negative shift amount")
			}
		}
		op := OpShl
		if in.tok == token.SHR {
			op = OpLShr
			if l.signed {
				op = OpAShr
			}
		}
		if y.w < w {
			y = ZExt(y, w)
		} else if y.w > w {
			big := Not(Ult(y, Const(y.w, uint64(w))))
			lowb := Extract(y, 0, w)
			// a shift by 2^k multiples must still saturate
			y = Ite(big, Const(w, uint64(w)), lowb)
		}
		return tv(Bin(op, x, y))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		lt := Ult
		if l.signed {
			lt = Slt
		}
		switch in.tok {
		case token.LSS:
			return tv(lt(x, y))
		case token.GTR:
			return tv(lt(y, x))
		case token.LEQ:
			return tv(Not(lt(y, x)))
		}
		return tv(Not(lt(x, y)))
	}
	panic(engineErr("int op %v", in.tok))
}

func strEq(a, b *Str) *Term {
	if len(a.s) != len(b.s) {
		return FalseT
	}
	if a.t == nil && b.t == nil {
		return Const(0, b2u(a.s == b.s))
	}
	r := TrueT
	for i := range len(a.s) {
		r = And(r, Eq(a.at(i).term(8), b.at(i).term(8)))
		if r == FalseT {
			return r
		}
	}
	return r
}

func strLess(a, b *Str) *Term {
	if a.t == nil && b.t == nil {
		return Const(0, b2u(a.s < b.s))
	}
	n := min(len(a.s), len(b.s))
	r := Const(0, b2u(len(a.s) < len(b.s)))
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i).term(8), b.at(i).term(8)
		r = Or(Ult(x, y), And(Eq(x, y), r))
	}
	return r
}

// valueEq compares two values of layout l.
func (st *State) valueEq(l *Layout, a, b Value) *Term {
	switch l.kind {
	case kInt, kBool:
		if a.x == nil && b.x == nil {
			return Const(0, b2u(a.n == b.n))
		}
		return Eq(a.term(l.w), b.term(l.w))
	case kFloat:
		return Const(0, b2u(math.Float64frombits(a.n) == math.Float64frombits(b.n)))
	case kString:
		return strEq(a.str(), b.str())
	case kPtr, kMap, kChan:
		if a.x == nil && b.x == nil {
			return Const(0, b2u(a.n == b.n))
		}
		sa, oka := a.x.(*SymPtr)
		_, okb := b.x.(*SymPtr)
		if oka && b.x == nil {
			if b.n == 0 {
				return FalseT
			}
			k := st.concretize(Value{x: sa.idx}, 64)
			return st.valueEq(l, mkptr(sa.obj, sa.off+int(k)*sa.stride), b)
		}
		if okb && a.x == nil {
			return st.valueEq(l, b, a)
		}
		if oka && okb {
			k := st.concretize(Value{x: sa.idx}, 64)
			return st.valueEq(l, mkptr(sa.obj, sa.off+int(k)*sa.stride), b)
		}
	case kFunc, kSlice:
		if a.x == nil || b.x == nil {
			return Const(0, b2u(a.x == nil && b.x == nil))
		}
	case kIface:
		if a.x == nil || b.x == nil {
			return Const(0, b2u(a.x == nil && b.x == nil))
		}
		x, ok1 := a.x.(*Iface)
		y, ok2 := b.x.(*Iface)
		if !ok1 || !ok2 {
			panic(engineErr("interface comparison of %T %T", a.x, b.x))
		}
		if x.rt != y.rt {
			return FalseT
		}
		switch x.rt.lay.kind {
		case kSlice, kMap, kFunc:
			st.rtPanic("comparing uncomparable type")
		}
		return st.valueEq(x.rt.lay, x.v, y.v)
	case kStruct:
		r := TrueT
		for i, fl := range l.fields {
			r = And(r, st.valueEq(fl, field(a, l, l.offs[i], fl), field(b, l, l.offs[i], fl)))
		}
		return r
	case kArray:
		r := TrueT
		for i := 0; i < l.alen; i++ {
			r = And(r, st.valueEq(l.elem, field(a, l, i*l.elem.n, l.elem), field(b, l, i*l.elem.n, l.elem)))
		}
		return r
	}
	panic(engineErr("comparison of %v (%T,%T)", l.t, a.x, b.x))
}

func convInt(v Value, from, to *Layout) Value {
	if v.x == nil {
		n := v.n
		if from.signed {
			n = uint64(sx(n, from.w))
		}
		return mkv(n & mask(to.w))
	}
	t, ok := v.x.(*Term)
	if !ok {
		panic(engineErr("integer conversion of %T", v.x))
	}
	if to.w <= from.w {
		return tv(Extract(t, 0, to.w))
	}
	return tv(extend(t, from.signed, to.w))
}

func (st *State) convOther(v Value, from, to *Layout) Value {
	switch {
	case to.kind == kString && from.kind == kSlice:
		s := v.slice()
		if s == nil || s.len == 0 {
			return Value{}
		}
		if from.elem.w == 8 {
			return strVal(strFromValues(st.sliceCells(s)))
		}
		// []rune
		r := emptyStr
		for _, c := range st.sliceCells(s) {
			r = concatStr(r, st.encodeRune(c))
		}
		return strVal(r)
	case to.kind == kString && from.kind == kInt:
		x := convInt(v, from, layoutOf(types.Typ[types.Int64]))
		return strVal(st.encodeRune64(x))
	case to.kind == kString && from.kind == kString:
		return v
	case to.kind == kSlice && from.kind == kString:
		s := v.str()
		if to.elem.w == 8 {
			return st.bytesOf(s, roundupsize(len(s.s)))
		}
		var rs []Value
		for i := 0; i < len(s.s); {
			r, n := st.decodeRune(s.at, len(s.s), i)
			rs = append(rs, r)
			i += n
		}
		sl := st.makeSlice(to.elem, len(rs), len(rs))
		o := st.h.own(sl.slice().obj)
		for i, r := range rs {
			o.setRaw(i, r)
		}
		return sl
	case to.kind == kFloat && from.kind == kInt:
		if v.x != nil {
			v = mkv(st.concretize(v, from.w))
		}
		var r float64
		if from.signed {
			r = float64(sx(v.n, from.w))
		} else {
			r = float64(v.n)
		}
		if to.w == 32 {
			r = float64(float32(r))
		}
		return mkv(math.Float64bits(r))
	case to.kind == kInt && from.kind == kFloat:
		r := math.Float64frombits(v.n)
		if to.signed {
			return mkv(uint64(int64(r)) & mask(to.w))
		}
		return mkv(uint64(r) & mask(to.w))
	case to.kind == kFloat && from.kind == kFloat:
		if to.w == 32 {
			return mkv(math.Float64bits(float64(float32(math.Float64frombits(v.n)))))
		}
		return v
	case to.kind == kPtr && from.kind == kPtr:
		return v
	case to.kind == kPtr && from.kind == kInt, to.kind == kInt && from.kind == kPtr:
		return v
	case to.kind == from.kind:
		return v
	}
	panic(engineErr("conversion %v to %v", from.t, to.t))
}

func (st *State) bytesOf(s *Str, capacity int) Value {
	id := st.alloc(max(capacity, len(s.s)), true)
	o := st.h.own(id)
	for i := range len(s.s) {
		if s.t != nil && s.t[i] != nil {
			o.setRaw(i, Value{x: s.t[i]})
		} else if s.s[i] != 0 {
			o.setRaw(i, mkv(uint64(s.s[i])))
		}
	}
	return Value{x: &Slice{obj: id, len: len(s.s), cap: max(capacity, len(s.s)), es: 1}}
}

func (st *State) sliceCells(s *Slice) []Value {
	if s == nil {
		return nil
	}
	o := st.h.get(s.obj)
	if st.thread != 0 && s.len > 0 {
		st.noteAccess(s.obj, o, s.off, s.len*s.es, false)
	}
	r := make([]Value, s.len*s.es)
	for i := range r {
		r[i] = st.cell(o, s.off+i)
	}
	return r
}

// ---- UTF-8 with symbolic bytes

func conU8(v Value, lo, hi uint64) *Term {
	t := v.term(8)
	return And(Ule(Const(8, lo), t), Ule(t, Const(8, hi)))
}

// decodeRune decodes the rune at i of a byte sequence, forking on its form.
func (st *State) decodeRune(at func(int) Value, n, i int) (Value, int) {
	b0 := at(i)
	if b0.x == nil {
		// fully concrete fast path
		conc := true
		var buf [4]byte
		k := 0
		for ; k < 4 && i+k < n; k++ {
			v := at(i + k)
			if v.x != nil {
				conc = false
				break
			}
			buf[k] = byte(v.n)
		}
		if conc || b0.n < 0x80 {
			r, sz := decodeRuneBytes(buf[:max(k, 1)], byte(b0.n))
			return mkv(uint64(uint32(r))), sz
		}
	}
	bad := mkv(0xFFFD)
	is := func(v Value, lo, hi uint64) bool { return st.decide(conU8(v, lo, hi)) }
	z := func(v Value, m uint64, sh uint64) *Term {
		return Bin(OpShl, ZExt(Bin(OpBAnd, v.term(8), Const(8, m)), 32), Const(32, sh))
	}
	or := func(a, b *Term) *Term { return Bin(OpBOr, a, b) }
	if is(b0, 0, 0x7f) {
		return tv(ZExt(b0.term(8), 32)), 1
	}
	if !is(b0, 0xc2, 0xf4) || i+1 >= n {
		return bad, 1
	}
	b1 := at(i + 1)
	if is(b0, 0xc2, 0xdf) {
		if !is(b1, 0x80, 0xbf) {
			return bad, 1
		}
		return tv(or(z(b0, 0x1f, 6), z(b1, 0x3f, 0))), 2
	}
	lo, hi := uint64(0x80), uint64(0xbf)
	three := is(b0, 0xe0, 0xef)
	if three {
		if is(b0, 0xe0, 0xe0) {
			lo = 0xa0
		} else if is(b0, 0xed, 0xed) {
			hi = 0x9f
		}
	} else {
		if is(b0, 0xf0, 0xf0) {
			lo = 0x90
		} else if is(b0, 0xf4, 0xf4) {
			hi = 0x8f
		}
	}
	if !is(b1, lo, hi) || i+2 >= n {
		return bad, 1
	}
	b2 := at(i + 2)
	if !is(b2, 0x80, 0xbf) {
		return bad, 1
	}
	if three {
		return tv(or(or(z(b0, 0x0f, 12), z(b1, 0x3f, 6)), z(b2, 0x3f, 0))), 3
	}
	if i+3 >= n {
		return bad, 1
	}
	b3 := at(i + 3)
	if !is(b3, 0x80, 0xbf) {
		return bad, 1
	}
	return tv(or(or(z(b0, 0x07, 18), z(b1, 0x3f, 12)), or(z(b2, 0x3f, 6), z(b3, 0x3f, 0)))), 4
}

func decodeRuneBytes(b []byte, b0 byte) (rune, int) {
	if b0 < 0x80 {
		return rune(b0), 1
	}
	for _, r := range string(b) {
		n := len(string(r))
		if r == 0xFFFD && !(len(b) >= 3 && b[0] == 0xEF && b[1] == 0xBF && b[2] == 0xBD) {
			return r, 1
		}
		return r, n
	}
	return 0xFFFD, 1
}

// encodeRune encodes a 32-bit rune value.
func (st *State) encodeRune(v Value) *Str {
	return st.encodeRune64(convInt(v, layoutOf(types.Typ[types.Int32]), layoutOf(types.Typ[types.Int64])))
}

func (st *State) encodeRune64(v Value) *Str {
	if v.x == nil {
		r := int64(v.n)
		if r < 0 || r > 0x10ffff {
			r = 0xfffd
		}
		return &Str{s: string(rune(r))}
	}
	t := v.x.(*Term)
	c := func(k uint64) *Term { return Const(64, k) }
	by := func(t *Term, sh uint64, m, o uint64) Value {
		x := Extract(Bin(OpLShr, t, c(sh)), 0, 8)
		return tv(Bin(OpBOr, Bin(OpBAnd, x, Const(8, m)), Const(8, o)))
	}
	switch {
	case st.decide(Ult(t, c(0x80))):
		return strFromValues([]Value{by(t, 0, 0x7f, 0)})
	case st.decide(Ult(t, c(0x800))):
		return strFromValues([]Value{by(t, 6, 0x1f, 0xc0), by(t, 0, 0x3f, 0x80)})
	case st.decide(Ult(c(0x10ffff), t)), st.decide(And(Ule(c(0xd800), t), Ule(t, c(0xdfff)))):
		return &Str{s: "\uFFFD"}
	case st.decide(Ult(t, c(0x10000))):
		return strFromValues([]Value{by(t, 12, 0x0f, 0xe0), by(t, 6, 0x3f, 0x80), by(t, 0, 0x3f, 0x80)})
	}
	return strFromValues([]Value{by(t, 18, 0x07, 0xf0), by(t, 12, 0x3f, 0x80), by(t, 6, 0x3f, 0x80), by(t, 0, 0x3f, 0x80)})
}

// ---- maps

// keyStr renders a concrete key; ok is false if it has symbolic parts.
func keyStr(l *Layout, v Value, b []byte) ([]byte, bool) {
	num := func(n uint64) {
		for i := 0; i < 8; i++ {
			b = append(b, byte(n>>(8*i)))
		}
	}
	switch l.kind {
	case kInt, kBool, kFloat, kPtr, kMap, kChan:
		if v.x != nil {
			return b, false
		}
		num(v.n)
		return b, true
	case kString:
		s := v.str()
		if s.t != nil {
			return b, false
		}
		num(uint64(len(s.s)))
		return append(b, s.s...), true
	case kIface:
		i, ok := v.x.(*Iface)
		if !ok {
			num(0)
			return b, true
		}
		num(uint64(i.rt.id))
		return keyStr(i.rt.lay, i.v, b)
	case kStruct:
		ok := true
		for i, fl := range l.fields {
			if b, ok = keyStr(fl, field(v, l, l.offs[i], fl), b); !ok {
				return b, false
			}
		}
		return b, true
	case kArray:
		ok := true
		for i := 0; i < l.alen; i++ {
			if b, ok = keyStr(l.elem, field(v, l, i*l.elem.n, l.elem), b); !ok {
				return b, false
			}
		}
		return b, true
	}
	panic(engineErr("map key of type %v", l.t))
}

// mapFind returns the entry index of key, or -1.
func (st *State) mapFind(m *mapObj, kl *Layout, key Value) int {
	ks, conc := keyStr(kl, key, nil)
	if conc {
		if i, ok := m.index[string(ks)]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
		for i := range m.ents {
			e := &m.ents[i]
			if e.dead {
				continue
			}
			if _, c := keyStr(kl, e.k, nil); c {
				continue
			}
			if st.decide(st.valueEq(kl, e.k, key)) {
				return i
			}
		}
		return -1
	}
	for i := range m.ents {
		e := &m.ents[i]
		if !e.dead && st.decide(st.valueEq(kl, e.k, key)) {
			return i
		}
	}
	return -1
}

func (st *State) mapGet(mv, key Value, kl *Layout) (Value, bool) {
	if mv.n == 0 {
		return Value{}, false
	}
	o := st.h.get(ptrObj(mv))
	if st.thread != 0 {
		st.noteAccess(ptrObj(mv), o, 0, 1, false)
	}
	i := st.mapFind(o.m, kl, key)
	if i < 0 {
		return Value{}, false
	}
	return o.m.ents[i].v, true
}

func (st *State) mapLookup(mv, key Value, in *instr) Value {
	if kl := in.lay; kl.kind == kIface {
		st.checkHashable(key)
	}
	v, ok := st.mapGet(mv, key, in.lay)
	if in.flag {
		return Value{x: &Agg{[]Value{v, bv(ok)}}}
	}
	return v
}

func (st *State) checkHashable(key Value) {
	if i, ok := key.x.(*Iface); ok {
		switch i.rt.lay.kind {
		case kSlice, kMap, kFunc:
			st.rtPanic("hash of unhashable type")
		}
	}
}

func (st *State) mapUpdate(mv, key, val Value, kl *Layout) {
	if mv.n == 0 {
		panic(targetPanic{Value{x: &Iface{rt: rtErrorType(), v: strV("assignment to entry in nil map")}}})
	}
	id := ptrObj(mv)
	i := st.mapFind(st.h.get(id).m, kl, key)
	o := st.h.own(id)
	if st.thread != 0 {
		st.noteAccess(id, o, 0, 1, true)
	}
	m := o.m
	if i >= 0 {
		m.ents[i].v = val
		return
	}
	m.ents = append(m.ents, mapEntry{k: key, v: val})
	m.live++
	if ks, conc := keyStr(kl, key, nil); conc {
		m.index[string(ks)] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (st *State) mapDelete(mv, key Value, kl *Layout) {
	if mv.n == 0 {
		return
	}
	id := ptrObj(mv)
	i := st.mapFind(st.h.get(id).m, kl, key)
	o := st.h.own(id)
	if st.thread != 0 {
		st.noteAccess(id, o, 0, 1, true)
	}
	if i < 0 {
		return
	}
	m := o.m
	if ks, conc := keyStr(kl, m.ents[i].k, nil); conc {
		delete(m.index, string(ks))
	} else {
		m.nsym--
	}
	m.ents[i] = mapEntry{dead: true}
	m.live--
}

func (st *State) next(it Value, in *instr) Value {
	id := ptrObj(it)
	o := st.h.get(id)
	pos := int(o.raw(1).n)
	if in.flag {
		s := o.raw(0).str()
		if pos >= len(s.s) {
			return Value{x: &Agg{make([]Value, 3)}}
		}
		r, n := st.decodeRune(s.at, len(s.s), pos)
		st.h.own(id).setRaw(1, mkv(uint64(pos+n)))
		return Value{x: &Agg{[]Value{mkv(1), mkv(uint64(pos)), r}}}
	}
	mv := o.raw(0)
	if mv.n == 0 {
		return Value{x: &Agg{make([]Value, 3)}}
	}
	mo := st.h.get(ptrObj(mv))
	if st.thread != 0 {
		st.noteAccess(ptrObj(mv), mo, 0, 1, false)
	}
	for pos < len(mo.m.ents) && mo.m.ents[pos].dead {
		pos++
	}
	if pos >= len(mo.m.ents) {
		return Value{x: &Agg{make([]Value, 3)}}
	}
	e := mo.m.ents[pos]
	st.h.own(id).setRaw(1, mkv(uint64(pos+1)))
	return Value{x: &Agg{[]Value{mkv(1), e.k, e.v}}}
}

// ---- slices

const noOpnd = int32(math.MaxInt32)

func (st *State) sliceOp(f *Frame, in *instr) Value {
	x := f.get(in.a)
	var n, c int
	var str *Str
	var sl Slice
	isNil := false
	switch in.lay.kind {
	case kString:
		str = x.str()
		n, c = len(str.s), len(str.s)
	case kSlice:
		if s := x.slice(); s != nil {
			sl = *s
		} else {
			isNil = true
			sl.es = in.lay.elem.n
		}
		n, c = sl.len, sl.cap
	default:
		al := in.lay2
		if sp, ok := x.x.(*SymPtr); ok {
			k := st.concretize(Value{x: sp.idx}, 64)
			x = mkptr(sp.obj, sp.off+int(k)*sp.stride)
		}
		if x.n == 0 {
			st.nilDeref()
		}
		n, c = al.alen, al.alen
		sl = Slice{obj: ptrObj(x), off: ptrOff(x), len: n, cap: c, es: al.elem.n}
	}
	get := func(op int32, def int) Value {
		if op == noOpnd {
			return mkv(uint64(def))
		}
		v := f.get(op)
		l := in.sliceLay(op, st, f)
		if v.x == nil {
			if l.signed {
				return mkv(uint64(sx(v.n, l.w)))
			}
			return v
		}
		return tv(extend(v.x.(*Term), l.signed, 64))
	}
	lo := get(in.b, 0)
	hi := get(in.c, n)
	mx := get(in.d, c)
	// bounds: 0 <= lo <= hi <= mx <= c
	chk := func(a, b Value, what string) {
		if a.x == nil && b.x == nil {
			if a.n > b.n {
				st.rtPanic(fmt.Sprintf("slice bounds out of range [%s] %d > %d", what, int64(a.n), int64(b.n)))
			}
			return
		}
		if !st.decide(Ule(a.term(64), b.term(64))) {
			st.rtPanic("slice bounds out of range [" + what + "]")
		}
	}
	chk(mx, mkv(uint64(c)), "::max")
	chk(hi, mx, ":high")
	chk(lo, hi, "low:")
	l, h, m := int(st.concretize(lo, 64)), int(st.concretize(hi, 64)), int(st.concretize(mx, 64))
	if str != nil {
		if l == 0 && h == len(str.s) {
			return x
		}
		return strVal(str.sub(l, h))
	}
	if isNil {
		return Value{}
	}
	return Value{x: &Slice{obj: sl.obj, off: sl.off + l*sl.es, len: h - l, cap: m - l, es: sl.es}}
}

func (in *instr) sliceLay(op int32, st *State, f *Frame) *Layout {
	s := in.ssa.(*ssa.Slice)
	switch op {
	case in.b:
		if s.Low != nil {
			return layoutOf(s.Low.Type())
		}
	}
	if op == in.c && s.High != nil {
		return layoutOf(s.High.Type())
	}
	if op == in.d && s.Max != nil {
		return layoutOf(s.Max.Type())
	}
	return layoutOf(types.Typ[types.Int])
}

// copyCells moves n cells (memmove).
func (st *State) copyCells(dst uint32, doff int, src uint32, soff, n int) {
	if n == 0 {
		return
	}
	so := st.h.get(src)
	if st.thread != 0 {
		st.noteAccess(src, so, soff, n, false)
	}
	do := st.h.own(dst)
	so = st.h.get(src)
	if st.thread != 0 {
		st.noteAccess(dst, do, doff, n, true)
	}
	if soff+n > so.n || doff+n > do.n {
		panic(engineErr("copy out of object"))
	}
	if so.bytes && do.bytes && len(so.log) == 0 && len(do.log) == 0 && n > 8 {
		st.copyBytes(do, doff, so, soff, n)
		return
	}
	if dst == src && doff > soff {
		for i := n - 1; i >= 0; i-- {
			st.setCell(do, doff+i, st.cell(so, soff+i))
		}
		return
	}
	for i := 0; i < n; i++ {
		st.setCell(do, doff+i, st.cell(so, soff+i))
	}
}

func (st *State) copyBytes(do *Obj, doff int, so *Obj, soff, n int) {
	tmp := make([]byte, n)
	var ts []*Term
	const ps = 1 << bytePageShift
	for i := 0; i < n; {
		k := (soff + i) & (ps - 1)
		m := min(n-i, ps-k)
		if p := so.page((soff + i) >> bytePageShift); p != nil {
			copy(tmp[i:i+m], p.b[k:k+m])
			if p.s != nil {
				for j := 0; j < m; j++ {
					if t := p.s[k+j]; t != nil {
						if ts == nil {
							ts = make([]*Term, n)
						}
						ts[i+j] = t
					}
				}
			}
		}
		i += m
	}
	for i := 0; i < n; {
		k := (doff + i) & (ps - 1)
		m := min(n-i, ps-k)
		p := do.own((doff + i) >> bytePageShift)
		copy(p.b[k:k+m], tmp[i:i+m])
		if p.s != nil || ts != nil {
			for j := 0; j < m; j++ {
				var t *Term
				if ts != nil {
					t = ts[i+j]
				}
				if t != nil && p.s == nil {
					p.s = make([]*Term, len(p.b))
				}
				if p.s != nil {
					p.s[k+j] = t
				}
			}
		}
		i += m
	}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768-8 {
		lo, hi := 0, len(sizeClasses)-1
		for lo < hi {
			m := (lo + hi) / 2
			if sizeClasses[m] >= n {
				hi = m
			} else {
				lo = m + 1
			}
		}
		return sizeClasses[lo]
	}
	return (n + 8191) &^ 8191
}

func growCap(old, need int, esize int64) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if esize <= 0 {
		return max(nc, need)
	}
	return roundupsize(nc*int(esize)) / int(esize)
}

func (st *State) appendOp(a Value, el *Layout, b Value, fromStr bool) Value {
	s := a.slice()
	var n int
	var sb *Slice
	var str *Str
	if fromStr {
		str = b.str()
		n = len(str.s)
	} else if sb = b.slice(); sb != nil {
		n = sb.len
	}
	if n == 0 {
		return a
	}
	var r Slice
	if s == nil || s.len+n > s.cap {
		ol, oc := 0, 0
		if s != nil {
			ol, oc = s.len, s.cap
		}
		nc := growCap(oc, ol+n, el.size)
		id := st.alloc(nc*el.n, el.isByte())
		if ol > 0 {
			st.copyCells(id, 0, s.obj, s.off, ol*el.n)
		}
		r = Slice{obj: id, off: 0, len: ol + n, cap: nc, es: el.n}
		st.putAt(id, ol*el.n, sb, str, n*el.n)
		return Value{x: &r}
	}
	r = *s
	r.len += n
	st.putAt(s.obj, s.off+s.len*s.es, sb, str, n*el.n)
	return Value{x: &r}
}

func (st *State) putAt(dst uint32, off int, sb *Slice, str *Str, cells int) {
	if sb != nil {
		st.copyCells(dst, off, sb.obj, sb.off, cells)
		return
	}
	if str == nil {
		return
	}
	o := st.h.own(dst)
	if st.thread != 0 {
		st.noteAccess(dst, o, off, cells, true)
	}
	for i := 0; i < cells; i++ {
		st.setCell(o, off+i, str.at(i))
	}
}

func (st *State) typeAssert(v Value, in *instr) Value {
	i, _ := v.x.(*Iface)
	ok := false
	if i != nil {
		if in.lay.kind == kIface {
			ok = implements(i.rt, in.aux.(*types.Interface))
		} else {
			ok = i.rt == in.aux.(*RType)
		}
	}
	var r Value
	if ok {
		if in.lay.kind == kIface {
			r = v
		} else {
			r = i.v
		}
	}
	if in.flag {
		return Value{x: &Agg{[]Value{r, bv(ok)}}}
	}
	if !ok {
		st.rtPanic("interface conversion failed: not " + in.lay.t.String())
	}
	return r
}

type implKey struct {
	rt *RType
	it *types.Interface
}

var implCache sync.Map

func implements(rt *RType, it *types.Interface) bool {
	k := implKey{rt, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(rt.t, it)
	implCache.Store(k, r)
	return r
}

// ---- builtins

func (st *State) builtin(in *instr, ci *callInfo, args []Value) Value {
	switch ci.builtin {
	case "len":
		return mkv(uint64(st.lenOf(ci.argLay[0], args[0])))
	case "cap":
		if ci.argLay[0].kind == kSlice {
			if s := args[0].slice(); s != nil {
				return mkv(uint64(s.cap))
			}
			return Value{}
		}
		return mkv(uint64(st.lenOf(ci.argLay[0], args[0])))
	case "append":
		el := ci.argLay[0].elem
		if len(args) == 1 {
			return args[0]
		}
		return st.appendOp(args[0], el, args[1], ci.argLay[1].kind == kString)
	case "copy":
		d := args[0].slice()
		if d == nil {
			return Value{}
		}
		if ci.argLay[1].kind == kString {
			s := args[1].str()
			n := min(d.len, len(s.s))
			st.putAt(d.obj, d.off, nil, s, n)
			return mkv(uint64(n))
		}
		s := args[1].slice()
		if s == nil {
			return Value{}
		}
		n := min(d.len, s.len)
		st.copyCells(d.obj, d.off, s.obj, s.off, n*d.es)
		return mkv(uint64(n))
	case "delete":
		st.mapDelete(args[0], args[1], layoutOf(ci.argLay[0].t.Underlying().(*types.Map).Key()))
		return Value{}
	case "clear":
		if ci.argLay[0].kind == kMap {
			if args[0].n != 0 {
				st.h.own(ptrObj(args[0])).m = &mapObj{index: map[string]int{}}
			}
			return Value{}
		}
		if s := args[0].slice(); s != nil {
			o := st.h.own(s.obj)
			if st.thread != 0 {
				st.noteAccess(s.obj, o, s.off, s.len*s.es, true)
			}
			for i := 0; i < s.len*s.es; i++ {
				st.setCell(o, s.off+i, Value{})
			}
		}
		return Value{}
	case "min", "max":
		l := ci.argLay[0]
		r := args[0]
		for i, a := range args[1:] {
			_ = i
			x := instr{tok: token.LSS, lay: l, lay2: l}
			p, q := a, r
			if ci.builtin == "max" {
				p, q = r, a
			}
			var c Value
			if p.x == nil && q.x == nil && l.kind == kInt {
				c, _ = concBin(&x, p.n, q.n)
			} else {
				c = st.binop(&x, p, q)
			}
			if c.x == nil {
				if c.n != 0 {
					r = a
				}
			} else if l.kind == kInt {
				r = tv(Ite(c.x.(*Term), a.term(l.w), r.term(l.w)))
			} else if st.decideV(c) {
				r = a
			}
		}
		return r
	case "recover":
		f := st.top()
		n := len(st.panics)
		if f.kind != fkDeferPan || n == 0 || st.panics[n-1].recovered {
			return Value{}
		}
		st.panics[n-1].recovered = true
		return st.panics[n-1].v
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].x == nil && args[0].n == 0 {
			st.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return Value{}
	case "String":
		n := st.concretize(args[1], 64)
		if n == 0 {
			return Value{}
		}
		p := args[0]
		return strVal(strFromValues(st.sliceCells(&Slice{obj: ptrObj(p), off: ptrOff(p), len: int(n), cap: int(n), es: 1})))
	case "StringData":
		s := args[0].str()
		if len(s.s) == 0 {
			return Value{}
		}
		sl := st.bytesOf(s, len(s.s)).slice()
		return mkptr(sl.obj, 0)
	case "Slice":
		p := args[0]
		n := st.concretize(args[1], 64)
		if p.n == 0 {
			return Value{}
		}
		el := layoutOf(ci.argLay[0].t.Underlying().(*types.Pointer).Elem())
		return Value{x: &Slice{obj: ptrObj(p), off: ptrOff(p), len: int(n), cap: int(n), es: el.n}}
	case "SliceData":
		s := args[0].slice()
		if s == nil {
			return Value{}
		}
		return mkptr(s.obj, s.off)
	case "close", "real", "imag", "complex", "Add":
	}
	panic(engineErr("builtin %s", ci.builtin))
}

func (st *State) lenOf(l *Layout, v Value) int {
	switch l.kind {
	case kString:
		return len(v.str().s)
	case kSlice:
		if s := v.slice(); s != nil {
			return s.len
		}
		return 0
	case kMap:
		if v.n == 0 {
			return 0
		}
		o := st.h.get(ptrObj(v))
		if st.thread != 0 {
			st.noteAccess(ptrObj(v), o, 0, 1, false)
		}
		return o.m.live
	case kArray:
		return l.alen
	case kPtr:
		return layoutOf(l.t.Underlying().(*types.Pointer).Elem()).alen
	}
	panic(engineErr("len of %v", l.t))
}
