package main

// If-conversion: acyclic regions of pure code are executed on both sides of a
// symbolic branch, and the results joined with ite, instead of forking.

import (
	"golang.org/x/tools/go/ssa"
)

var noMerge = false

const (
	maxRegionIns   = 600
	maxRegionExits = 24
)

type mexit struct {
	blk   *Block
	pc    int
	guard *Term
	regs  []Value
	ret   Value
	isRet bool
}

type merger struct {
	st    *State
	fn    *Fn
	exits []mexit
	ins   int
	call  bool // merging a whole function: every exit must be a return
	depth int
	fail  bool
}

// regBlocks gives the defining SSA block of every register (nil for parameters).
func (fn *Fn) regBlocks() []*ssa.BasicBlock {
	fnMu.Lock()
	defer fnMu.Unlock()
	if fn.regBlk == nil {
		fn.regBlk = make([]*ssa.BasicBlock, fn.nreg)
		for i, b := range fn.blocks {
			for _, p := range b.phis {
				fn.regBlk[p.dst] = fn.ssa.Blocks[i]
			}
			for k := range b.ins {
				if d := b.ins[k].dst; d >= 0 {
					fn.regBlk[d] = fn.ssa.Blocks[i]
				}
			}
		}
	}
	return fn.regBlk
}

// explore runs from (blk,pc) under guard.
func (m *merger) explore(f *Frame, onPath []*Block, guard *Term) {
	for {
		if m.fail {
			return
		}
		stopPC, next := m.runBlock(f, onPath, guard)
		if next == nil {
			if stopPC >= 0 {
				m.exit(mexit{blk: f.blk, pc: stopPC, guard: guard, regs: f.regs})
			}
			return
		}
		to := next
		for _, b := range onPath {
			if b == to {
				// back edge: stop before taking it
				m.exit(mexit{blk: f.blk, pc: f.pc, guard: guard, regs: f.regs})
				return
			}
		}
		m.st.enter(f, to)
		onPath = append(onPath[:len(onPath):len(onPath)], to)
	}
}

func (m *merger) exit(e mexit) {
	if m.call && !e.isRet {
		m.fail = true
		return
	}
	m.exits = append(m.exits, e)
	if len(m.exits) > maxRegionExits {
		m.fail = true
	}
}

// runBlock executes pure instructions of the current block. It returns the pc to stop at,
// or the block to enter next; (-1, nil) when everything was handled by recursion.
func (m *merger) runBlock(f *Frame, onPath []*Block, guard *Term) (stop int, next *Block) {
	st := m.st
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(mergeAbort); ok {
				stop, next = f.pc, nil
				return
			}
			panic(e)
		}
	}()
	for {
		in := &f.blk.ins[f.pc]
		if m.ins++; m.ins > maxRegionIns {
			return f.pc, nil
		}
		switch in.op {
		case iJump:
			return -1, in.succ[0]
		case iIf:
			c := f.get(in.a)
			if c.x == nil {
				return -1, in.succ[1-c.n&1]
			}
			t := c.x.(*Term)
			if v, ok := st.implied(t); ok {
				return -1, in.succ[1-b2u(v)]
			}
			if m.depth >= 16 {
				return f.pc, nil
			}
			m.branch(f, in, onPath, guard, t)
			return -1, nil
		case iReturn:
			if !m.call {
				return f.pc, nil
			}
			var v Value
			if len(in.args) == 1 {
				v = f.get(in.args[0])
			} else if len(in.args) > 1 {
				c := make([]Value, len(in.args))
				for i, a := range in.args {
					c[i] = f.get(a)
				}
				v = Value{x: &Agg{c}}
			}
			m.exit(mexit{guard: guard, ret: v, isRet: true})
			return -1, nil
		case iCall:
			ci := in.aux.(*callInfo)
			if ci.builtin != "" {
				if !in.pure {
					return f.pc, nil
				}
				args := make([]Value, len(in.args))
				for i, a := range in.args {
					args[i] = f.get(a)
				}
				v := st.builtin(in, ci, args)
				if in.dst >= 0 {
					f.regs[in.dst] = v
				}
				f.pc++
				continue
			}
			if ci.fn == nil {
				return f.pc, nil
			}
			args := make([]Value, len(in.args))
			for i, a := range in.args {
				args[i] = f.get(a)
			}
			if ci.fn.intr != nil {
				if !ci.fn.pureIntr {
					return f.pc, nil
				}
				c := icall{in: in, fn: ci.fn, args: args, dst: in.dst}
				f.regs[in.dst] = ci.fn.intr(st, &c)
				f.pc++
				continue
			}
			if !ci.fn.mergeable() {
				return f.pc, nil
			}
			v, ok := st.mergeCallN(ci.fn, args, m)
			if !ok {
				return f.pc, nil
			}
			if in.dst >= 0 {
				f.regs[in.dst] = v
			}
			f.pc++
			continue
		}
		if !in.pure {
			return f.pc, nil
		}
		v := st.eval(f, in)
		if in.dst >= 0 {
			f.regs[in.dst] = v
		}
		f.pc++
	}
}

func (m *merger) branch(f *Frame, in *instr, onPath []*Block, guard, t *Term) {
	m.depth++
	defer func() { m.depth-- }()
	for k := 0; k < 2; k++ {
		g := And(guard, cond(k == 0, t))
		if g == FalseT {
			continue
		}
		to := in.succ[k]
		back := false
		for _, b := range onPath {
			if b == to {
				back = true
			}
		}
		f2 := &Frame{fn: f.fn, regs: append([]Value(nil), f.regs...), blk: f.blk, pc: f.pc}
		m.st.enter(f2, to)
		if back {
			// entering a block already on the path: stop right at its first instruction
			m.exit(mexit{blk: to, pc: 0, guard: g, regs: f2.regs})
			continue
		}
		m.explore(f2, append(onPath[:len(onPath):len(onPath)], to), g)
		if m.fail {
			return
		}
	}
}

// mergeVals joins a and b; ok is false if they cannot be joined.
func mergeVals(c *Term, a, b Value) (Value, bool) {
	if sameValue(a, b) {
		return a, true
	}
	ta, oka := a.x.(*Term)
	tb, okb := b.x.(*Term)
	switch {
	case oka && okb:
		if ta.w != tb.w {
			return Value{}, false
		}
		return tv(Ite(c, ta, tb)), true
	case oka && b.x == nil:
		return tv(Ite(c, ta, Const(ta.w, b.n))), true
	case okb && a.x == nil:
		return tv(Ite(c, Const(tb.w, a.n), tb)), true
	}
	return Value{}, false
}

// mergeLay joins values of a known layout.
func mergeLay(c *Term, a, b Value, l *Layout) (Value, bool) {
	if l != nil && (l.kind == kInt || l.kind == kBool) {
		if sameValue(a, b) {
			return a, true
		}
		return tv(Ite(c, a.term(l.w), b.term(l.w))), true
	}
	if l != nil && l.kind == kString {
		sa, sb := a.str(), b.str()
		if len(sa.s) == len(sb.s) && len(sa.s) <= 64 {
			vs := make([]Value, len(sa.s))
			for i := range vs {
				x, y := sa.at(i), sb.at(i)
				if sameValue(x, y) {
					vs[i] = x
				} else {
					vs[i] = tv(Ite(c, x.term(8), y.term(8)))
				}
			}
			return strVal(strFromValues(vs)), true
		}
	}
	return mergeVals(c, a, b)
}

func (fn *Fn) regLayouts() []*Layout {
	fnMu.Lock()
	defer fnMu.Unlock()
	if fn.regLay == nil {
		ls := make([]*Layout, fn.nreg)
		for i, b := range fn.ssa.Blocks {
			if i >= len(fn.blocks) {
				break
			}
			pi, ii := 0, 0
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.DebugRef:
				case *ssa.Phi:
					ls[fn.blocks[i].phis[pi].dst] = fn.blocks[i].phis[pi].lay
					pi++
				default:
					if v, ok := x.(ssa.Value); ok {
						if d := fn.blocks[i].ins[ii].dst; d >= 0 {
							func() {
								defer func() { recover() }()
								ls[d] = layoutOf(v.Type())
							}()
						}
					}
					ii++
				}
			}
		}
		fn.regLay = ls
	}
	return fn.regLay
}

// mergeIf handles a symbolic If at the top frame. It reports whether it made progress.
func (st *State) mergeIf(f *Frame, in *instr, t *Term) bool {
	if st.thread != 0 {
		return false // every access is to be recorded
	}
	m := &merger{st: st, fn: f.fn}
	// cheap pre-check: both successors start with an impure instruction and there is nothing to gain
	tries, wins := in.ms.tries.Load(), in.ms.wins.Load()
	if tries > 200 && wins*20 < tries && tries%64 != 0 {
		in.ms.tries.Add(1)
		return false
	}
	in.ms.tries.Add(1)
	st.merge++
	g := &Frame{fn: f.fn, regs: f.regs, blk: f.blk, pc: f.pc}
	func() {
		defer func() { st.merge-- }()
		m.branch(g, in, []*Block{f.blk}, TrueT, t)
	}()
	if m.fail || len(m.exits) == 0 {
		return false
	}
	// group by location
	type grp struct {
		blk   *Block
		pc    int
		ex    []mexit
		guard *Term
	}
	var gs []*grp
	for _, e := range m.exits {
		var x *grp
		for _, q := range gs {
			if q.blk == e.blk && q.pc == e.pc {
				x = q
			}
		}
		if x == nil {
			x = &grp{blk: e.blk, pc: e.pc, guard: FalseT}
			gs = append(gs, x)
		}
		x.ex = append(x.ex, e)
		x.guard = Or(x.guard, e.guard)
	}
	if len(gs) == len(m.exits) && len(gs) == 2 {
		return false // nothing merged; plain fork is the same
	}
	// check mergeability first
	type merged struct {
		regs []Value
	}
	var outs []merged
	rb := f.fn.regBlocks()
	rl := f.fn.regLayouts()
	for _, q := range gs {
		regs := q.ex[len(q.ex)-1].regs
		if len(q.ex) > 1 {
			regs = append([]Value(nil), regs...)
			tb := f.fn.ssa.Blocks[q.blk.idx]
			for k := len(q.ex) - 2; k >= 0; k-- {
				e := q.ex[k]
				for r := range regs {
					if sameValue(regs[r], e.regs[r]) {
						continue
					}
					if b := rb[r]; b != nil && b != tb && !b.Dominates(tb) {
						regs[r] = Value{}
						continue
					}
					v, ok := mergeLay(e.guard, e.regs[r], regs[r], rl[r])
					if !ok {
						return false
					}
					regs[r] = v
				}
			}
		}
		outs = append(outs, merged{regs})
	}
	in.ms.wins.Add(1)
	statMerges.Add(int64(len(m.exits) - len(gs)))
	pick := len(gs) - 1
	for i := 0; i < len(gs)-1; i++ {
		if st.decide(gs[i].guard) {
			pick = i
			break
		}
	}
	f.regs = outs[pick].regs
	f.blk = gs[pick].blk
	f.pc = gs[pick].pc
	return true
}

// mergeable reports whether fn is a small pure acyclic function with scalar results.
func (fn *Fn) mergeable() bool {
	fn.mergeOnce.Do(func() {
		fn.prepare()
		if fn.noBody || len(fn.results) == 0 || len(fn.blocks) > 40 || fn.recover != nil {
			return
		}
		for _, r := range fn.results {
			if r.kind != kInt && r.kind != kBool {
				return
			}
		}
		n := 0
		for _, b := range fn.blocks {
			n += len(b.ins)
			for i := range b.ins {
				in := &b.ins[i]
				if in.op == iCall {
					ci := in.aux.(*callInfo)
					if ci.builtin != "" && !in.pure {
						return
					}
					if ci.builtin == "" && ci.fn == nil {
						return
					}
					if ci.fn == fn {
						return
					}
					continue
				}
				if !in.pure {
					return
				}
			}
		}
		if n > 120 || len(fn.blocks) < 2 {
			return
		}
		// acyclic
		state := make([]int, len(fn.blocks))
		var dfs func(b *ssa.BasicBlock) bool
		dfs = func(b *ssa.BasicBlock) bool {
			state[b.Index] = 1
			for _, s := range b.Succs {
				if state[s.Index] == 1 || state[s.Index] == 0 && !dfs(s) {
					return false
				}
			}
			state[b.Index] = 2
			return true
		}
		fn.canMerge = dfs(fn.ssa.Blocks[0])
	})
	return fn.canMerge
}

func (st *State) mergeCall(fn *Fn, args []Value) (Value, bool) {
	if st.thread != 0 {
		return Value{}, false
	}
	st.merge++
	defer func() { st.merge-- }()
	return st.mergeCallN(fn, args, &merger{st: st})
}

func (st *State) mergeCallN(fn *Fn, args []Value, parent *merger) (Value, bool) {
	if parent.depth > 20 {
		return Value{}, false
	}
	m := &merger{st: st, fn: fn, call: true, depth: parent.depth + 4, ins: parent.ins}
	f := &Frame{fn: fn, regs: make([]Value, fn.nreg), blk: fn.blocks[0]}
	copy(f.regs, args)
	// the frame must be visible for error positions only; not pushed
	m.explore(f, []*Block{f.blk}, TrueT)
	parent.ins = m.ins
	if m.fail || len(m.exits) == 0 {
		return Value{}, false
	}
	r := m.exits[len(m.exits)-1].ret
	for k := len(m.exits) - 2; k >= 0; k-- {
		e := m.exits[k]
		if len(fn.results) == 1 {
			v, ok := mergeLay(e.guard, e.ret, r, fn.results[0])
			if !ok {
				return Value{}, false
			}
			r = v
			continue
		}
		ra, ea := r.x.(*Agg), e.ret.x.(*Agg)
		c := make([]Value, len(ra.c))
		for i := range c {
			v, ok := mergeLay(e.guard, ea.c[i], ra.c[i], fn.results[i])
			if !ok {
				return Value{}, false
			}
			c[i] = v
		}
		r = Value{x: &Agg{c}}
	}
	fn.entered.Store(true)
	return r, true
}
