package main

// Translation of go/ssa functions to a compact register form.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iBin
	iLoad
	iStore
	iNotOp
	iNeg
	iXor
	iConvInt
	iConvOther
	iCopy // ChangeType, ChangeInterface etc.
	iExtract
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iStrIndex
	iMapLookup
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iRange
	iSlice
	iTypeAssert
	iCall
	iDefer
	iRunDefers
	iPanic
	iReturn
	iIf
	iJump
	iSliceToArr
	iSliceToArrPtr
	iUnsupported
	iGo
)

type instr struct {
	op   opcode
	tok  token.Token
	flag bool // commaOk etc.
	pure bool // may be executed inside a merged region
	dst  int32
	a    int32
	b    int32
	c    int32
	d    int32
	k    int
	lay  *Layout
	lay2 *Layout
	args []int32
	aux  any
	succ [2]*Block
	ssa  ssa.Instruction
	intr intrinsic
	ms   *mergeStat
}

type mergeStat struct{ tries, wins atomic.Int64 }

type phi struct {
	dst   int32
	edges []int32
	lay   *Layout
}

type Block struct {
	fn    *Fn
	idx   int
	phis  []phi
	ins   []instr
	preds []*ssa.BasicBlock
	pure  bool // all instructions pure and ending in If/Jump/Return
}

func (b *Block) predIndex(p *Block) int {
	for i, q := range b.preds {
		if q.Index == p.idx {
			return i
		}
	}
	panic("predIndex")
}

type Fn struct {
	name      string
	ssa       *ssa.Function
	once      sync.Once
	nreg      int
	nparam    int
	consts    []Value
	blocks    []*Block
	recover   *Block
	intr      intrinsic
	results   []*Layout
	entered   atomic.Bool
	instrs    int
	noBody    bool
	model     bool // of package vos
	repo      bool // of the repository
	free0     int
	recBlk    *Block
	regBlk    []*ssa.BasicBlock
	regLay    []*Layout
	mergeOnce sync.Once
	canMerge  bool
	pureIntr  bool
	unsup     string
}

var fnMu sync.Mutex
var fnTab = map[*ssa.Function]*Fn{}

func fnOf(f *ssa.Function) *Fn {
	fnMu.Lock()
	defer fnMu.Unlock()
	if x := fnTab[f]; x != nil {
		return x
	}
	x := &Fn{name: f.String(), ssa: f}
	x.intr, x.pureIntr = lookupIntrinsic(f)
	if x.intr == nil {
		if r := stubFor(f); r != nil {
			x.ssa = r
		}
	}
	path := fnPkg(x.ssa)
	x.model = path == vosPath
	x.repo = !x.model && (path == modPath || strings.HasPrefix(path, modPath+"/"))
	fnTab[f] = x
	return x
}

func (fn *Fn) prepare() {
	fn.once.Do(func() { fn.compile() })
}

type compiler struct {
	fn   *Fn
	regs map[ssa.Value]int32
	cidx map[string]int32
}

func (c *compiler) konst(v Value) int32 {
	c.fn.consts = append(c.fn.consts, v)
	return int32(^(len(c.fn.consts) - 1))
}

func constValue(k *ssa.Const) Value {
	if k.Value == nil {
		return Value{} // nil or zero
	}
	l := layoutOf(k.Type())
	switch l.kind {
	case kBool:
		return bv(constant.BoolVal(k.Value))
	case kInt:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkv(uint64(i) & mask(l.w))
		}
		u, _ := constant.Uint64Val(v)
		return mkv(u & mask(l.w))
	case kFloat:
		f, _ := constant.Float64Val(k.Value)
		if l.w == 32 {
			return mkv(math.Float64bits(float64(float32(f))))
		}
		return mkv(math.Float64bits(f))
	case kString:
		return strV(constant.StringVal(k.Value))
	case kComplex:
		return Value{}
	}
	panic(engineErr("constant of type %v", k.Type()))
}

func (c *compiler) opnd(v ssa.Value) int32 {
	switch v := v.(type) {
	case *ssa.Const:
		return c.konst(constValue(v))
	case *ssa.Function:
		return c.konst(Value{x: &Closure{fn: fnOf(v)}})
	case *ssa.Global:
		return c.konst(mkptr(globalObj(v), 0))
	case *ssa.Builtin:
		return c.konst(Value{})
	}
	r, ok := c.regs[v]
	if !ok {
		panic(engineErr("no register for %v in %s", v, c.fn.name))
	}
	return r
}

func (fn *Fn) compile() {
	f := fn.ssa
	if f.Blocks == nil || deniedFn(f) {
		fn.noBody = true
		return
	}
	c := &compiler{fn: fn, regs: map[ssa.Value]int32{}}
	n := int32(0)
	add := func(v ssa.Value) {
		c.regs[v] = n
		n++
	}
	for _, p := range f.Params {
		add(p)
	}
	fn.nparam = len(f.Params)
	fn.free0 = int(n)
	for _, p := range f.FreeVars {
		add(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fn.nreg = int(n)
	for i := 0; i < f.Signature.Results().Len(); i++ {
		fn.results = append(fn.results, layoutOf(f.Signature.Results().At(i).Type()))
	}
	fn.blocks = make([]*Block, len(f.Blocks))
	for i, b := range f.Blocks {
		fn.blocks[i] = &Block{fn: fn, idx: i, preds: b.Preds}
	}
	for i, b := range f.Blocks {
		c.block(fn.blocks[i], b)
	}
	if f.Recover != nil {
		for i, b := range f.Blocks {
			if b == f.Recover {
				fn.recover = fn.blocks[i]
			}
		}
		if fn.recover == nil {
			blk := &Block{fn: fn, idx: f.Recover.Index, preds: f.Recover.Preds}
			for _, in := range f.Recover.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if _, ok := c.regs[v]; !ok {
						add(v)
					}
				}
			}
			fn.nreg = int(n)
			c.block(blk, f.Recover)
			fn.recover = blk
		}
	}
	for _, b := range fn.blocks {
		fn.instrs += len(b.ins)
	}
}

func (c *compiler) block(out *Block, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Phi:
			p := phi{dst: c.regs[in], lay: layoutOf(in.Type())}
			for _, e := range in.Edges {
				p.edges = append(p.edges, c.opnd(e))
			}
			out.phis = append(out.phis, p)
			continue
		}
		out.ins = append(out.ins, c.instr(in, b))
	}
	out.pure = true
	for i := range out.ins {
		x := &out.ins[i]
		if !x.pure {
			out.pure = false
		}
	}
}

func (c *compiler) instr(in ssa.Instruction, b *ssa.BasicBlock) (r instr) {
	r.ssa = in
	r.dst = -1
	if v, ok := in.(ssa.Value); ok {
		r.dst = c.regs[v]
	}
	defer func() {
		if e := recover(); e != nil {
			if ee, ok := e.(*engineError); ok {
				r.op = iUnsupported
				r.aux = ee.msg
				r.pure = false
				return
			}
			panic(e)
		}
	}()
	fn := c.fn
	switch in := in.(type) {
	case *ssa.Alloc:
		r.op = iAlloc
		r.lay = layoutOf(in.Type().Underlying().(*types.Pointer).Elem())
		r.flag = in.Heap
	case *ssa.BinOp:
		r.op = iBin
		r.tok = in.Op
		r.a, r.b = c.opnd(in.X), c.opnd(in.Y)
		r.lay = layoutOf(in.X.Type())
		r.lay2 = layoutOf(in.Y.Type())
		if isNilConst(in.X) && !isNilConst(in.Y) {
			r.lay = r.lay2
		}
		r.pure = r.lay.kind == kInt || r.lay.kind == kBool || r.lay.kind == kString || r.lay.kind == kPtr || r.lay.kind == kSlice || r.lay.kind == kMap || r.lay.kind == kFunc
	case *ssa.UnOp:
		r.a = c.opnd(in.X)
		switch in.Op {
		case token.MUL:
			r.op = iLoad
			r.lay = layoutOf(in.Type())
			r.pure = r.lay.n == 1
		case token.NOT:
			r.op = iNotOp
			r.pure = true
		case token.SUB:
			r.op = iNeg
			r.lay = layoutOf(in.Type())
			r.pure = true
		case token.XOR:
			r.op = iXor
			r.lay = layoutOf(in.Type())
			r.pure = true
		default:
			panic(engineErr("unop %v", in.Op))
		}
	case *ssa.Call:
		r.op = iCall
		c.call(&r, &in.Call)
	case *ssa.Defer:
		r.op = iDefer
		c.call(&r, &in.Call)
	case *ssa.Go:
		r.op = iGo
		c.call(&r, &in.Call)
	case *ssa.ChangeInterface:
		r.op = iCopy
		r.a = c.opnd(in.X)
		r.pure = true
	case *ssa.ChangeType:
		r.op = iCopy
		r.a = c.opnd(in.X)
		r.pure = true
	case *ssa.Convert:
		r.a = c.opnd(in.X)
		r.lay = layoutOf(in.Type())
		r.lay2 = layoutOf(in.X.Type())
		if (r.lay.kind == kInt) && (r.lay2.kind == kInt) {
			r.op = iConvInt
			r.pure = true
		} else {
			r.op = iConvOther
		}
	case *ssa.MultiConvert:
		r.a = c.opnd(in.X)
		r.lay = layoutOf(in.Type())
		r.lay2 = layoutOf(in.X.Type())
		r.op = iConvOther
	case *ssa.SliceToArrayPointer:
		r.op = iSliceToArrPtr
		r.a = c.opnd(in.X)
		r.lay = layoutOf(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Extract:
		r.op = iExtract
		r.a = c.opnd(in.Tuple)
		r.k = in.Index
		r.pure = true
	case *ssa.Field:
		r.op = iField
		r.a = c.opnd(in.X)
		l := layoutOf(in.X.Type())
		r.k = l.offs[in.Field]
		r.lay = l.fields[in.Field]
		r.lay2 = l
		r.pure = true
	case *ssa.FieldAddr:
		r.op = iFieldAddr
		r.a = c.opnd(in.X)
		l := layoutOf(in.X.Type().Underlying().(*types.Pointer).Elem())
		r.k = l.offs[in.Field]
		r.pure = true
	case *ssa.Index:
		r.a = c.opnd(in.X)
		r.b = c.opnd(in.Index)
		r.lay = layoutOf(in.X.Type())
		r.lay2 = layoutOf(in.Index.Type())
		if r.lay.kind == kString {
			r.op = iStrIndex
		} else {
			r.op = iIndex
		}
		r.pure = true
	case *ssa.IndexAddr:
		r.op = iIndexAddr
		r.a = c.opnd(in.X)
		r.b = c.opnd(in.Index)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			r.lay = layoutOf(t.Elem())
		case *types.Pointer:
			r.flag = true // array pointer
			at := layoutOf(t.Elem())
			r.lay = at.elem
			r.k = at.alen
		}
		r.lay2 = layoutOf(in.Index.Type())
		r.pure = true
	case *ssa.Lookup:
		r.a = c.opnd(in.X)
		r.b = c.opnd(in.Index)
		r.flag = in.CommaOk
		l := layoutOf(in.X.Type())
		if l.kind == kString {
			r.op = iStrIndex
			r.lay = l
			r.lay2 = layoutOf(in.Index.Type())
			r.pure = true
		} else {
			r.op = iMapLookup
			mt := in.X.Type().Underlying().(*types.Map)
			r.lay = layoutOf(mt.Key())
			r.lay2 = layoutOf(mt.Elem())
		}
	case *ssa.MakeClosure:
		r.op = iMakeClosure
		r.aux = fnOf(in.Fn.(*ssa.Function))
		for _, x := range in.Bindings {
			r.args = append(r.args, c.opnd(x))
		}
	case *ssa.MakeInterface:
		r.op = iMakeInterface
		r.a = c.opnd(in.X)
		r.aux = rtypeOf(in.X.Type())
	case *ssa.MakeMap:
		r.op = iMakeMap
		r.lay = layoutOf(in.Type())
	case *ssa.MakeSlice:
		r.op = iMakeSlice
		r.a = c.opnd(in.Len)
		r.b = c.opnd(in.Cap)
		r.lay = layoutOf(in.Type().Underlying().(*types.Slice).Elem())
		r.lay2 = layoutOf(in.Len.Type())
	case *ssa.MapUpdate:
		r.op = iMapUpdate
		r.a, r.b, r.c = c.opnd(in.Map), c.opnd(in.Key), c.opnd(in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		r.lay = layoutOf(mt.Key())
		r.lay2 = layoutOf(mt.Elem())
	case *ssa.Range:
		r.op = iRange
		r.a = c.opnd(in.X)
		r.lay = layoutOf(in.X.Type())
	case *ssa.Next:
		r.op = iNext
		r.a = c.opnd(in.Iter)
		r.flag = in.IsString
		if !in.IsString {
			mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			r.lay = layoutOf(mt.Key())
			r.lay2 = layoutOf(mt.Elem())
		}
	case *ssa.Slice:
		r.op = iSlice
		r.a = c.opnd(in.X)
		none := int32(math.MaxInt32)
		r.b, r.c, r.d = none, none, none
		if in.Low != nil {
			r.b = c.opnd(in.Low)
		}
		if in.High != nil {
			r.c = c.opnd(in.High)
		}
		if in.Max != nil {
			r.d = c.opnd(in.Max)
		}
		l := layoutOf(in.X.Type())
		r.lay = l
		if l.kind == kPtr {
			r.lay2 = layoutOf(in.X.Type().Underlying().(*types.Pointer).Elem())
		}
	case *ssa.TypeAssert:
		r.op = iTypeAssert
		r.a = c.opnd(in.X)
		r.flag = in.CommaOk
		r.lay = layoutOf(in.AssertedType)
		if r.lay.kind == kIface {
			r.aux = in.AssertedType.Underlying().(*types.Interface)
		} else {
			r.aux = rtypeOf(in.AssertedType)
		}
	case *ssa.RunDefers:
		r.op = iRunDefers
	case *ssa.Panic:
		r.op = iPanic
		r.a = c.opnd(in.X)
	case *ssa.Return:
		r.op = iReturn
		for _, x := range in.Results {
			r.args = append(r.args, c.opnd(x))
		}
		r.pure = true
	case *ssa.If:
		r.op = iIf
		r.ms = &mergeStat{}
		r.a = c.opnd(in.Cond)
		r.succ[0] = fn.blk(b.Succs[0])
		r.succ[1] = fn.blk(b.Succs[1])
		r.pure = true
	case *ssa.Jump:
		r.op = iJump
		r.succ[0] = fn.blk(b.Succs[0])
		r.pure = true
	case *ssa.Store:
		r.op = iStore
		r.a = c.opnd(in.Addr)
		r.b = c.opnd(in.Val)
		r.lay = layoutOf(in.Val.Type())
	default:
		panic(engineErr("instruction %T", in))
	}
	return
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (fn *Fn) blk(b *ssa.BasicBlock) *Block {
	return fn.blocks[b.Index]
}

// callInfo describes a call site.
type callInfo struct {
	fn      *Fn         // static callee
	builtin string      // builtin name
	method  *types.Func // interface method
	argLay  []*Layout
	sig     *types.Signature
}

func (c *compiler) call(r *instr, cc *ssa.CallCommon) {
	ci := &callInfo{sig: cc.Signature()}
	r.aux = ci
	if cc.IsInvoke() {
		ci.method = cc.Method
		r.a = c.opnd(cc.Value)
	} else {
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			ci.builtin = v.Name()
			for _, a := range cc.Args {
				ci.argLay = append(ci.argLay, layoutOf(a.Type()))
			}
			if in, ok := r.ssa.(ssa.Value); ok {
				if t, ok := in.Type().(*types.Tuple); !ok || t.Len() > 0 {
					r.lay = layoutOf(in.Type())
				}
			}
			switch ci.builtin {
			case "len", "cap":
				r.pure = true
			case "min", "max":
				r.pure = ci.argLay[0].kind == kInt
			}
		case *ssa.Function:
			ci.fn = fnOf(v)
		default:
			r.a = c.opnd(v)
		}
	}
	for _, a := range cc.Args {
		r.args = append(r.args, c.opnd(a))
	}
}

// ---- stub redirection and globals

var globalMu sync.Mutex
var globalIDs = map[*ssa.Global]uint32{}
var globalList []*ssa.Global

func globalObj(g *ssa.Global) uint32 {
	globalMu.Lock()
	defer globalMu.Unlock()
	id, ok := globalIDs[g]
	if !ok {
		panic(engineErr("unknown global %v", g))
	}
	return id
}

func posOf(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		if in.Parent() != nil {
			return in.Parent().String()
		}
		return "?"
	}
	q := prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
