package main

// Intrinsics: functions the engine implements itself, and the vsym interface
// through which harnesses declare inputs and state properties.

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/google/codesearch"
const vsymPath = modPath + "/internal/vsym"
const vosPath = modPath + "/internal/vos"

func fnPkg(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Parent() != nil {
		return fnPkg(f.Parent())
	}
	return ""
}

func recvName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	sig := f.Signature
	if sig.Recv() == nil {
		return ""
	}
	t := sig.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}

// fnKey names a function as pkg.Func or pkg.Type.Method.
func fnKey(f *ssa.Function) string {
	k := fnPkg(f) + "."
	if r := recvName(f); r != "" {
		k += r + "."
	}
	n := f.Name()
	if o := f.Origin(); o != nil {
		n = o.Name()
	}
	return k + n
}

var stubs = map[string]*ssa.Function{}

func stubFor(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance") {
		return nil
	}
	if f.Parent() != nil {
		return nil
	}
	p := fnPkg(f)
	if p == vosPath {
		return nil
	}
	k := "S_" + strings.ReplaceAll(p, "/", "_")
	if p == vsymPath {
		k = "S_vsym"
	}
	if r := recvName(f); r != "" {
		k += "_" + r
	}
	return stubs[k+"_"+f.Name()]
}

var denied = map[string]bool{"runtime": true, "reflect": true, "syscall": true, "internal/poll": true, "net": true,
	"internal/syscall/unix": true, "os/exec": true, "internal/reflectlite": true, "runtime/pprof": true, "os/signal": true}

func deniedFn(f *ssa.Function) bool {
	p := fnPkg(f)
	if !denied[p] {
		return false
	}
	k := fnKey(f)
	return !allowed[k]
}

var allowed = map[string]bool{"runtime.errorString.Error": true, "runtime.errorString.RuntimeError": true,
	"reflect.TypeFor": false, "syscall.Errno.Is": true}

// initPkgs are the packages whose initialisers are executed.
var initPkgs = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`regexp/syntax unicode unicode/utf8 unicode/utf16 strconv strings bytes errors io html sort
		bufio io/fs internal/oserror flag fmt internal/bytealg slices cmp maps path path/filepath internal/filepathlite
		math math/bits archive/zip hash hash/crc32 encoding/binary encoding encoding/hex regexp bytes iter unique internal/stringslite internal/strconv
		net/url internal/byteorder log compress/flate html/template text/template internal/testlog internal/bisect_no
		github.com/google/codesearch/internal/vos github.com/google/codesearch/internal/vsym sync internal/race syscall_no container/heap container/list text/tabwriter net/http/internal net/textproto_no`) {
		initPkgs[p] = true
	}
	delete(initPkgs, "html/template")
	delete(initPkgs, "text/template")
	delete(initPkgs, "log")
	delete(initPkgs, "errors")
}

func wantInit(path string) bool {
	return initPkgs[path] || path == modPath || strings.HasPrefix(path, modPath+"/")
}

// ---- table

var intrinsics = map[string]intrinsic{}
var pureIntrinsics = map[string]bool{}

func lookupIntrinsic(f *ssa.Function) (intrinsic, bool) {
	p := fnPkg(f)
	if f.Name() == "init" && f.Synthetic == "package initializer" && !wantInit(p) {
		return func(st *State, c *icall) Value { return Value{} }, false
	}
	if f.Parent() != nil {
		return nil, false
	}
	k := fnKey(f)
	if p == vsymPath {
		k = "vsym." + strings.TrimPrefix(k, vsymPath+".")
		if i := intrinsics[k]; i != nil {
			return i, pureIntrinsics[k]
		}
		return nil, false
	}
	if p == "sync/atomic" || p == "internal/runtime/atomic" {
		if i := atomicIntr(f); i != nil {
			return i, false
		}
	}
	return intrinsics[k], pureIntrinsics[k]
}

func atomicIntr(f *ssa.Function) intrinsic {
	if recvName(f) != "" {
		return nil
	}
	n := f.Name()
	sig := f.Signature
	if sig.Params().Len() == 0 {
		return nil
	}
	pt, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	l := layoutOf(pt.Elem())
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(st *State, c *icall) Value {
			defer st.atomic(c.args[0], 2)()
			return st.load(c.args[0], l)
		}
	case strings.HasPrefix(n, "Store"):
		return func(st *State, c *icall) Value {
			defer st.atomic(c.args[0], 1)()
			st.store(c.args[0], c.args[1], l)
			return Value{}
		}
	case strings.HasPrefix(n, "Add"):
		return func(st *State, c *icall) Value {
			defer st.atomic(c.args[0], 0)()
			v := tv(Bin(OpAdd, st.load(c.args[0], l).term(l.w), c.args[1].term(l.w)))
			st.store(c.args[0], v, l)
			return v
		}
	case strings.HasPrefix(n, "Swap"):
		return func(st *State, c *icall) Value {
			defer st.atomic(c.args[0], 3)()
			v := st.load(c.args[0], l)
			st.store(c.args[0], c.args[1], l)
			return v
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(st *State, c *icall) Value {
			defer st.atomic(c.args[0], 3)()
			v := st.load(c.args[0], l)
			if st.decide(st.valueEq(l, v, c.args[1])) {
				st.store(c.args[0], c.args[2], l)
				return mkv(1)
			}
			return Value{}
		}
	}
	return nil
}

// atomic begins an atomic operation, which acquires (2), releases (1) or both.
func (st *State) atomic(p Value, kind uint8) func() {
	if st.thread == 0 || p.x != nil {
		return func() {}
	}
	if kind&2 != 0 {
		st.syncPoint(p.n, 2)
	}
	st.inAtomic = true
	return func() {
		st.inAtomic = false
		if kind&1 != 0 {
			st.syncPoint(p.n, 1)
		}
	}
}

func nop(st *State, c *icall) Value { return Value{} }

func reg(k string, f intrinsic)  { intrinsics[k] = f }
func regP(k string, f intrinsic) { intrinsics[k] = f; pureIntrinsics[k] = true }

func intTerm(v Value) *Term { return v.term(64) }

func strOrBytes(st *State, v Value) *Str {
	switch x := v.x.(type) {
	case nil:
		return emptyStr
	case *Str:
		return x
	case *Slice:
		return strFromValues(st.sliceCells(x))
	}
	panic(engineErr("string or bytes expected, got %T", v.x))
}

func strBytes(v Value) []byte { return []byte(v.str().s) }

// firstMatch decides the first index where the byte equals c.
func firstByte(st *State, s *Str, c Value) int {
	if s.t == nil && c.x == nil {
		return strings.IndexByte(s.s, byte(c.n))
	}
	ct := c.term(8)
	for i := range len(s.s) {
		if st.decide(Eq(s.at(i).term(8), ct)) {
			return i
		}
	}
	return -1
}

func lastByte(st *State, s *Str, c Value) int {
	if s.t == nil && c.x == nil {
		return strings.LastIndexByte(s.s, byte(c.n))
	}
	ct := c.term(8)
	for i := len(s.s) - 1; i >= 0; i-- {
		if st.decide(Eq(s.at(i).term(8), ct)) {
			return i
		}
	}
	return -1
}

// firstOf and lastOf look at long slices in pieces.
func firstOf(st *State, v, c Value) int {
	x, ok := v.x.(*Slice)
	if !ok || x.len <= 512 {
		return firstByte(st, strOrBytes(st, v), c)
	}
	for i := 0; i < x.len; i += 256 {
		y := *x
		y.off += i
		y.len = min(256, x.len-i)
		if k := firstByte(st, strFromValues(st.sliceCells(&y)), c); k >= 0 {
			return i + k
		}
	}
	return -1
}

func lastOf(st *State, v, c Value) int {
	x, ok := v.x.(*Slice)
	if !ok || x.len <= 512 {
		return lastByte(st, strOrBytes(st, v), c)
	}
	for n := x.len; n > 0; n -= 256 {
		y := *x
		lo := max(0, n-256)
		y.off += lo
		y.len = n - lo
		if k := lastByte(st, strFromValues(st.sliceCells(&y)), c); k >= 0 {
			return lo + k
		}
	}
	return -1
}

func indexStr(st *State, s, sub *Str) int {
	if s.t == nil && sub.t == nil {
		return strings.Index(s.s, sub.s)
	}
	for i := 0; i+len(sub.s) <= len(s.s); i++ {
		if st.decide(strEq(s.sub(i, i+len(sub.s)), sub)) {
			return i
		}
	}
	return -1
}

func countByte(s *Str, c Value) Value {
	if s.t == nil && c.x == nil {
		return mkv(uint64(bytes.Count([]byte(s.s), []byte{byte(c.n)})))
	}
	ct := c.term(8)
	r := Const(64, 0)
	for i := range len(s.s) {
		r = Bin(OpAdd, r, Ite(Eq(s.at(i).term(8), ct), Const(64, 1), Const(64, 0)))
	}
	return tv(r)
}

func ival(i int) Value { return mkv(uint64(int64(i))) }

func cmpStr(a, b *Str) Value {
	if a.t == nil && b.t == nil {
		return ival(strings.Compare(a.s, b.s))
	}
	return tv(Ite(strEq(a, b), Const(64, 0), Ite(strLess(a, b), Const(64, ^uint64(0)), Const(64, 1))))
}

func init() {
	b := "internal/bytealg."
	for _, n := range []string{"IndexByte", "IndexByteString"} {
		reg(b+n, func(st *State, c *icall) Value { return ival(firstOf(st, c.args[0], c.args[1])) })
	}
	for _, n := range []string{"LastIndexByte", "LastIndexByteString"} {
		reg(b+n, func(st *State, c *icall) Value { return ival(lastOf(st, c.args[0], c.args[1])) })
	}
	for _, n := range []string{"Index", "IndexString"} {
		reg(b+n, func(st *State, c *icall) Value {
			return ival(indexStr(st, strOrBytes(st, c.args[0]), strOrBytes(st, c.args[1])))
		})
	}
	for _, n := range []string{"Count", "CountString"} {
		regP(b+n, func(st *State, c *icall) Value { return countByte(strOrBytes(st, c.args[0]), c.args[1]) })
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		regP(n, func(st *State, c *icall) Value {
			return tv(strEq(strOrBytes(st, c.args[0]), strOrBytes(st, c.args[1])))
		})
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare"} {
		regP(n, func(st *State, c *icall) Value { return cmpStr(strOrBytes(st, c.args[0]), strOrBytes(st, c.args[1])) })
	}
	// bytes.Index and strings.Index: the library's search strategy is not what is being checked
	for _, n := range []string{"bytes.Index", "strings.Index", "internal/stringslite.Index"} {
		reg(n, func(st *State, c *icall) Value {
			return ival(indexStr(st, strOrBytes(st, c.args[0]), strOrBytes(st, c.args[1])))
		})
	}
	for _, n := range []string{"bytes.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, func(st *State, c *icall) Value { return ival(firstOf(st, c.args[0], c.args[1])) })
	}
	reg(b+"MakeNoZero", func(st *State, c *icall) Value {
		n := int(st.concretize(c.args[0], 64))
		return st.makeSlice(layoutOf(types.Typ[types.Uint8]), n, roundupsize(n)).withLen(n)
	})
	reg("sort.pdqsort_func", nil)
	delete(intrinsics, "sort.pdqsort_func")
	for _, n := range []string{"sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock"} {
		shared := strings.HasSuffix(n, "RLock")
		reg(n, func(st *State, c *icall) Value { st.lock(c.args[0], shared); return Value{} })
	}
	for _, n := range []string{"sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock"} {
		shared := strings.HasSuffix(n, "RUnlock")
		reg(n, func(st *State, c *icall) Value { st.unlock(c.args[0], shared); return Value{} })
	}
	reg("sync.Mutex.TryLock", func(st *State, c *icall) Value { st.lock(c.args[0], false); return mkv(1) })
	reg(vosPath+".release", func(st *State, c *icall) Value { st.syncPoint(c.args[0].n, 1); return Value{} })
	reg(vosPath+".releaseMap", func(st *State, c *icall) Value { st.syncPoint(c.args[0].n, 1); return Value{} })
	reg(vosPath+".acquire", func(st *State, c *icall) Value { st.syncPoint(c.args[0].n, 2); return Value{} })
	reg(vosPath+".acquireMap", func(st *State, c *icall) Value { st.syncPoint(c.args[0].n, 2); return Value{} })
	reg(vosPath+".shared", func(st *State, c *icall) Value {
		// objects of the standard library are not shared in a way we care about
		id := ptrObj(c.args[0])
		for _, g := range globalList {
			if globalIDs[g] == id {
				return boolv(g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath))
			}
		}
		return boolv(st.thread != 0)
	})
	for _, n := range strings.Fields("internal/abi.NoEscape internal/abi.Escape sync.runtime_registerPoolCleanup sync.runtime_notifyListCheck sync.fatal runtime.KeepAlive runtime.SetFinalizer internal/race.Acquire internal/race.Release internal/race.Read internal/race.Write internal/race.ReadRange internal/race.WriteRange internal/race.Enable internal/race.Disable internal/race.ReleaseMerge runtime.GC internal/godebug.registerMetric internal/asan.Read internal/asan.Write internal/msan.Read internal/msan.Write") {
		reg(n, nop)
	}
	reg("internal/abi.NoEscape", func(st *State, c *icall) Value { return c.args[0] })
	reg("internal/abi.Escape", func(st *State, c *icall) Value { return c.args[0] })
	reg("strings.noescape", func(st *State, c *icall) Value { return c.args[0] })

	for _, w := range []int{0, 8, 16, 32, 64} {
		w := w
		sfx := ""
		ww := uint8(64)
		if w > 0 {
			sfx = fmt.Sprint(w)
			ww = uint8(w)
		}
		// the position of the outermost set bit is explored case by case
		topBit := func(st *State, t *Term) int {
			for i := int(ww) - 1; i >= 0; i-- {
				if st.decide(Eq(Extract(t, uint8(i), 1), Const(1, 1))) {
					return i
				}
			}
			return -1
		}
		lowBit := func(st *State, t *Term) int {
			for i := 0; i < int(ww); i++ {
				if st.decide(Eq(Extract(t, uint8(i), 1), Const(1, 1))) {
					return i
				}
			}
			return int(ww)
		}
		reg("math/bits.Len"+sfx, func(st *State, c *icall) Value {
			v := c.args[0]
			if v.x == nil {
				return mkv(uint64(bits.Len64(v.n)))
			}
			return ival(topBit(st, v.x.(*Term)) + 1)
		})
		reg("math/bits.LeadingZeros"+sfx, func(st *State, c *icall) Value {
			v := c.args[0]
			if v.x == nil {
				return mkv(uint64(int(ww) - bits.Len64(v.n)))
			}
			return ival(int(ww) - 1 - topBit(st, v.x.(*Term)))
		})
		reg("math/bits.TrailingZeros"+sfx, func(st *State, c *icall) Value {
			v := c.args[0]
			if v.x == nil {
				if v.n == 0 {
					return mkv(uint64(ww))
				}
				return mkv(uint64(bits.TrailingZeros64(v.n)))
			}
			return ival(lowBit(st, v.x.(*Term)))
		})
		regP("math/bits.OnesCount"+sfx, func(st *State, c *icall) Value {
			v := c.args[0]
			if v.x == nil {
				return mkv(uint64(bits.OnesCount64(v.n)))
			}
			t := v.x.(*Term)
			r := Const(64, 0)
			for i := uint8(0); i < ww; i++ {
				r = Bin(OpAdd, r, ZExt(Extract(t, i, 1), 64))
			}
			return tv(r)
		})
	}
	reg("math.Float64bits", func(st *State, c *icall) Value { return c.args[0] })
	reg("math.Float64frombits", func(st *State, c *icall) Value { return c.args[0] })
	reg("math.Float32bits", func(st *State, c *icall) Value {
		return mkv(uint64(math.Float32bits(float32(math.Float64frombits(c.args[0].n)))))
	})
	reg("math.Float32frombits", func(st *State, c *icall) Value {
		return mkv(math.Float64bits(float64(math.Float32frombits(uint32(c.args[0].n)))))
	})

	for n, f := range map[string]func(float64) float64{"archCeil": math.Ceil, "archFloor": math.Floor, "archTrunc": math.Trunc, "archSqrt": math.Sqrt,
		"archExp": math.Exp, "archLog": math.Log, "sqrt": math.Sqrt} {
		reg("math."+n, func(st *State, c *icall) Value {
			return mkv(math.Float64bits(f(math.Float64frombits(c.args[0].n))))
		})
	}
	anyLay := layoutOf(types.NewInterfaceType(nil, nil))
	reg("sync/atomic.Value.Load", func(st *State, c *icall) Value {
		defer st.atomic(c.args[0], 2)()
		return st.load(c.args[0], anyLay)
	})
	reg("sync/atomic.Value.Store", func(st *State, c *icall) Value {
		defer st.atomic(c.args[0], 1)()
		st.store(c.args[0], c.args[1], anyLay)
		return Value{}
	})
	reg("maps.clone", func(st *State, c *icall) Value {
		i, ok := c.args[0].x.(*Iface)
		if !ok || i.v.n == 0 {
			return c.args[0]
		}
		ml := i.rt.t.Underlying().(*types.Map)
		id := st.alloc(0, false)
		st.h.own(id).m = &mapObj{index: map[string]int{}}
		r := mkptr(id, 0)
		for _, e := range st.h.get(ptrObj(i.v)).m.ents {
			if !e.dead {
				st.mapUpdate(r, e.k, e.v, layoutOf(ml.Key()))
			}
		}
		return Value{x: &Iface{rt: i.rt, v: r}}
	})

	// ---- vsym
	reg("vsym.Byte", func(st *State, c *icall) Value { return tv(st.newInput(c.args[0], 8)) })
	reg("vsym.Uint16", func(st *State, c *icall) Value { return tv(st.newInput(c.args[0], 16)) })
	reg("vsym.Uint32", func(st *State, c *icall) Value { return tv(st.newInput(c.args[0], 32)) })
	reg("vsym.Uint64", func(st *State, c *icall) Value { return tv(st.newInput(c.args[0], 64)) })
	reg("vsym.Bool", func(st *State, c *icall) Value {
		return tv(Eq(st.newInput(c.args[0], 1), Const(1, 1)))
	})
	reg("vsym.Int", func(st *State, c *icall) Value {
		return tv(st.newInt(c.args[0], int64(c.args[1].n), int64(c.args[2].n)))
	})
	reg("vsym.Choice", func(st *State, c *icall) Value {
		n := int64(c.args[1].n)
		if n <= 1 {
			return Value{}
		}
		// the choice variable is created once; forks find it by name
		save := st.names
		st.names = cloneNames(save)
		nin := len(st.inputs)
		t := st.newInt(c.args[0], 0, n-1)
		names := st.names
		ins := st.inputs
		st.names, st.inputs = save, st.inputs[:nin:nin]
		if n > 256 {
			st.bisect(t, 0, n-1)
		}
		k := st.concretize(tv(t), 64)
		st.names, st.inputs = names, ins
		return mkv(k)
	})
	reg("vsym.Bytes", func(st *State, c *icall) Value {
		n := int(c.args[1].n)
		v := st.makeSlice(layoutOf(types.Typ[types.Uint8]), n, n)
		o := st.h.own(v.slice().obj)
		for i := 0; i < n; i++ {
			o.setRaw(i, tv(st.newInput(c.args[0], 8)))
		}
		return v
	})
	reg("vsym.String", func(st *State, c *icall) Value {
		n := int(c.args[1].n)
		vs := make([]Value, n)
		for i := range vs {
			vs[i] = tv(st.newInput(c.args[0], 8))
		}
		return strVal(strFromValues(vs))
	})
	reg("vsym.Concrete", func(st *State, c *icall) Value { return mkv(st.concretize(c.args[0], 64)) })
	reg("vsym.ConcreteByte", func(st *State, c *icall) Value { return mkv(st.concretize(c.args[0], 8)) })
	reg("vsym.Pin", func(st *State, c *icall) Value {
		v := c.args[0]
		t := v.sym()
		if t == nil {
			return v
		}
		k := t.eval(st.model)
		st.assume(Eq(t, Const(8, k)))
		return mkv(k)
	})
	reg("vsym.ConcreteString", func(st *State, c *icall) Value {
		s := c.args[0].str()
		vs := make([]Value, len(s.s))
		for i := range vs {
			vs[i] = mkv(st.concretize(s.at(i), 8))
		}
		return strVal(strFromValues(vs))
	})
	reg("vsym.IsSymbolic", func(st *State, c *icall) Value { return bv(c.args[0].x != nil) })
	reg("vsym.Assume", func(st *State, c *icall) Value {
		st.assume(c.args[0].term(0))
		return Value{}
	})
	reg("vsym.Assert", func(st *State, c *icall) Value {
		st.assertT(c.args[0].term(0), c.args[1].str().s)
		return Value{}
	})
	reg("vsym.Fail", func(st *State, c *icall) Value {
		st.assertT(FalseT, c.args[0].str().s)
		return Value{}
	})
	reg("vsym.Cover", func(st *State, c *icall) Value {
		st.run.cover(c.args[0].str().s)
		return Value{}
	})
	reg("vsym.Note", func(st *State, c *icall) Value {
		st.logs = append(st.logs[:len(st.logs):len(st.logs)], showStr(st, c.args[0].str()))
		return Value{}
	})
	reg("vsym.Observe", func(st *State, c *icall) Value {
		st.obs = append(st.obs[:len(st.obs):len(st.obs)], c.args[0].str())
		return Value{}
	})
	reg("vsym.Known", func(st *State, c *icall) Value {
		for _, k := range knownFindings(flagVerif) {
			if k.prop == flagProp && k.key == c.args[0].str().s {
				return mkv(1)
			}
		}
		return Value{}
	})
	reg("vsym.InEngine", func(st *State, c *icall) Value { return mkv(1) })
	reg("vsym.Thorough", func(st *State, c *icall) Value { return bv(flagTier == "thorough") })
	reg("vsym.Seed", func(st *State, c *icall) Value { return mkv(uint64(flagSeed)) })
	regP("vsym.And", func(st *State, c *icall) Value { return tv(And(c.args[0].term(0), c.args[1].term(0))) })
	regP("vsym.Or", func(st *State, c *icall) Value { return tv(Or(c.args[0].term(0), c.args[1].term(0))) })
	regP("vsym.Not", func(st *State, c *icall) Value { return tv(Not(c.args[0].term(0))) })
	regP("vsym.Implies", func(st *State, c *icall) Value { return tv(Or(Not(c.args[0].term(0)), c.args[1].term(0))) })
	regP("vsym.Iff", func(st *State, c *icall) Value { return tv(Eq(c.args[0].term(0), c.args[1].term(0))) })
	regP("vsym.IteByte", iteW(8))
	regP("vsym.IteInt", iteW(64))
	regP("vsym.IteUint32", iteW(32))
	regP("vsym.IteBool", iteW(0))
	regP("vsym.EqStr", func(st *State, c *icall) Value { return tv(strEq(c.args[0].str(), c.args[1].str())) })
	regP("vsym.LessStr", func(st *State, c *icall) Value { return tv(strLess(c.args[0].str(), c.args[1].str())) })
	regP("vsym.EqBytes", func(st *State, c *icall) Value {
		return tv(strEq(strOrBytes(st, c.args[0]), strOrBytes(st, c.args[1])))
	})
	reg("vsym.Try", func(st *State, c *icall) Value {
		cl, ok := c.args[0].x.(*Closure)
		if !ok {
			panic(engineErr("vsym.Try: nil function"))
		}
		st.pushFrame(cl.fn, nil, cl.binds, c.dst, fkTry)
		c.pushed = true
		return Value{}
	})
	// what package sort needs from reflectlite
	reg("internal/reflectlite.ValueOf", func(st *State, c *icall) Value {
		n := 0
		if i, ok := c.args[0].x.(*Iface); ok {
			if s := i.v.slice(); s != nil {
				n = s.len
			}
		}
		return Value{x: &Agg{[]Value{{}, {}, mkv(uint64(n))}}}
	})
	reg("internal/reflectlite.Value.Len", func(st *State, c *icall) Value { return c.args[0].x.(*Agg).c[2] })
	reg(vosPath+".sliceSwap", func(st *State, c *icall) Value {
		i, ok := c.args[0].x.(*Iface)
		if !ok {
			panic(engineErr("sort.Slice of no slice"))
		}
		s := i.v.slice()
		l := layoutOf(i.rt.t.Underlying().(*types.Slice).Elem())
		p := mkptr(s.obj, s.off+int(st.concretize(c.args[1], 64))*s.es)
		q := mkptr(s.obj, s.off+int(st.concretize(c.args[2], 64))*s.es)
		a, b := st.load(p, l), st.load(q, l)
		st.store(p, b, l)
		st.store(q, a, l)
		return Value{}
	})
	reg(vosPath+".runMain", func(st *State, c *icall) Value { st.runMain(c); return Value{} })
	reg(vosPath+".exit", func(st *State, c *icall) Value { panic(exitPanic{c.args[0]}) })
	reg("vsym.Thread", func(st *State, c *icall) Value {
		st.thread = uint8(c.args[0].n)
		return Value{}
	})
	reg("vsym.Races", func(st *State, c *icall) Value { return strV(st.races()) })
}

func (v Value) withLen(n int) Value {
	s := *v.slice()
	s.len = n
	return Value{x: &s}
}

func iteW(w uint8) intrinsic {
	return func(st *State, c *icall) Value {
		return tv(Ite(c.args[0].term(0), c.args[1].term(w), c.args[2].term(w)))
	}
}

func cloneNames(m map[string]int) map[string]int {
	r := make(map[string]int, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) newInput(name Value, w uint8) *Term {
	n := name.str().s
	k := st.names[n]
	st.names[n] = k + 1
	full := fmt.Sprintf("%s#%d", n, k)
	t := NewVar(full+fmt.Sprintf(":%d", w), w)
	st.inputs = append(st.inputs[:len(st.inputs):len(st.inputs)], inputRec{name: full, t: t})
	return t
}

func (st *State) newInt(name Value, lo, hi int64) *Term {
	if hi < lo {
		panic(engineErr("vsym.Int: empty range"))
	}
	span := uint64(hi - lo)
	w := uint8(64)
	switch {
	case span < 1<<8:
		w = 8
	case span < 1<<16:
		w = 16
	case span < 1<<32:
		w = 32
	}
	t := st.newInput(name, w)
	// the recorded input is the value itself
	v := Bin(OpAdd, ZExt(t, 64), Const(64, uint64(lo)))
	st.inputs[len(st.inputs)-1].t = v
	if span != mask(w) {
		st.assume(Ule(t, Const(w, span)))
	}
	return v
}

// bisect forks until t, a fresh input in [lo, hi], has a single value.
func (st *State) bisect(t *Term, lo, hi int64) {
	v := t
	for v.op != OpVar {
		if v.op == OpZExt || v.op == OpAdd {
			v = v.a
			continue
		}
		return
	}
	for lo < hi {
		mid := (lo + hi) / 2
		c := Ule(t, Const(64, uint64(mid)))
		if x, ok := st.implied(c); ok {
			if x {
				hi = mid
			} else {
				lo = mid + 1
			}
			continue
		}
		cl := st.clone()
		cl.model = st.model.with(uint32(v.k), uint64(mid+1))
		cl.addConstraint(Not(c))
		st.run.push(cl)
		st.model = st.model.with(uint32(v.k), uint64(lo))
		st.addConstraint(c)
		hi = mid
	}
	st.addConstraint(Eq(t, Const(64, uint64(lo))))
}

func (st *State) assertT(c *Term, msg string) {
	st.run.asserts.Add(1)
	statAsserts.Add(1)
	if c == TrueT {
		return
	}
	n := Not(c)
	if v, ok := st.implied(c); ok && v {
		return
	}
	statAssertQ.Add(1)
	res, m := st.sat(n)
	switch res {
	case resUnsat:
		st.setKnown(c, true)
		return
	case resUnknown:
		st.run.incomplete("solver gave no answer for assertion " + msg)
		return
	}
	st.run.violation(st, msg, m, false)
	st.assume(c)
}

func showStr(st *State, s *Str) string {
	if s.t == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, t := range s.t {
		if t != nil {
			b[i] = byte(t.eval(st.model))
		}
	}
	return fmt.Sprintf("%q (one instance)", b)
}

// runMain starts package main of the named command in a fresh set of globals.
func (st *State) runMain(c *icall) {
	name := c.args[0].str().s
	p := pkgByPath(modPath + "/cmd/" + name)
	if p == nil {
		panic(engineErr("no command %s", name))
	}
	for _, g := range globalList {
		if g.Pkg == nil {
			continue
		}
		path := g.Pkg.Pkg.Path()
		if path == "flag" || path == modPath || strings.HasPrefix(path, modPath+"/") && !strings.HasPrefix(path, modPath+"/internal/v") {
			id := globalObj(g)
			l := layoutOf(g.Type().Underlying().(*types.Pointer).Elem())
			o := newObj(st.h.owner, l.n, l.kind == kArray && l.byt)
			o.written = true
			*st.h.slot(id) = o
		}
	}
	c.pushed = true
	st.pushFrame(fnOf(p.Func("main")), nil, nil, c.dst, fkMain)
	st.pushFrame(fnOf(p.Func("init")), nil, nil, -1, fkPrelude)
}

// ---- access recording for the sharing property

// A lock is held shared (by RLock) or not.
type lockRec struct {
	key    uint64
	shared bool
}

func (st *State) lock(p Value, shared bool) {
	if st.thread != 0 {
		st.syncPoint(p.n, 4)
		st.lockset = append(st.lockset[:len(st.lockset):len(st.lockset)], lockRec{p.n, shared})
	}
}

func (st *State) unlock(p Value, shared bool) {
	if st.thread != 0 {
		st.syncPoint(p.n, 3)
		for i, l := range st.lockset {
			if l.key == p.n && l.shared == shared {
				st.lockset = append(append([]lockRec(nil), st.lockset[:i]...), st.lockset[i+1:]...)
				return
			}
		}
	}
}

type accessRec struct {
	thread uint8
	sync   uint8 // 0 plain access, 1 release, 2 acquire, of obj/lo; 3, 4 of a lock
	own    bool  // by the thread that made the object, before another used it
	write  bool
	obj    uint32
	lo, hi int
	locks  []lockRec
	at     *instr
	fn     *Fn
}

func (a *accessRec) pos() string {
	if a.at == nil {
		return a.fn.name
	}
	return posOf(a.at.ssa) + " in " + a.fn.name
}

// syncPoint notes an atomic operation, which orders what is before a release and
// what is after an acquire of the same word.
func (st *State) syncPoint(key uint64, kind uint8) {
	if st.thread != 0 {
		st.access = append(st.access, accessRec{thread: st.thread, sync: kind, obj: uint32(key >> 32), lo: int(uint32(key))})
	}
}

// inModel reports whether a model of the operating system or of a synchronised
// structure is running, whose own memory does not count.
func (st *State) inModel() bool {
	for i := len(st.frames) - 1; i >= 0; i-- {
		switch fn := st.frames[i].fn; {
		case fn.model:
			return true
		case fn.repo:
			return false
		}
	}
	return false
}

func boolv(b bool) Value {
	if b {
		return mkv(1)
	}
	return Value{}
}

func (st *State) noteAccess(id uint32, o *Obj, off, n int, write bool) {
	if o == nil || st.inAtomic {
		return
	}
	own := o.thread == st.thread && !st.sharedObjs[id]
	if own && o.local {
		return
	}
	for k, i := 0, len(st.access)-1; i >= 0 && k < 16; k, i = k+1, i-1 {
		last := &st.access[i]
		if last.sync != 0 {
			break
		}
		if last.obj == id && last.thread == st.thread && last.write == write && last.own == own && last.lo <= off && off+n <= last.hi && len(last.locks) == len(st.lockset) {
			return
		}
	}
	if st.inModel() {
		return
	}
	if o.thread != 0 && o.thread != st.thread && !st.sharedObjs[id] {
		m := map[uint32]bool{id: true}
		for k := range st.sharedObjs {
			m[k] = true
		}
		st.sharedObjs = m
	}
	r := accessRec{thread: st.thread, own: own, write: write, obj: id, lo: off, hi: off + n, locks: st.lockset, fn: st.top().fn}
	if f := st.top(); f.blk != nil && f.pc < len(f.blk.ins) {
		r.at = &f.blk.ins[f.pc]
	}
	st.access = append(st.access, r)
}

// races reports a pair of conflicting unprotected accesses by different threads.
func (st *State) races() string {
	byObj := map[uint32][]int{}
	var order []uint32
	for i := range st.access {
		a := &st.access[i]
		if a.sync == 0 && (!a.own || st.sharedObjs[a.obj]) {
			if byObj[a.obj] == nil {
				order = append(order, a.obj)
			}
			byObj[a.obj] = append(byObj[a.obj], i)
		}
	}
	for _, obj := range order {
		as := byObj[obj]
		for x, i := range as {
			for _, j := range as[x+1:] {
				a, b := &st.access[i], &st.access[j]
				if a.thread == b.thread || !a.write && !b.write || a.hi <= b.lo || b.hi <= a.lo {
					continue
				}
				if !commonLock(a.locks, b.locks) && !st.ordered(i, j) {
					if !a.write {
						a, b = b, a
					}
					return fmt.Sprintf("write at %s conflicts with access at %s", a.pos(), b.pos())
				}
			}
		}
	}
	return ""
}

func commonLock(a, b []lockRec) bool {
	for _, x := range a {
		for _, y := range b {
			if x.key == y.key && !(x.shared && y.shared) {
				return true
			}
		}
	}
	return false
}

// ordered reports whether an atomic store after access i, by its thread, is seen
// by an atomic load before access j, by its thread. What a thread does to an object
// before another has it may also be ordered by a lock, which says where it is.
func (st *State) ordered(i, j int) bool {
	ti, tj := st.access[i].thread, st.access[j].thread
	own := st.access[i].own
	released := map[uint64]bool{}
	for k := i + 1; k < j; k++ {
		a := &st.access[k]
		key := uint64(a.obj)<<32 | uint64(a.lo)
		switch {
		case (a.sync == 1 || own && a.sync == 3) && a.thread == ti:
			released[key] = true
		case (a.sync == 2 || own && a.sync == 4) && a.thread == tj && released[key]:
			return true
		}
	}
	return false
}
