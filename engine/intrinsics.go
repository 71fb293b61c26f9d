package main

import (
	"fmt"
	"go/token"
	"math"
	"math/bits"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var externals map[string]extFn

const vsymPath = "seehuhn.de/go/sfnt/internal/vsym"

func fl(v Value) float64      { return math.Float64frombits(v.n) }
func mkFl(f float64) Value    { return Value{n: math.Float64bits(f)} }
func tuple(vs ...Value) Value { return Value{r: vs} }
func mkInt(i int) Value       { return Value{n: uint64(int64(i))} }
func mkBool(b bool) Value     { return Value{n: b2u(b)} }

func init() {
	externals = map[string]extFn{}
	reg := func(name string, f func(m *Machine, a []Value) Value) {
		externals[name] = func(m *Machine, fn *Fn, a []Value) (Value, bool) { return f(m, a), true }
	}
	regIf := func(name string, f func(m *Machine, a []Value) (Value, bool)) {
		externals[name] = func(m *Machine, fn *Fn, a []Value) (Value, bool) { return f(m, a) }
	}
	noSpec := func(m *Machine) {
		if m.spec > 0 {
			panic(specAbort{})
		}
	}

	// ------------------------------------------------------------- math
	for name, f := range map[string]func(float64) float64{
		"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan,
		"Exp": math.Exp, "Exp2": math.Exp2, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Cbrt": math.Cbrt, "Log1p": math.Log1p,
	} {
		reg("math."+name, func(m *Machine, a []Value) Value { return mkFl(f(m.concFloat(a[0]))) })
	}
	for name, f := range map[string]func(a, b float64) float64{
		"Atan2": math.Atan2, "Hypot": math.Hypot, "Pow": math.Pow, "Mod": math.Mod, "Remainder": math.Remainder, "Copysign": math.Copysign, "Dim": math.Dim, "Nextafter": math.Nextafter,
	} {
		reg("math."+name, func(m *Machine, a []Value) Value { return mkFl(f(m.concFloat(a[0]), m.concFloat(a[1]))) })
	}
	for name, mode := range map[string]int{"Floor": 2, "Ceil": 3, "Trunc": 4, "Round": 1, "RoundToEven": 0} {
		reg("math."+name, func(m *Machine, a []Value) Value { return m.roundFloat(a[0], mode) })
	}
	reg("math.Abs", func(m *Machine, a []Value) Value { return m.absFloat(a[0]) })
	reg("math.Sqrt", func(m *Machine, a []Value) Value {
		if a[0].r == nil {
			return mkFl(math.Sqrt(fl(a[0])))
		}
		m.fpUsed = true
		return m.wrapF(m.tc.F(OpFSqrt, m.fpTerm(a[0]), nil, 0))
	})
	reg("math.Max", func(m *Machine, a []Value) Value {
		if a[0].r == nil && a[1].r == nil {
			return mkFl(math.Max(fl(a[0]), fl(a[1])))
		}
		return m.iteFloat(m.boolTerm(m.binFloat(token.GTR, tinfo(f64t), a[0], a[1])), a[0], a[1])
	})
	reg("math.Min", func(m *Machine, a []Value) Value {
		if a[0].r == nil && a[1].r == nil {
			return mkFl(math.Min(fl(a[0]), fl(a[1])))
		}
		return m.iteFloat(m.boolTerm(m.binFloat(token.LSS, tinfo(f64t), a[0], a[1])), a[0], a[1])
	})
	reg("math.Inf", func(m *Machine, a []Value) Value { return mkFl(math.Inf(int(int64(a[0].n)))) })
	reg("math.NaN", func(m *Machine, a []Value) Value { return mkFl(math.NaN()) })
	reg("math.IsNaN", func(m *Machine, a []Value) Value {
		switch x := a[0].r.(type) {
		case nil:
			return mkBool(math.IsNaN(fl(a[0])))
		case *Fix:
			return mkBool(false)
		case *Term:
			return m.wrapBool(m.tc.BNot(m.tc.F(OpFEq, x, x, 0)))
		}
		return Value{}
	})
	reg("math.IsInf", func(m *Machine, a []Value) Value {
		switch x := a[0].r.(type) {
		case nil:
			return mkBool(math.IsInf(fl(a[0]), int(int64(a[1].n))))
		case *Fix:
			return mkBool(false)
		case *Term:
			s := int64(a[1].n)
			p := m.tc.Eq(x, m.tc.Const(math.Float64bits(math.Inf(1)), 64))
			n := m.tc.Eq(x, m.tc.Const(math.Float64bits(math.Inf(-1)), 64))
			if s > 0 {
				return m.wrapBool(p)
			} else if s < 0 {
				return m.wrapBool(n)
			}
			return m.wrapBool(m.tc.BOr(p, n))
		}
		return Value{}
	})
	reg("math.Signbit", func(m *Machine, a []Value) Value {
		switch x := a[0].r.(type) {
		case nil:
			return mkBool(math.Signbit(fl(a[0])))
		case *Fix:
			return m.wrapBool(m.tc.Slt(x.m, m.tc.Const(0, 64)))
		case *Term:
			return m.wrapBool(m.tc.Slt(x, m.tc.Const(0, 64)))
		}
		return Value{}
	})
	reg("math.Float64bits", func(m *Machine, a []Value) Value {
		if a[0].r == nil {
			return Value{n: a[0].n}
		}
		return m.wrapF(m.fpTerm(a[0]))
	})
	reg("math.Float64frombits", func(m *Machine, a []Value) Value { return a[0] })
	reg("math.Float32bits", func(m *Machine, a []Value) Value {
		return Value{n: uint64(math.Float32bits(float32(m.concFloat(a[0]))))}
	})
	reg("math.Float32frombits", func(m *Machine, a []Value) Value {
		return mkFl(float64(math.Float32frombits(uint32(m.concVal(a[0])))))
	})
	reg("math.Frexp", func(m *Machine, a []Value) Value {
		f, e := math.Frexp(m.concFloat(a[0]))
		return tuple(mkFl(f), mkInt(e))
	})
	reg("math.Ldexp", func(m *Machine, a []Value) Value {
		return mkFl(math.Ldexp(m.concFloat(a[0]), int(int64(m.concVal(a[1])))))
	})
	reg("math.Modf", func(m *Machine, a []Value) Value {
		i, f := math.Modf(m.concFloat(a[0]))
		return tuple(mkFl(i), mkFl(f))
	})
	reg("math.Sincos", func(m *Machine, a []Value) Value {
		i, f := math.Sincos(m.concFloat(a[0]))
		return tuple(mkFl(i), mkFl(f))
	})

	// --------------------------------------------------------- math/bits
	bitsFn := func(name string, f func(uint64) int) {
		regIf("math/bits."+name, func(m *Machine, a []Value) (Value, bool) {
			if a[0].r != nil {
				return Value{}, false
			}
			return mkInt(f(a[0].n)), true
		})
	}
	bitsFn("Len", func(x uint64) int { return bits.Len64(x) })
	bitsFn("Len64", func(x uint64) int { return bits.Len64(x) })
	bitsFn("Len32", func(x uint64) int { return bits.Len32(uint32(x)) })
	bitsFn("Len16", func(x uint64) int { return bits.Len16(uint16(x)) })
	bitsFn("Len8", func(x uint64) int { return bits.Len8(uint8(x)) })
	bitsFn("TrailingZeros", func(x uint64) int { return bits.TrailingZeros64(x) })
	bitsFn("TrailingZeros64", func(x uint64) int { return bits.TrailingZeros64(x) })
	bitsFn("TrailingZeros32", func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	bitsFn("LeadingZeros64", func(x uint64) int { return bits.LeadingZeros64(x) })
	bitsFn("OnesCount", func(x uint64) int { return bits.OnesCount64(x) })
	bitsFn("OnesCount64", func(x uint64) int { return bits.OnesCount64(x) })

	// ---------------------------------------------------- internal/bytealg
	symSl := func(m *Machine, v Value) (*SliceV, bool) {
		s := m.concLen(m.sl(v))
		if s == nil {
			return nil, false
		}
		if s.o.t == nil {
			return s, false
		}
		for i := s.off; i < s.off+s.len; i++ {
			if s.o.t[i] != nil {
				return s, true
			}
		}
		return s, false
	}
	byteTerm := func(m *Machine, s *SliceV, i int) *Term { return m.term(m.get(s.o, s.off+i), byteInfo) }
	reg("internal/bytealg.IndexByte", func(m *Machine, a []Value) Value {
		noSpec(m)
		s, sym := symSl(m, a[0])
		if s == nil {
			return mkInt(-1)
		}
		if !sym && a[1].r == nil {
			return mkInt(strings.IndexByte(string(s.o.b[s.off:s.off+s.len]), byte(a[1].n)))
		}
		c := m.term(a[1], byteInfo)
		for i := 0; i < s.len; i++ {
			if m.cond(m.tc.Eq(byteTerm(m, s, i), c)) {
				return mkInt(i)
			}
		}
		return mkInt(-1)
	})
	reg("internal/bytealg.IndexByteString", func(m *Machine, a []Value) Value {
		noSpec(m)
		s := m.str(a[0])
		if s.t == nil && a[1].r == nil {
			return mkInt(strings.IndexByte(s.s, byte(a[1].n)))
		}
		c := m.term(a[1], byteInfo)
		for i := range s.s {
			_ = i
		}
		for i := 0; i < len(s.s); i++ {
			if m.cond(m.tc.Eq(m.strByteT(s, i), c)) {
				return mkInt(i)
			}
		}
		return mkInt(-1)
	})
	reg("internal/bytealg.LastIndexByteString", func(m *Machine, a []Value) Value {
		noSpec(m)
		s := m.str(a[0])
		c := m.term(a[1], byteInfo)
		for i := len(s.s) - 1; i >= 0; i-- {
			if m.cond(m.tc.Eq(m.strByteT(s, i), c)) {
				return mkInt(i)
			}
		}
		return mkInt(-1)
	})
	externals["internal/stringslite.IndexByte"] = externals["internal/bytealg.IndexByteString"]
	externals["strings.IndexByte"] = externals["internal/bytealg.IndexByteString"]
	externals["bytes.IndexByte"] = externals["internal/bytealg.IndexByte"]
	reg("internal/bytealg.CountString", func(m *Machine, a []Value) Value {
		noSpec(m)
		s := m.str(a[0])
		c := m.term(a[1], byteInfo)
		n := 0
		for i := 0; i < len(s.s); i++ {
			if m.cond(m.tc.Eq(m.strByteT(s, i), c)) {
				n++
			}
		}
		return mkInt(n)
	})
	reg("internal/bytealg.Count", func(m *Machine, a []Value) Value {
		noSpec(m)
		s, _ := symSl(m, a[0])
		c := m.term(a[1], byteInfo)
		n := 0
		for i := 0; s != nil && i < s.len; i++ {
			if m.cond(m.tc.Eq(byteTerm(m, s, i), c)) {
				n++
			}
		}
		return mkInt(n)
	})
	equalSl := func(m *Machine, a []Value) Value {
		noSpec(m)
		x, y := m.concLen(m.sl(a[0])), m.concLen(m.sl(a[1]))
		nx, ny := 0, 0
		if x != nil {
			nx = x.len
		}
		if y != nil {
			ny = y.len
		}
		if nx != ny {
			return mkBool(false)
		}
		res := m.tc.t
		for i := 0; i < nx; i++ {
			p, q := m.get(x.o, x.off+i), m.get(y.o, y.off+i)
			if p.r == nil && q.r == nil {
				if p.n != q.n {
					return mkBool(false)
				}
				continue
			}
			res = m.tc.BAnd(res, m.tc.Eq(m.term(p, byteInfo), m.term(q, byteInfo)))
		}
		return m.wrapBool(res)
	}
	reg("bytes.Equal", equalSl)
	reg("internal/bytealg.Equal", equalSl)
	cmpSl := func(m *Machine, a []Value) Value {
		noSpec(m)
		x, y := m.bytesToStr(m.sl(a[0])), m.bytesToStr(m.sl(a[1]))
		return cmpStr(m, x, y)
	}
	reg("internal/bytealg.Compare", cmpSl)
	reg("bytes.Compare", cmpSl)
	reg("internal/bytealg.CompareString", func(m *Machine, a []Value) Value { return cmpStr(m, a[0], a[1]) })
	reg("strings.Compare", func(m *Machine, a []Value) Value { return cmpStr(m, a[0], a[1]) })
	reg("runtime.cmpstring", func(m *Machine, a []Value) Value { return cmpStr(m, a[0], a[1]) })
	regIf("strings.Index", func(m *Machine, a []Value) (Value, bool) {
		noSpec(m)
		s, t := m.str(a[0]), m.str(a[1])
		if s.t == nil && t.t == nil {
			return mkInt(strings.Index(s.s, t.s)), true
		}
		n := len(t.s)
		for i := 0; i+n <= len(s.s); i++ {
			sub := m.str(m.subStr(s, i, i+n))
			if m.cond(m.strEq(sub, t)) {
				return mkInt(i), true
			}
		}
		return mkInt(-1), true
	})
	externals["internal/stringslite.Index"] = externals["strings.Index"]
	reg("internal/bytealg.MakeNoZero", func(m *Machine, a []Value) Value {
		noSpec(m)
		n := int(m.concVal(a[0]))
		m.alloc(int64(n))
		return Value{r: &SliceV{o: m.newArr(byteInfo, n), len: n, cap: n}}
	})
	reg("internal/bytealg.MaxLen", func(m *Machine, a []Value) Value { return mkInt(64) })

	// ------------------------------------------------------------- strings
	reg("(*strings.Builder).copyCheck", func(m *Machine, a []Value) Value { return Value{} })
	reg("internal/abi.NoEscape", func(m *Machine, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(m *Machine, a []Value) Value { return a[0] })
	reg("strings.Clone", func(m *Machine, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(m *Machine, a []Value) Value { return a[0] })
	overlaps := func(m *Machine, a []Value) Value {
		x, y := m.sl(a[0]), m.sl(a[1])
		if x == nil || y == nil || x.len == 0 || y.len == 0 || x.o != y.o {
			return mkBool(false)
		}
		if x.lenT != nil || y.lenT != nil {
			m.unsupported("slices.overlaps")
		}
		return mkBool(x.off < y.off+y.len && y.off < x.off+x.len)
	}
	reg("slices.overlaps", overlaps)
	reg("golang.org/x/exp/slices.overlaps", overlaps)
	reg("slices.startIdx", func(m *Machine, a []Value) Value {
		hay, needle := m.sl(a[0]), m.sl(a[1])
		if hay == nil || needle == nil || hay.o != needle.o {
			m.unsupported("slices.startIdx")
		}
		return mkInt(needle.off - hay.off)
	})

	// -------------------------------------------------------------- sync
	lock := func(m *Machine, a []Value) Value {
		noSpec(m)
		o := a[0].r.(*Obj)
		k := mutexKey{o, a[0].n}
		if m.locks == nil {
			m.locks = map[mutexKey]int{}
		}
		m.block(func() bool { return m.locks[k] == 0 })
		m.locks[k] = -1
		m.lockDepth++
		return Value{}
	}
	unlock := func(m *Machine, a []Value) Value {
		noSpec(m)
		k := mutexKey{a[0].r.(*Obj), a[0].n}
		if m.locks[k] != -1 {
			m.plainPanic("fatal error: sync: unlock of unlocked mutex")
		}
		m.locks[k] = 0
		m.lockDepth--
		return Value{}
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*internal/sync.Mutex).Lock", lock)
	reg("(*internal/sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(m *Machine, a []Value) Value {
		k := mutexKey{a[0].r.(*Obj), a[0].n}
		if m.locks == nil {
			m.locks = map[mutexKey]int{}
		}
		m.block(func() bool { return m.locks[k] >= 0 })
		m.locks[k]++
		return Value{}
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, a []Value) Value {
		k := mutexKey{a[0].r.(*Obj), a[0].n}
		m.locks[k]--
		return Value{}
	})
	reg("(*sync.Once).Do", func(m *Machine, a []Value) Value {
		noSpec(m)
		k := mutexKey{a[0].r.(*Obj), a[0].n}
		if m.onces == nil {
			m.onces = map[mutexKey]int{}
		}
		if m.onces[k] == 2 || m.initOnces[k] {
			return Value{}
		}
		m.block(func() bool { return m.onces[k] != 1 })
		if m.onces[k] == 2 {
			return Value{}
		}
		m.onces[k] = 1
		m.lockDepth++
		defer func() {
			m.onces[k] = 2
			if m.initing > 0 {
				if m.initOnces == nil {
					m.initOnces = map[mutexKey]bool{}
				}
				m.initOnces[k] = true
			}
			m.lockDepth--
		}()
		m.callValue(a[1], nil)
		return Value{}
	})
	reg("(*sync.Pool).Get", func(m *Machine, a []Value) Value {
		noSpec(m)
		o := m.get(a[0].r.(*Obj), int(a[0].n)).r.(*Obj)
		nf := o.v[len(o.v)-1]
		if nf.r == nil {
			return Value{}
		}
		return m.callValue(nf, nil)
	})
	reg("(*sync.Pool).Put", func(m *Machine, a []Value) Value { return Value{} })
	wgAdd := func(m *Machine, a []Value, d int) {
		k := mutexKey{a[0].r.(*Obj), a[0].n}
		if m.wgs == nil {
			m.wgs = map[mutexKey]int{}
		}
		m.wgs[k] += d
		if m.wgs[k] < 0 {
			m.plainPanic("sync: negative WaitGroup counter")
		}
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, a []Value) Value { noSpec(m); wgAdd(m, a, int(int64(m.concVal(a[1])))); return Value{} })
	reg("(*sync.WaitGroup).Done", func(m *Machine, a []Value) Value { noSpec(m); wgAdd(m, a, -1); return Value{} })
	reg("(*sync.WaitGroup).Wait", func(m *Machine, a []Value) Value {
		noSpec(m)
		k := mutexKey{a[0].r.(*Obj), a[0].n}
		m.block(func() bool { return m.wgs[k] == 0 })
		return Value{}
	})
	for _, t := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		ti := func(m *Machine) *TInfo {
			switch t {
			case "Int32":
				return runeInfo
			case "Uint32":
				return tinfo(u32t)
			case "Int64":
				return tinfo(i64t)
			}
			return tinfo(u64t)
		}
		reg("sync/atomic.Load"+t, func(m *Machine, a []Value) Value { return m.load(a[0], ti(m)) })
		reg("sync/atomic.Store"+t, func(m *Machine, a []Value) Value {
			noSpec(m)
			m.lockDepth++
			m.store(a[0], a[1], ti(m))
			m.lockDepth--
			return Value{}
		})
		reg("sync/atomic.Swap"+t, func(m *Machine, a []Value) Value {
			noSpec(m)
			m.lockDepth++
			o := m.load(a[0], ti(m))
			m.store(a[0], a[1], ti(m))
			m.lockDepth--
			return o
		})
		reg("sync/atomic.Add"+t, func(m *Machine, a []Value) Value {
			noSpec(m)
			m.lockDepth++
			o := m.binInt(token.ADD, ti(m), ti(m), m.load(a[0], ti(m)), a[1])
			m.store(a[0], o, ti(m))
			m.lockDepth--
			return o
		})
		reg("sync/atomic.CompareAndSwap"+t, func(m *Machine, a []Value) Value {
			noSpec(m)
			o := m.load(a[0], ti(m))
			if o.n != a[1].n || o.r != a[1].r {
				return mkBool(false)
			}
			m.lockDepth++
			m.store(a[0], a[2], ti(m))
			m.lockDepth--
			return mkBool(true)
		})
	}

	// ------------------------------------------------------------ runtime
	reg("runtime.Gosched", func(m *Machine, a []Value) Value { m.yieldG(); return Value{} })
	reg("runtime.KeepAlive", func(m *Machine, a []Value) Value { return Value{} })
	reg("runtime.GC", func(m *Machine, a []Value) Value { return Value{} })
	reg("runtime.SetFinalizer", func(m *Machine, a []Value) Value { return Value{} })
	reg("runtime.Caller", func(m *Machine, a []Value) Value { return tuple(Value{}, Value{}, Value{}, Value{}) })
	reg("time.Sleep", func(m *Machine, a []Value) Value { m.yieldG(); return Value{} })
	reg("time.now", func(m *Machine, a []Value) Value { return tuple(Value{n: 1700000000}, Value{}, Value{}) })
	reg("time.runtimeNow", func(m *Machine, a []Value) Value { return tuple(Value{n: 1700000000}, Value{}, Value{}) })
	reg("time.runtimeNano", func(m *Machine, a []Value) Value { return Value{n: 1} })
	reg("(*time.Location).get", func(m *Machine, a []Value) Value {
		// the local time zone is UTC
		if a[0].r == nil {
			return m.lookupGlobal("time", "utcLoc")
		}
		l := m.lookupGlobal("time", "localLoc")
		if m.refEqual(l, a[0]) {
			return m.lookupGlobal("time", "utcLoc")
		}
		return a[0]
	})
	reg("internal/godebug.New", func(m *Machine, a []Value) Value { return Value{} })
	reg("(*internal/godebug.Setting).Value", func(m *Machine, a []Value) Value { return Value{} })
	reg("(*internal/godebug.Setting).IncNonDefault", func(m *Machine, a []Value) Value { return Value{} })
	reg("os.Getenv", func(m *Machine, a []Value) Value { return Value{} })
	reg("log.Println", func(m *Machine, a []Value) Value { return Value{} })
	reg("log.Printf", func(m *Machine, a []Value) Value { return Value{} })
	reg("internal/race.Enabled", func(m *Machine, a []Value) Value { return Value{} })

	// ------------------------------------------------------------- errors
	reg("errors.Is", func(m *Machine, a []Value) Value { noSpec(m); return mkBool(m.errorsIs(a[0], a[1])) })
	reg("errors.As", func(m *Machine, a []Value) Value {
		noSpec(m)
		ti, _ := a[1].r.(*Iface)
		if ti == nil {
			m.plainPanic("errors: target cannot be nil")
		}
		return mkBool(m.errorsAs(a[0], ti))
	})

	// --------------------------------------------------------------- sort
	sortSlice := func(stable bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			noSpec(m)
			i, _ := a[0].r.(*Iface)
			if i == nil {
				return Value{}
			}
			s := m.concLen(m.sl(i.v))
			if s == nil {
				return Value{}
			}
			et := i.t.elem
			swap := &Closure{nat: func(m *Machine, b []Value) Value {
				x, y := int(m.concVal(b[0])), int(m.concVal(b[1]))
				p, q := Value{n: uint64(s.off + x), r: s.o}, Value{n: uint64(s.off + y), r: s.o}
				vx, vy := m.load(p, et), m.load(q, et)
				m.store(p, vy, et)
				m.store(q, vx, et)
				return Value{}
			}}
			ls := Value{r: &Obj{serial: m.serial(), v: []Value{a[1], {r: swap}}}}
			if stable {
				m.callFn(m.lookupFunc("sort", "stable_func"), []Value{ls, mkInt(s.len)}, nil)
			} else {
				lim := bits.Len(uint(s.len))
				m.callFn(m.lookupFunc("sort", "pdqsort_func"), []Value{ls, mkInt(0), mkInt(s.len), mkInt(lim)}, nil)
			}
			return Value{}
		}
	}
	reg("sort.Slice", sortSlice(false))
	reg("sort.SliceStable", sortSlice(true))

	// ------------------------------------------------------------ strconv
	reg("strconv.FormatInt", func(m *Machine, a []Value) Value {
		base := int(a[1].n)
		if t, ok := a[0].r.(*Term); ok {
			v := a[0]
			_ = t
			return Value{r: &Str{lazy: func(m *Machine) *Str {
				return &Str{s: strconv.FormatInt(int64(m.concVal(v)), base)}
			}}}
		}
		return mkStr(strconv.FormatInt(int64(a[0].n), base))
	})
	reg("strconv.Itoa", func(m *Machine, a []Value) Value {
		if _, ok := a[0].r.(*Term); ok {
			v := a[0]
			return Value{r: &Str{lazy: func(m *Machine) *Str {
				return &Str{s: strconv.FormatInt(int64(m.concVal(v)), 10)}
			}}}
		}
		return mkStr(strconv.FormatInt(int64(a[0].n), 10))
	})
	reg("strconv.FormatUint", func(m *Machine, a []Value) Value {
		return mkStr(strconv.FormatUint(m.concVal(a[0]), int(a[1].n)))
	})
	reg("strconv.FormatFloat", func(m *Machine, a []Value) Value {
		noSpec(m)
		return mkStr(strconv.FormatFloat(m.concFloat(a[0]), byte(a[1].n), int(int64(a[2].n)), int(int64(a[3].n))))
	})
	reg("strconv.AppendFloat", func(m *Machine, a []Value) Value {
		noSpec(m)
		s := strconv.FormatFloat(m.concFloat(a[1]), byte(a[2].n), int(int64(a[3].n)), int(int64(a[4].n)))
		return m.appendB(a[0], mkStr(s), tinfo(bytesT), stringInfo)
	})
	reg("strconv.AppendInt", func(m *Machine, a []Value) Value {
		noSpec(m)
		s := strconv.FormatInt(int64(m.concVal(a[1])), int(a[2].n))
		return m.appendB(a[0], mkStr(s), tinfo(bytesT), stringInfo)
	})
	regIf("strconv.ParseFloat", func(m *Machine, a []Value) (Value, bool) {
		noSpec(m)
		s := m.concStr(m.str(a[0]))
		f, err := strconv.ParseFloat(s, int(int64(a[1].n)))
		return tuple(mkFl(f), m.goError(err)), true
	})
	reg("strconv.Quote", func(m *Machine, a []Value) Value { noSpec(m); return mkStr(strconv.Quote(m.concStr(m.str(a[0])))) })
	regIf("strconv.Atoi", func(m *Machine, a []Value) (Value, bool) {
		noSpec(m)
		s := m.str(a[0])
		if s.t != nil {
			if v, ok := m.atoi(s); ok {
				return tuple(v, Value{}), true
			}
			return Value{}, false
		}
		i, err := strconv.Atoi(s.s)
		return tuple(mkInt(i), m.goError(err)), true
	})

	registerFmt(reg)
	registerBinary(reg)
	registerVsym(reg)
	registerRegexp(reg)
	registerLibNames(reg)

	// file system access is not available to the interpreted program
	for _, n := range []string{"os.Open", "os.Create", "os.OpenFile", "os.ReadFile", "os.WriteFile", "os.Remove", "os.Exit"} {
		reg(n, func(m *Machine, a []Value) Value { m.unsupported("call of " + n); return Value{} })
	}
}

type mutexKey struct {
	o *Obj
	n uint64
}

func cmpStr(m *Machine, x, y Value) Value {
	a, b := m.str(x), m.str(y)
	if a.t == nil && b.t == nil {
		return mkInt(strings.Compare(a.s, b.s))
	}
	tc := m.tc
	lt, eq := m.strLess(a, b), m.strEq(a, b)
	r := tc.Ite(lt, tc.Const(^uint64(0), 64), tc.Ite(eq, tc.Const(0, 64), tc.Const(1, 64)))
	return m.wrap(r, intInfo)
}

func (m *Machine) lookupGlobal(pkg, name string) Value {
	for _, q := range m.prog.AllPackages() {
		if q.Pkg.Path() == pkg {
			return m.global(q.Var(name))
		}
	}
	m.unsupported("global " + pkg + "." + name)
	return Value{}
}

// goError converts a native error to an interpreted one.
func (m *Machine) goError(err error) Value {
	if err == nil {
		return Value{}
	}
	return m.newError(mkStr(err.Error()))
}

// newError makes an *errors.errorString.
func (m *Machine) newError(s Value) Value {
	f := m.lookupFunc("errors", "New")
	return m.callFn(f, []Value{s}, nil)
}

func (m *Machine) callMethod(v Value, name string, args ...Value) (Value, bool) {
	i, _ := v.r.(*Iface)
	if i == nil || i.t == nil {
		return Value{}, false
	}
	f := m.methodByName(i.t, nil, name, name)
	if f == nil {
		return Value{}, false
	}
	return m.callFn(m.fn(f), append([]Value{i.v}, args...), nil), true
}

func (m *Machine) hasMethod(i *Iface, name string) *ssa.Function {
	if i == nil || i.t == nil {
		return nil
	}
	return m.methodByName(i.t, nil, name, name)
}

func (m *Machine) errorsIs(err, target Value) bool {
	for {
		if err.r == nil {
			return target.r == nil
		}
		if target.r == nil {
			return false
		}
		e, t := err.r.(*Iface), target.r.(*Iface)
		if e.t == t.t && e.t.comparable {
			if m.cond(m.equal(e.v, t.v, e.t, t.t)) {
				return true
			}
		}
		if f := m.hasMethod(e, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			r := m.callFn(m.fn(f), []Value{e.v, target}, nil)
			if m.cond(m.boolTerm(r)) {
				return true
			}
		}
		f := m.hasMethod(e, "Unwrap")
		if f == nil {
			return false
		}
		r := m.callFn(m.fn(f), []Value{e.v}, nil)
		rt := tinfo(f.Signature.Results().At(0).Type())
		if rt.kind == KSlice {
			s := m.concLen(m.sl(r))
			for i := 0; s != nil && i < s.len; i++ {
				if m.errorsIs(m.get(s.o, s.off+i), target) {
					return true
				}
			}
			return false
		}
		err = r
		if err.r == nil {
			return false
		}
	}
}

func (m *Machine) errorsAs(err Value, ti *Iface) bool {
	want := ti.t.elem
	for err.r != nil {
		e := err.r.(*Iface)
		if want.kind == KIface {
			if m.implements(e.t, want) {
				m.store(ti.v, err, want)
				return true
			}
		} else if e.t == want {
			m.store(ti.v, e.v, want)
			return true
		}
		if f := m.hasMethod(e, "As"); f != nil {
			r := m.callFn(m.fn(f), []Value{e.v, {r: ti}}, nil)
			if m.cond(m.boolTerm(r)) {
				return true
			}
		}
		f := m.hasMethod(e, "Unwrap")
		if f == nil {
			return false
		}
		r := m.callFn(m.fn(f), []Value{e.v}, nil)
		if rt := tinfo(f.Signature.Results().At(0).Type()); rt.kind == KSlice {
			s := m.concLen(m.sl(r))
			for i := 0; s != nil && i < s.len; i++ {
				if m.errorsAs(m.get(s.o, s.off+i), ti) {
					return true
				}
			}
			return false
		}
		err = r
	}
	return false
}

func debugf(f string, a ...any) { fmt.Fprintf(os.Stderr, f, a...) }
