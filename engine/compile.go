package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iBinInt
	iBinCmpInt
	iBinOther
	iUnop
	iLoad
	iConvert
	iCopy
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeChan
	iMakeSlice
	iSlice
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iSelect
	iRange
	iNext
	iTypeAssert
	iExtract
	iCall
	iGo
	iDefer
	iRunDefers
	iSend
	iStore
	iMapUpdate
	iPanic
	iJump
	iIf
	iReturn
	iSliceToArr
	iUnsupported
)

type ins struct {
	op      opcode
	tok     token.Token
	dst     int32
	a, b, c int32
	ti      *TInfo // result or operand type
	ti2     *TInfo
	args    []int32
	call    *callInfo
	n       int
	x       any
	pos     token.Pos
	succ    [2]*edge
	reg     *region
	spec    int // merge failures
}

type edge struct {
	to   *Blk
	pred int
}

type phi struct {
	dst int32
	src []int32
	ti  *TInfo
}

type Blk struct {
	idx  int
	phis []phi
	ins  []ins
	b    *ssa.BasicBlock
}

type callInfo struct {
	common   *ssa.CallCommon
	static   *Fn
	builtin  string
	invoke   *types.Func
	fnOp     int32
	sig      *types.Signature
	argT     []*TInfo
	resT     *TInfo
	variadic bool
}

type Fn struct {
	f        *ssa.Function
	name     string
	m        *Machine
	nregs    int
	nparams  int
	nfree    int
	blocks   []*Blk
	consts   []Value
	ext      extFn
	ready    bool
	recover  *Blk
	hasDefer bool
	resT     []*TInfo
	regions  bool
}

func (m *Machine) fn(f *ssa.Function) *Fn {
	if x, ok := m.fns[f]; ok {
		return x
	}
	x := &Fn{f: f, m: m, name: f.String()}
	m.fns[f] = x
	if e, ok := externals[x.name]; ok {
		x.ext = e
	} else if o := f.Origin(); o != nil {
		if e, ok := externals[o.String()]; ok {
			x.ext = e
		}
	}
	return x
}

func (x *Fn) compile() {
	f := x.f
	m := x.m
	x.ready = true
	m.compiled++
	regs := map[ssa.Value]int32{}
	var n int32
	add := func(v ssa.Value) { regs[v] = n; n++ }
	for _, p := range f.Params {
		add(p)
	}
	x.nparams = len(f.Params)
	for _, fv := range f.FreeVars {
		add(fv)
	}
	x.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	x.nregs = int(n)
	constIdx := map[ssa.Value]int32{}
	operand := func(v ssa.Value) int32 {
		if r, ok := regs[v]; ok {
			return r
		}
		if c, ok := constIdx[v]; ok {
			return c
		}
		x.consts = append(x.consts, m.constVal(v))
		c := -int32(len(x.consts))
		constIdx[v] = c
		return c
	}
	for _, b := range f.Blocks {
		x.blocks = append(x.blocks, &Blk{idx: b.Index, b: b})
	}
	if f.Recover != nil {
		x.recover = x.blocks[f.Recover.Index]
	}
	mkEdge := func(b *ssa.BasicBlock, k int) *edge {
		s := b.Succs[k]
		// k-th occurrence among preds
		occ := 0
		for j := 0; j < k; j++ {
			if b.Succs[j] == s {
				occ++
			}
		}
		for pi, p := range s.Preds {
			if p == b {
				if occ == 0 {
					return &edge{x.blocks[s.Index], pi}
				}
				occ--
			}
		}
		panic("mkEdge")
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		x.resT = append(x.resT, tinfo(res.At(i).Type()))
	}
	for bi, b := range f.Blocks {
		blk := x.blocks[bi]
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := phi{dst: regs[p], ti: tinfo(p.Type())}
				for _, e := range p.Edges {
					ph.src = append(ph.src, operand(e))
				}
				blk.phis = append(blk.phis, ph)
				continue
			}
			var c ins
			c.pos = in.Pos()
			c.dst = -1
			if v, ok := in.(ssa.Value); ok {
				c.dst = regs[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				c.op = iAlloc
				c.ti = tinfo(in.Type()).elem
			case *ssa.BinOp:
				t := tinfo(in.X.Type())
				c.a, c.b, c.tok, c.ti = operand(in.X), operand(in.Y), in.Op, t
				c.ti2 = tinfo(in.Y.Type())
				c.op = iBinOther
				if t.kind == KInt {
					switch in.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						c.op = iBinCmpInt
					default:
						c.op = iBinInt
					}
				}
			case *ssa.UnOp:
				c.a, c.tok = operand(in.X), in.Op
				c.ti = tinfo(in.X.Type())
				switch in.Op {
				case token.MUL:
					c.op = iLoad
					c.ti = c.ti.elem
					if c.ti == nil {
						c.ti = tinfo(in.Type())
					}
				default:
					c.op = iUnop
					c.n = 0
					if in.CommaOk {
						c.n = 1
					}
					c.ti2 = tinfo(in.Type())
				}
			case *ssa.ChangeType:
				c.op, c.a = iCopy, operand(in.X)
			case *ssa.ChangeInterface:
				c.op, c.a = iCopy, operand(in.X)
			case *ssa.Convert:
				c.op, c.a = iConvert, operand(in.X)
				c.ti, c.ti2 = tinfo(in.X.Type()), tinfo(in.Type())
			case *ssa.MultiConvert:
				c.op, c.a = iConvert, operand(in.X)
				c.ti, c.ti2 = tinfo(in.X.Type()), tinfo(in.Type())
			case *ssa.MakeInterface:
				c.op, c.a = iMakeIface, operand(in.X)
				c.ti = tinfo(in.X.Type())
			case *ssa.MakeClosure:
				c.op = iMakeClosure
				c.x = in.Fn.(*ssa.Function)
				for _, b := range in.Bindings {
					c.args = append(c.args, operand(b))
				}
			case *ssa.MakeMap:
				c.op = iMakeMap
				c.ti = tinfo(in.Type())
			case *ssa.MakeChan:
				c.op, c.a = iMakeChan, operand(in.Size)
				c.ti = tinfo(in.Type())
			case *ssa.MakeSlice:
				c.op, c.a, c.b = iMakeSlice, operand(in.Len), operand(in.Cap)
				c.n = 0
				if in.Len == in.Cap {
					c.n = 1
				}
				c.ti = tinfo(in.Type().Underlying())
				c.ti2 = tinfo(in.Len.Type())
			case *ssa.Slice:
				c.op, c.a = iSlice, operand(in.X)
				c.ti = tinfo(in.X.Type())
				c.args = []int32{math.MaxInt32, math.MaxInt32, math.MaxInt32}
				if in.Low != nil {
					c.args[0] = operand(in.Low)
				}
				if in.High != nil {
					c.args[1] = operand(in.High)
				}
				if in.Max != nil {
					c.args[2] = operand(in.Max)
				}
				var ts [3]*TInfo
				for k, v := range []ssa.Value{in.Low, in.High, in.Max} {
					if v != nil {
						ts[k] = tinfo(v.Type())
					}
				}
				c.x = ts
			case *ssa.SliceToArrayPointer:
				c.op, c.a = iSliceToArr, operand(in.X)
				c.ti = tinfo(in.Type().Underlying()).elem
				if c.ti.kind != KArray {
					c.ti = tinfo(c.ti.under)
				}
			case *ssa.FieldAddr:
				c.op, c.a, c.n = iFieldAddr, operand(in.X), in.Field
			case *ssa.Field:
				c.op, c.a, c.n = iField, operand(in.X), in.Field
				c.ti = tinfo(in.Type())
			case *ssa.IndexAddr:
				c.op, c.a, c.b = iIndexAddr, operand(in.X), operand(in.Index)
				c.ti, c.ti2 = tinfo(in.X.Type().Underlying()), tinfo(in.Index.Type())
			case *ssa.Index:
				c.op, c.a, c.b = iIndex, operand(in.X), operand(in.Index)
				c.ti, c.ti2 = tinfo(in.X.Type().Underlying()), tinfo(in.Index.Type())
			case *ssa.Lookup:
				c.op, c.a, c.b = iLookup, operand(in.X), operand(in.Index)
				c.ti, c.ti2 = tinfo(in.X.Type().Underlying()), tinfo(in.Index.Type())
				if in.CommaOk {
					c.n = 1
				}
			case *ssa.Select:
				c.op = iSelect
				c.x = in
				for _, s := range in.States {
					c.args = append(c.args, operand(s.Chan))
					if s.Send != nil {
						c.args = append(c.args, operand(s.Send))
					} else {
						c.args = append(c.args, math.MaxInt32)
					}
				}
			case *ssa.Range:
				c.op, c.a = iRange, operand(in.X)
				c.ti = tinfo(in.X.Type().Underlying())
			case *ssa.Next:
				c.op, c.a = iNext, operand(in.Iter)
				c.n = 0
				if in.IsString {
					c.n = 1
				}
				c.ti = tinfo(in.Type())
			case *ssa.TypeAssert:
				c.op, c.a = iTypeAssert, operand(in.X)
				c.ti = tinfo(in.AssertedType)
				if in.CommaOk {
					c.n = 1
				}
			case *ssa.Extract:
				c.op, c.a, c.n = iExtract, operand(in.Tuple), in.Index
			case *ssa.Call:
				c.op = iCall
				c.call = m.callInfo(&in.Call, operand)
				for _, a := range in.Call.Args {
					c.args = append(c.args, operand(a))
				}
			case *ssa.Go:
				c.op = iGo
				c.call = m.callInfo(&in.Call, operand)
				for _, a := range in.Call.Args {
					c.args = append(c.args, operand(a))
				}
			case *ssa.Defer:
				c.op = iDefer
				x.hasDefer = true
				c.call = m.callInfo(&in.Call, operand)
				for _, a := range in.Call.Args {
					c.args = append(c.args, operand(a))
				}
				c.b = math.MaxInt32
				if in.DeferStack != nil {
					c.b = operand(in.DeferStack)
				}
			case *ssa.RunDefers:
				c.op = iRunDefers
			case *ssa.Send:
				c.op, c.a, c.b = iSend, operand(in.Chan), operand(in.X)
			case *ssa.Store:
				c.op, c.a, c.b = iStore, operand(in.Addr), operand(in.Val)
				c.ti = tinfo(in.Val.Type())
			case *ssa.MapUpdate:
				c.op, c.a, c.b, c.c = iMapUpdate, operand(in.Map), operand(in.Key), operand(in.Value)
				c.ti = tinfo(in.Map.Type().Underlying())
			case *ssa.Panic:
				c.op, c.a = iPanic, operand(in.X)
			case *ssa.Jump:
				c.op = iJump
				c.succ[0] = mkEdge(b, 0)
			case *ssa.If:
				c.op, c.a = iIf, operand(in.Cond)
				c.succ[0], c.succ[1] = mkEdge(b, 0), mkEdge(b, 1)
			case *ssa.Return:
				c.op = iReturn
				for _, r := range in.Results {
					c.args = append(c.args, operand(r))
				}
			default:
				c.op = iUnsupported
				c.x = fmt.Sprintf("instruction %T", in)
			}
			blk.ins = append(blk.ins, c)
		}
	}
	if callsDeferStack(f) {
		x.hasDefer = true
	}
	x.findRegions()
}

func callsDeferStack(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "ssa:deferstack" {
					return true
				}
			}
		}
	}
	return false
}

func (m *Machine) callInfo(cc *ssa.CallCommon, operand func(ssa.Value) int32) *callInfo {
	ci := &callInfo{common: cc, sig: cc.Signature()}
	ci.resT = tinfo(cc.Signature().Results())
	if cc.Signature().Results().Len() == 1 {
		ci.resT = tinfo(cc.Signature().Results().At(0).Type())
	}
	for _, a := range cc.Args {
		ci.argT = append(ci.argT, tinfo(a.Type()))
	}
	if cc.IsInvoke() {
		ci.invoke = cc.Method
		ci.fnOp = operand(cc.Value)
		return ci
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = v.Name()
	case *ssa.Function:
		ci.static = m.fn(v)
	default:
		ci.fnOp = operand(v)
	}
	return ci
}

func (m *Machine) constVal(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return m.constant(v)
	case *ssa.Function:
		return Value{r: &Closure{fn: v}}
	case *ssa.Global:
		return m.global(v)
	case *ssa.Builtin:
		return Value{r: &NativeV{v.Name()}}
	}
	panic(fmt.Sprintf("constVal: %T", v))
}

func (m *Machine) constant(c *ssa.Const) Value {
	t := tinfo(c.Type())
	if c.Value == nil {
		save := m.initing
		m.initing++
		v := m.zero(t)
		m.initing = save
		return v
	}
	switch t.kind {
	case KBool:
		if constant.BoolVal(c.Value) {
			return Value{n: 1}
		}
		return Value{}
	case KInt:
		if t.signed {
			return Value{n: uint64(c.Int64())}
		}
		return Value{n: c.Uint64()}
	case KFloat:
		f := c.Float64()
		if t.bits == 32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	case KString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		return mkStr(string(rune(c.Int64())))
	case KUnsafe:
		return Value{}
	case KComplex:
		return Value{r: c.Complex128()}
	}
	panic(fmt.Sprintf("constant: %v", c))
}

// global returns a pointer to the given global, initialising its package.
func (m *Machine) global(g *ssa.Global) Value {
	m.initPackage(g.Pkg)
	return m.globalPtr(g)
}

func (m *Machine) globalPtr(g *ssa.Global) Value {
	if o, ok := m.globals[g]; ok {
		return Value{r: o}
	}
	save := m.initing
	m.initing++
	o := &Obj{serial: 0, v: []Value{m.zero(tinfo(g.Type()).elem)}}
	m.initing = save
	m.globals[g] = o
	return Value{r: o}
}

func (m *Machine) initPackage(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	if skipInit(p.Pkg.Path()) {
		return
	}
	if m.ex.debug {
		debugf("INIT %s\n", p.Pkg.Path())
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	saveI, saveSteps, saveUndo := m.initing, m.steps, m.noMerge
	m.initing++
	func() {
		defer func() {
			m.initing, m.noMerge = saveI, saveUndo
			m.steps = saveSteps
			if r := recover(); r != nil {
				if pa, ok := r.(*pathAbort); ok && pa.kind == abUnsupported {
					m.note("init " + p.Pkg.Path() + ": " + pa.msg)
					return
				}
				if tp, ok := r.(*targetPanic); ok {
					m.note("init " + p.Pkg.Path() + ": panic " + m.panicText(tp))
					return
				}
				panic(r)
			}
		}()
		m.initNow = init
		m.callFn(m.fn(init), nil, nil)
	}()
}

var skipPkgs = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "unsafe": true,
	"sync": true, "sync/atomic": true, "internal/reflectlite": true, "os/exec": true,
	"internal/poll": true, "internal/godebug": true, "net": true, "log": true, "testing": true,
	"internal/cpu": true, "internal/testlog": true, "flag": true, "io/fs": false,
}

func skipInit(path string) bool {
	if v, ok := skipPkgs[path]; ok {
		return v
	}
	if len(path) > 8 && path[:8] == "runtime/" || len(path) > 17 && path[:17] == "internal/runtime/" || len(path) > 17 && path[:17] == "internal/syscall/" {
		return true
	}
	return false
}
