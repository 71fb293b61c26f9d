package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type extFn func(m *Machine, fn *Fn, args []Value) (Value, bool)

type abortKind int

const (
	abAssume abortKind = iota
	abUnsupported
	abBudget
	abKill
	abStop // path ended deliberately (violation already recorded)
	abEngine
	abDeadline
)

type pathAbort struct {
	kind abortKind
	msg  string
}

type targetPanic struct {
	v     Value // interface value
	msg   string
	rt    bool
	trace string
}

type deferred struct {
	fn   func()
	next *deferred
}

type frame struct {
	fn        *Fn
	regs      []Value
	caller    *frame
	pos       token.Pos
	defers    *deferred
	panicking bool
	pv        any
	depth     int
	result    Value
	returned  bool
}

func (fr *frame) get(o int32) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.fn.consts[-o-1]
}

const maxDepth = 2500

func (m *Machine) serial() uint32 {
	if m.initing > 0 {
		return 0
	}
	return m.curSerial
}

func (m *Machine) unsupported(msg string) {
	panic(&pathAbort{abUnsupported, msg + m.where()})
}

func (m *Machine) where() string {
	s := ""
	n := 0
	for fr := m.g.fr; fr != nil && n < 6; fr = fr.caller {
		s += " < " + fr.fn.name
		if fr.pos.IsValid() {
			p := m.prog.Fset.Position(fr.pos)
			s += fmt.Sprintf(":%d", p.Line)
		}
		n++
	}
	return s
}

func (m *Machine) trace() string {
	var sb strings.Builder
	n := 0
	for fr := m.g.fr; fr != nil && n < 14; fr = fr.caller {
		p := m.prog.Fset.Position(fr.pos)
		fmt.Fprintf(&sb, "\n    %s (%s:%d)", fr.fn.name, p.Filename, p.Line)
		n++
	}
	return sb.String()
}

// rtPanic raises a Go run-time panic in the interpreted program.
func (m *Machine) rtPanic(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{msg: "runtime error: " + msg, rt: true, trace: m.trace()})
}

func (m *Machine) nilDeref() {
	m.rtPanic("invalid memory address or nil pointer dereference")
}

func (m *Machine) panicText(tp *targetPanic) string {
	if tp.msg != "" {
		return tp.msg
	}
	return m.describe(tp.v)
}

func (m *Machine) describe(v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "<value>"
		}
	}()
	if i, ok := v.r.(*Iface); ok {
		return m.formatAny(i, 'v', false)
	}
	return "nil"
}

func (m *Machine) callFn(fn *Fn, args []Value, free []Value) Value {
	if fn.ext != nil {
		if v, ok := fn.ext(m, fn, args); ok {
			return v
		}
	}
	f := fn.f
	if f.Blocks == nil {
		m.unsupported("no body: " + fn.name)
	}
	if f.Synthetic == "package initializer" && m.initNow != f {
		return Value{} // packages are initialised on first use
	}
	if !fn.ready {
		fn.compile()
	}
	g := m.g
	fr := &frame{fn: fn, caller: g.fr}
	if g.fr != nil {
		fr.depth = g.fr.depth + 1
		if fr.depth > maxDepth {
			if m.spec > 0 {
				panic(specAbort{})
			}
			panic(&targetPanic{msg: "stack overflow (recursion deeper than the engine's limit)", rt: true, trace: m.trace()})
		}
	}
	// registers
	need := fn.nregs
	base := g.top
	if base+need > len(g.stack) {
		n := 4096
		if need > n {
			n = need
		}
		g.saved = append(g.saved, stackSave{g.stack, g.top, fr.depth})
		g.stack = make([]Value, n)
		base = 0
	}
	fr.regs = g.stack[base : base+need : base+need]
	g.top = base + need
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], free)
	g.fr = fr
	var res Value
	if fn.hasDefer {
		res = m.runDeferring(fr)
	} else {
		res = m.run(fr, fn.blocks[0], -1)
	}
	g.fr = fr.caller
	if len(g.saved) > 0 && g.saved[len(g.saved)-1].depth == fr.depth && base == 0 {
		s := g.saved[len(g.saved)-1]
		g.saved = g.saved[:len(g.saved)-1]
		g.stack, g.top = s.stack, s.top
	} else {
		g.top = base
	}
	return res
}

type stackSave struct {
	stack []Value
	top   int
	depth int
}

func (m *Machine) runDeferring(fr *frame) (res Value) {
	g := m.g
	stack, top, nsaved := g.stack, g.top, len(g.saved)
	func() {
		defer func() {
			if fr.returned {
				return
			}
			r := recover()
			if r == nil {
				// Goexit or similar
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			g.stack, g.top, g.saved = stack, top, g.saved[:nsaved]
			g.fr = fr
			fr.panicking = true
			fr.pv = tp
			m.runDefers(fr)
			// recovered
		}()
		res = m.run(fr, fr.fn.blocks[0], -1)
		fr.returned = true
	}()
	if !fr.returned {
		g.fr = fr
		if fr.fn.recover != nil {
			return m.run(fr, fr.fn.recover, -1)
		}
		return m.zeroResults(fr.fn)
	}
	return res
}

func (m *Machine) zeroResults(fn *Fn) Value {
	switch len(fn.resT) {
	case 0:
		return Value{}
	case 1:
		return m.zero(fn.resT[0])
	}
	vs := make([]Value, len(fn.resT))
	for i, t := range fn.resT {
		vs[i] = m.zero(t)
	}
	return Value{r: vs}
}

func (m *Machine) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		m.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.pv)
	}
}

func (m *Machine) runDefer(fr *frame, d *deferred) {
	g := m.g
	stack, top, nsaved := g.stack, g.top, len(g.saved)
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			g.stack, g.top, g.saved = stack, top, g.saved[:nsaved]
			g.fr = fr
			fr.panicking = true
			fr.pv = tp
		}
	}()
	d.fn()
}

func (m *Machine) jump(fr *frame, e *edge) *Blk {
	b := e.to
	if n := len(b.phis); n > 0 {
		if n == 1 {
			p := &b.phis[0]
			fr.regs[p.dst] = fr.get(p.src[e.pred])
		} else {
			var tmp [8]Value
			vs := tmp[:0]
			for i := range b.phis {
				vs = append(vs, fr.get(b.phis[i].src[e.pred]))
			}
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = vs[i]
			}
		}
	}
	return b
}

// run executes fr from block b until it returns.
func (m *Machine) run(fr *frame, b *Blk, start int) Value {
	pc := 0
	if start > 0 {
		pc = start
	}
	for {
		if pc >= len(b.ins) {
			m.unsupported("fell off block")
		}
		in := &b.ins[pc]
		pc++
		m.steps++
		if m.steps >= m.stepCheck {
			m.checkBudget()
		}
		switch in.op {
		case iJump:
			b = m.jump(fr, in.succ[0])
			pc = 0
			continue
		case iIf:
			c := fr.get(in.a)
			var dir bool
			if t, ok := c.r.(*Term); ok {
				fr.pos = in.pos
				t = m.tc.norm(t)
				if t.isConst() {
					dir = t.k != 0
				} else {
					if in.reg != nil && m.noMerge == 0 && m.spec == 0 {
						if nb, res, done := m.tryMerge(fr, in, t); nb != nil {
							b, pc = nb, 0
							continue
						} else if done {
							return res
						}
					}
					dir = m.branch(t)
				}
			} else {
				dir = c.n != 0
			}
			if dir {
				b = m.jump(fr, in.succ[0])
			} else {
				b = m.jump(fr, in.succ[1])
			}
			pc = 0
			continue
		case iReturn:
			switch len(in.args) {
			case 0:
				return Value{}
			case 1:
				return fr.get(in.args[0])
			}
			vs := make([]Value, len(in.args))
			for i, a := range in.args {
				vs[i] = fr.get(a)
			}
			return Value{r: vs}
		case iBinInt:
			x, y := fr.get(in.a), fr.get(in.b)
			if x.r == nil && y.r == nil {
				// common fast cases
				switch in.tok {
				case token.ADD:
					fr.regs[in.dst] = Value{n: normInt(x.n+y.n, in.ti)}
					continue
				case token.SUB:
					fr.regs[in.dst] = Value{n: normInt(x.n-y.n, in.ti)}
					continue
				case token.AND:
					fr.regs[in.dst] = Value{n: x.n & y.n}
					continue
				case token.OR:
					fr.regs[in.dst] = Value{n: x.n | y.n}
					continue
				}
			}
			fr.pos = in.pos
			fr.regs[in.dst] = m.binInt(in.tok, in.ti, in.ti2, x, y)
		case iBinCmpInt:
			x, y := fr.get(in.a), fr.get(in.b)
			if x.r == nil && y.r == nil {
				var r bool
				if in.ti.signed {
					a, c := int64(x.n), int64(y.n)
					switch in.tok {
					case token.EQL:
						r = a == c
					case token.NEQ:
						r = a != c
					case token.LSS:
						r = a < c
					case token.LEQ:
						r = a <= c
					case token.GTR:
						r = a > c
					default:
						r = a >= c
					}
				} else {
					a, c := x.n, y.n
					switch in.tok {
					case token.EQL:
						r = a == c
					case token.NEQ:
						r = a != c
					case token.LSS:
						r = a < c
					case token.LEQ:
						r = a <= c
					case token.GTR:
						r = a > c
					default:
						r = a >= c
					}
				}
				fr.regs[in.dst] = Value{n: b2u(r)}
				continue
			}
			fr.pos = in.pos
			fr.regs[in.dst] = m.cmpInt(in.tok, in.ti, x, y)
		case iLoad:
			p := fr.get(in.a)
			if o, ok := p.r.(*Obj); ok && !in.ti.agg() && !o.isB && o.lazy == nil {
				fr.regs[in.dst] = o.v[p.n]
				continue
			}
			fr.pos = in.pos
			fr.regs[in.dst] = m.load(p, in.ti)
		case iStore:
			fr.pos = in.pos
			m.store(fr.get(in.a), fr.get(in.b), in.ti)
		case iFieldAddr:
			p := fr.get(in.a)
			if o, ok := p.r.(*Obj); ok {
				fr.regs[in.dst] = Value{n: uint64(in.n), r: m.get(o, int(p.n)).r}
				continue
			}
			fr.pos = in.pos
			if p.r == nil {
				m.nilDeref()
			}
			if sp, ok := p.r.(*SymPtr); ok {
				i := m.concretize(sp.idx)
				fr.regs[in.dst] = Value{n: uint64(in.n), r: m.get(sp.o, int(i)+sp.off).r}
				continue
			}
			m.unsupported(fmt.Sprintf("FieldAddr of %T", p.r))
		case iIndexAddr:
			fr.pos = in.pos
			fr.regs[in.dst] = m.indexAddr(fr.get(in.a), fr.get(in.b), in)
		default:
			fr.pos = in.pos
			m.step(fr, in)
		}
	}
}

// step executes one straight-line instruction.
func (m *Machine) step(fr *frame, in *ins) {
	switch in.op {
	case iJump, iIf, iReturn:
		panic("step: control flow")
	case iBinInt:
		fr.regs[in.dst] = m.binInt(in.tok, in.ti, in.ti2, fr.get(in.a), fr.get(in.b))
	case iBinCmpInt:
		fr.regs[in.dst] = m.cmpInt(in.tok, in.ti, fr.get(in.a), fr.get(in.b))
	case iLoad:
		fr.regs[in.dst] = m.load(fr.get(in.a), in.ti)
	case iStore:
		m.store(fr.get(in.a), fr.get(in.b), in.ti)
	case iFieldAddr:
		p := fr.get(in.a)
		if o, ok := p.r.(*Obj); ok {
			fr.regs[in.dst] = Value{n: uint64(in.n), r: m.get(o, int(p.n)).r}
			return
		}
		if p.r == nil {
			m.nilDeref()
		}
		m.unsupported("FieldAddr")
	case iIndexAddr:
		fr.regs[in.dst] = m.indexAddr(fr.get(in.a), fr.get(in.b), in)
	case iNop:
	case iAlloc:
		m.alloc(in.ti.size)
		fr.regs[in.dst] = Value{r: &Obj{serial: m.serial(), v: []Value{m.zero(in.ti)}}}
	case iBinOther:
		fr.regs[in.dst] = m.binOther(in, fr.get(in.a), fr.get(in.b))
	case iUnop:
		fr.regs[in.dst] = m.unop(in, fr.get(in.a))
	case iConvert:
		fr.regs[in.dst] = m.convert(fr.get(in.a), in.ti, in.ti2)
	case iCopy:
		fr.regs[in.dst] = fr.get(in.a)
	case iMakeIface:
		fr.regs[in.dst] = Value{r: &Iface{t: in.ti, v: fr.get(in.a)}}
	case iMakeClosure:
		c := &Closure{fn: in.x.(*ssa.Function)}
		for _, a := range in.args {
			c.free = append(c.free, fr.get(a))
		}
		fr.regs[in.dst] = Value{r: c}
	case iMakeMap:
		fr.regs[in.dst] = Value{r: m.newMap(in.ti)}
	case iMakeChan:
		n := fr.get(in.a)
		k := n.n
		if t, ok := n.r.(*Term); ok {
			k = m.concretize(t)
		}
		fr.regs[in.dst] = Value{r: &ChanV{cap: int(k), elem: in.ti.elem}}
	case iMakeSlice:
		fr.regs[in.dst] = m.makeSlice(in, fr.get(in.a), fr.get(in.b))
	case iSlice:
		ts := in.x.([3]*TInfo)
		var lo, hi, mx *Value
		if in.args[0] != math.MaxInt32 {
			v := m.to64(fr.get(in.args[0]), ts[0])
			lo = &v
		}
		if in.args[1] != math.MaxInt32 {
			v := m.to64(fr.get(in.args[1]), ts[1])
			hi = &v
		}
		if in.args[2] != math.MaxInt32 {
			v := m.to64(fr.get(in.args[2]), ts[2])
			mx = &v
		}
		fr.regs[in.dst] = m.slice(fr.get(in.a), in.ti, lo, hi, mx)
	case iSliceToArr:
		s := m.concLen(m.sl(fr.get(in.a)))
		if s == nil || s.len < in.ti.n {
			if s == nil && in.ti.n == 0 {
				fr.regs[in.dst] = Value{}
				return
			}
			m.rtPanic("cannot convert slice to array pointer: length too short")
		}
		// only usable for reading; make a copy
		o := m.newArr(in.ti.elem, in.ti.n)
		for i := 0; i < in.ti.n; i++ {
			m.rawSet(o, i, m.cloneVal(m.get(s.o, s.off+i), in.ti.elem))
		}
		fr.regs[in.dst] = Value{r: &Obj{serial: m.serial(), v: []Value{{r: o}}}}
	case iField:
		o := fr.get(in.a).r.(*Obj)
		fr.regs[in.dst] = m.get(o, in.n)
	case iIndex:
		fr.regs[in.dst] = m.index(fr.get(in.a), fr.get(in.b), in)
	case iLookup:
		fr.regs[in.dst] = m.lookup(fr.get(in.a), fr.get(in.b), in)
	case iSelect:
		fr.regs[in.dst] = m.selectStmt(fr, in)
	case iRange:
		fr.regs[in.dst] = m.rangeIter(fr.get(in.a), in.ti)
	case iNext:
		fr.regs[in.dst] = m.next(fr.get(in.a), in)
	case iTypeAssert:
		fr.regs[in.dst] = m.typeAssert(fr.get(in.a), in.ti, in.n == 1)
	case iExtract:
		fr.regs[in.dst] = fr.get(in.a).r.([]Value)[in.n]
	case iCall:
		if m.spec > 0 && !(in.call.builtin == "len" || in.call.builtin == "cap") {
			panic(specAbort{})
		}
		v := m.doCall(fr, in)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
	case iGo:
		f := m.prepCall(fr, in)
		m.spawn(f)
	case iDefer:
		f := m.prepCall(fr, in)
		target := fr
		if in.b != math.MaxInt32 {
			target = fr.get(in.b).r.(*NativeV).x.(*frame)
		}
		target.defers = &deferred{fn: f, next: target.defers}
	case iRunDefers:
		m.runDefers(fr)
	case iSend:
		m.chanSend(fr.get(in.a), fr.get(in.b))
	case iMapUpdate:
		mv, _ := fr.get(in.a).r.(*MapV)
		if mv == nil {
			m.plainPanic("assignment to entry in nil map")
		}
		m.mapSet(mv, fr.get(in.b), m.cloneVal(fr.get(in.c), mv.t.elem))
	case iPanic:
		v := fr.get(in.a)
		if v.r == nil {
			m.plainPanic("panic called with nil argument")
		}
		panic(&targetPanic{v: v, trace: m.trace()})
	default:
		m.unsupported(fmt.Sprintf("instruction %v %v", in.op, in.x))
	}
}

func (m *Machine) plainPanic(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{msg: msg, rt: true, trace: m.trace()})
}

func normInt(v uint64, t *TInfo) uint64 {
	if t.bits == 64 {
		return v
	}
	if t.signed {
		return uint64(sextv(v&mask(t.bits), t.bits))
	}
	return v & mask(t.bits)
}

func (m *Machine) divZero() { m.rtPanic("integer divide by zero") }

func (m *Machine) binInt(tok token.Token, t, t2 *TInfo, x, y Value) Value {
	if x.r == nil && y.r == nil {
		a, b := x.n, y.n
		switch tok {
		case token.ADD:
			a += b
		case token.SUB:
			a -= b
		case token.MUL:
			a *= b
		case token.QUO:
			if b == 0 {
				m.divZero()
			}
			if t.signed {
				if int64(b) == -1 {
					a = -a
				} else {
					a = uint64(int64(a) / int64(b))
				}
			} else {
				a /= b
			}
		case token.REM:
			if b == 0 {
				m.divZero()
			}
			if t.signed {
				if int64(b) == -1 {
					a = 0
				} else {
					a = uint64(int64(a) % int64(b))
				}
			} else {
				a %= b
			}
		case token.AND:
			a &= b
		case token.OR:
			a |= b
		case token.XOR:
			a ^= b
		case token.AND_NOT:
			a &^= b
		case token.SHL:
			if t2.signed && int64(b) < 0 {
				m.rtPanic("negative shift amount")
			}
			if b >= 64 {
				a = 0
			} else {
				a <<= b
			}
		case token.SHR:
			if t2.signed && int64(b) < 0 {
				m.rtPanic("negative shift amount")
			}
			if t.signed {
				if b >= 63 {
					b = 63
				}
				a = uint64(int64(a) >> b)
			} else if b >= 64 {
				a = 0
			} else {
				a >>= b
			}
		default:
			m.unsupported("binop " + tok.String())
		}
		return Value{n: normInt(a, t)}
	}
	tc := m.tc
	if tok == token.SHL || tok == token.SHR {
		cnt := m.to64(y, t2)
		if t2.signed {
			if ct, ok := cnt.r.(*Term); ok {
				if m.branch(tc.Slt(ct, tc.Const(0, 64))) {
					m.rtPanic("negative shift amount")
				}
			} else if int64(cnt.n) < 0 {
				m.rtPanic("negative shift amount")
			}
		}
		a := m.term(x, t)
		var n *Term
		if ct, ok := cnt.r.(*Term); ok {
			ct = tc.norm(ct)
			if t.bits == 64 {
				n = ct
			} else if ct.uhi <= mask(t.bits) {
				n = tc.Extract(ct, 0, t.bits)
			} else {
				n = tc.Ite(tc.Ult(ct, tc.Const(uint64(t.bits), 64)), tc.Extract(ct, 0, t.bits), tc.Const(uint64(t.bits), t.bits))
			}
		} else {
			k := cnt.n
			if k > uint64(t.bits) {
				k = uint64(t.bits)
			}
			n = tc.Const(k, t.bits)
			if t.bits == 8 && k > 255 {
				n = tc.Const(255, 8)
			}
		}
		op := OpShl
		if tok == token.SHR {
			op = OpLshr
			if t.signed {
				op = OpAshr
			}
		}
		return m.wrap(tc.Shift(op, a, n), t)
	}
	a, b := m.term(x, t), m.term(y, t)
	var r *Term
	switch tok {
	case token.ADD:
		r = tc.Add(a, b)
	case token.SUB:
		r = tc.Sub(a, b)
	case token.MUL:
		r = tc.Mul(a, b)
	case token.QUO, token.REM:
		if m.branchEq0(b) {
			m.divZero()
		}
		op := OpUDiv
		switch {
		case t.signed && tok == token.QUO:
			op = OpSDiv
		case t.signed:
			op = OpSRem
		case tok == token.REM:
			op = OpURem
		}
		r = tc.Div(op, a, b)
	case token.AND:
		r = tc.And(a, b)
	case token.OR:
		r = tc.Or(a, b)
	case token.XOR:
		r = tc.Xor(a, b)
	case token.AND_NOT:
		r = tc.And(a, tc.Not(b))
	default:
		m.unsupported("binop " + tok.String())
	}
	return m.wrap(r, t)
}

func (m *Machine) branchEq0(b *Term) bool {
	c := m.tc.Eq(b, m.tc.Const(0, b.w))
	return m.cond(c)
}

// cond resolves a bool term to a direction (forking if necessary).
func (m *Machine) cond(c *Term) bool {
	c = m.tc.norm(c)
	if c.isConst() {
		return c.k != 0
	}
	return m.branch(c)
}

func (m *Machine) cmpTerm(tok token.Token, signed bool, a, b *Term) *Term {
	tc := m.tc
	lt := tc.Ult
	if signed {
		lt = tc.Slt
	}
	switch tok {
	case token.EQL:
		return tc.Eq(a, b)
	case token.NEQ:
		return tc.BNot(tc.Eq(a, b))
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return tc.BNot(lt(b, a))
	default:
		return tc.BNot(lt(a, b))
	}
}

func (m *Machine) cmpInt(tok token.Token, t *TInfo, x, y Value) Value {
	return m.wrapBool(m.cmpTerm(tok, t.signed, m.term(x, t), m.term(y, t)))
}

func (m *Machine) wrapBool(t *Term) Value {
	t = m.tc.norm(t)
	if t.isConst() {
		return Value{n: t.k}
	}
	return Value{r: t}
}

func (m *Machine) binOther(in *ins, x, y Value) Value {
	t := in.ti
	switch t.kind {
	case KFloat:
		return m.binFloat(in.tok, t, x, y)
	case KString:
		if in.tok == token.ADD {
			return m.strConcat(x, y)
		}
		return m.strCompare(in.tok, x, y)
	case KBool:
		if x.r == nil && y.r == nil {
			switch in.tok {
			case token.EQL:
				return Value{n: b2u(x.n == y.n)}
			case token.NEQ:
				return Value{n: b2u(x.n != y.n)}
			case token.AND, token.LAND:
				return Value{n: x.n & y.n}
			case token.OR, token.LOR:
				return Value{n: x.n | y.n}
			}
		}
		a, b := m.term(x, t), m.term(y, t)
		switch in.tok {
		case token.EQL:
			return m.wrapBool(m.tc.Eq(a, b))
		case token.NEQ:
			return m.wrapBool(m.tc.BNot(m.tc.Eq(a, b)))
		}
	case KComplex:
		m.unsupported("complex arithmetic")
	}
	if in.tok == token.EQL || in.tok == token.NEQ {
		e := m.equal(x, y, t, in.ti2)
		if in.tok == token.NEQ {
			e = m.tc.BNot(e)
		}
		return m.wrapBool(e)
	}
	m.unsupported(fmt.Sprintf("binop %v on %v", in.tok, t))
	return Value{}
}

// equal compares two values of the given types (t1 and t2 differ only when
// one side is an interface).
func (m *Machine) equal(x, y Value, t1, t2 *TInfo) *Term {
	tc := m.tc
	if t1.kind == KIface && t2.kind != KIface && t2.kind != KPtr {
		y = Value{r: &Iface{t: t2, v: y}}
	} else if t1.kind == KIface && t2.kind != KIface {
		if !(t2.under == types.Typ[types.UntypedNil]) {
			y = Value{r: &Iface{t: t2, v: y}}
		}
	} else if t2.kind == KIface && t1.kind != KIface {
		if !(t1.under == types.Typ[types.UntypedNil]) {
			x = Value{r: &Iface{t: t1, v: x}}
		}
		t1 = t2
	}
	switch t1.kind {
	case KBool, KInt:
		if x.r == nil && y.r == nil {
			return tc.Bool(x.n == y.n)
		}
		return tc.Eq(m.term(x, t1), m.term(y, t1))
	case KFloat:
		v := m.binFloat(token.EQL, t1, x, y)
		return m.boolTerm(v)
	case KString:
		return m.boolTerm(m.strCompare(token.EQL, x, y))
	case KPtr, KUnsafe, KChan, KMap, KFunc, KSlice:
		return tc.Bool(m.refEqual(x, y))
	case KIface:
		a, _ := x.r.(*Iface)
		b, _ := y.r.(*Iface)
		if a == nil || b == nil {
			return tc.Bool(a == nil && b == nil)
		}
		if a.t != b.t {
			return tc.f
		}
		if !a.t.comparable {
			m.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return m.equal(a.v, b.v, a.t, b.t)
	case KStruct:
		a, b := x.r.(*Obj), y.r.(*Obj)
		res := tc.t
		for i, f := range t1.fields {
			if st, ok := t1.under.(*types.Struct); ok && st.Field(i).Name() == "_" {
				continue
			}
			res = tc.BAnd(res, m.equal(m.get(a, i), m.get(b, i), f, f))
			if res == tc.f {
				return res
			}
		}
		return res
	case KArray:
		a, b := x.r.(*Obj), y.r.(*Obj)
		res := tc.t
		for i := 0; i < t1.n; i++ {
			res = tc.BAnd(res, m.equal(m.get(a, i), m.get(b, i), t1.elem, t1.elem))
			if res == tc.f {
				return res
			}
		}
		return res
	}
	m.unsupported("equal on " + t1.String())
	return nil
}

func (m *Machine) boolTerm(v Value) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	return m.tc.Bool(v.n != 0)
}

func (m *Machine) refEqual(x, y Value) bool {
	if x.r == nil || y.r == nil {
		return x.r == nil && y.r == nil
	}
	switch a := x.r.(type) {
	case *Obj:
		b, ok := y.r.(*Obj)
		return ok && a == b && x.n == y.n
	case *SymPtr:
		m.unsupported("comparison of symbolic pointers")
	case *SliceV:
		b, ok := y.r.(*SliceV)
		return ok && a == b
	}
	return x.r == y.r
}

func (m *Machine) unop(in *ins, x Value) Value {
	t := in.ti
	switch in.tok {
	case token.NOT:
		if x.r == nil {
			return Value{n: x.n ^ 1}
		}
		return m.wrapBool(m.tc.BNot(x.r.(*Term)))
	case token.SUB:
		if t.kind == KFloat {
			return m.negFloat(x, t)
		}
		if x.r == nil {
			return Value{n: normInt(-x.n, t)}
		}
		return m.wrap(m.tc.Neg(x.r.(*Term)), t)
	case token.XOR:
		if x.r == nil {
			return Value{n: normInt(^x.n, t)}
		}
		return m.wrap(m.tc.Not(x.r.(*Term)), t)
	case token.ARROW:
		v, ok := m.chanRecv(x, t.elem)
		if in.n == 1 {
			return Value{r: []Value{v, {n: b2u(ok)}}}
		}
		return v
	}
	m.unsupported("unop " + in.tok.String())
	return Value{}
}

// to64 converts an integer value to a 64-bit one.
func (m *Machine) to64(v Value, t *TInfo) Value {
	x, ok := v.r.(*Term)
	if !ok {
		return v
	}
	if t.signed {
		x = m.tc.Sext(x, 64)
	} else {
		x = m.tc.Zext(x, 64)
	}
	if x.isConst() {
		return Value{n: x.k}
	}
	return Value{r: x}
}

// inRange branches on 0 <= idx < n. idx is a 64-bit value; n a concrete
// length or a term.
func (m *Machine) inRange(idx Value, n int, nT *Term) bool {
	x, ok := idx.r.(*Term)
	if !ok && nT == nil {
		return idx.n < uint64(n)
	}
	if !ok {
		x = m.tc.Const(idx.n, 64)
	}
	l := nT
	if l == nil {
		l = m.tc.Const(uint64(n), 64)
	}
	return m.cond(m.tc.Ult(x, l))
}

func (m *Machine) idxPanic(idx Value, n int, nT *Term) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	i := int64(idx.n)
	if t, ok := idx.r.(*Term); ok {
		i = int64(t.cv)
	}
	if nT != nil {
		n = int(nT.cv)
	}
	m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
}

func (m *Machine) indexAddr(p, idx Value, in *ins) Value {
	switch in.ti.kind {
	case KSlice:
		s, _ := p.r.(*SliceV)
		if s == nil {
			m.idxPanic(m.to64(idx, in.ti2), 0, nil)
		}
		if idx.r == nil && s.lenT == nil {
			if idx.n >= uint64(s.len) {
				m.idxPanic(idx, s.len, nil)
			}
			return Value{n: uint64(s.off) + idx.n, r: s.o}
		}
		i := m.to64(idx, in.ti2)
		if !m.inRange(i, s.len, s.lenT) {
			m.idxPanic(i, s.len, s.lenT)
		}
		if t, ok := i.r.(*Term); ok {
			t = m.tc.norm(t)
			if t.isConst() {
				i = Value{n: t.k}
			} else if s.lenT != nil {
				i = Value{n: m.concretize(t)}
			} else {
				return Value{r: &SymPtr{o: s.o, idx: t, n: s.len, off: s.off}}
			}
		}
		if s.o.lazy != nil && s.off+int(i.n) >= s.o.length() {
			m.grow(s.o, s.off+int(i.n)+1)
		}
		return Value{n: uint64(s.off) + i.n, r: s.o}
	case KPtr:
		if p.r == nil {
			m.nilDeref()
		}
		o, ok := p.r.(*Obj)
		if !ok {
			if sp, ok2 := p.r.(*SymPtr); ok2 {
				k := m.concretize(sp.idx)
				p = Value{n: k + uint64(sp.off), r: sp.o}
				o = sp.o
			} else {
				m.unsupported("IndexAddr of symbolic pointer")
			}
		}
		arr := m.get(o, int(p.n)).r.(*Obj)
		n := in.ti.elem.n
		if in.ti.elem.kind != KArray {
			n = arr.length()
		}
		i := m.to64(idx, in.ti2)
		if !m.inRange(i, n, nil) {
			m.idxPanic(i, n, nil)
		}
		if t, ok := i.r.(*Term); ok {
			t = m.tc.norm(t)
			if !t.isConst() {
				return Value{r: &SymPtr{o: arr, idx: t, n: n}}
			}
			i = Value{n: t.k}
		}
		return Value{n: i.n, r: arr}
	}
	m.unsupported("IndexAddr on " + in.ti.String())
	return Value{}
}

func (m *Machine) index(x, idx Value, in *ins) Value {
	i := m.to64(idx, in.ti2)
	switch in.ti.kind {
	case KString:
		return m.strIndex(x, i)
	case KArray:
		o := x.r.(*Obj)
		if !m.inRange(i, in.ti.n, nil) {
			m.idxPanic(i, in.ti.n, nil)
		}
		if t, ok := i.r.(*Term); ok {
			return m.loadSym(&SymPtr{o: o, idx: t, n: in.ti.n}, in.ti.elem)
		}
		return m.get(o, int(i.n))
	}
	m.unsupported("Index on " + in.ti.String())
	return Value{}
}

func (m *Machine) sl(v Value) *SliceV {
	s, _ := v.r.(*SliceV)
	return s
}

// concLen makes the length of a slice concrete (forking if necessary).
func (m *Machine) concLen(s *SliceV) *SliceV {
	if s == nil || s.lenT == nil {
		return s
	}
	n := int(m.concretize(s.lenT))
	if n > 1<<22 {
		m.unsupported("large concretized length")
	}
	m.grow(s.o, s.off+n)
	return &SliceV{o: s.o, off: s.off, len: n, cap: n}
}

func (m *Machine) makeSlice(in *ins, l, c Value) Value {
	elem := in.ti.elem
	n := m.to64(l, in.ti2)
	esz := elem.size
	if esz == 0 {
		esz = 1
	}
	if t, ok := n.r.(*Term); ok {
		t = m.tc.norm(t)
		if t.isConst() {
			n = Value{n: t.k}
		} else {
			if m.spec > 0 {
				panic(specAbort{})
			}
			if m.cond(m.tc.BNot(m.tc.Ult(t, m.tc.Const(uint64(1<<47)/uint64(esz), 64)))) {
				m.rtPanic("makeslice: len out of range")
			}
			m.allocSym(t, esz)
			if t.uhi-t.ulo <= 3 {
				n = Value{n: m.concretize(t)}
			} else {
				o := &Obj{serial: m.serial(), isB: isByte(elem), lazy: elem}
				return Value{r: &SliceV{o: o, lenT: t}}
			}
		}
	}
	cp := n
	if in.n == 0 {
		cp = c
		if t, ok := cp.r.(*Term); ok {
			t = m.tc.norm(t)
			if t.w < 64 {
				t = m.tc.Zext(t, 64)
			}
			if m.cond(m.tc.BNot(m.tc.Ult(t, m.tc.Const(uint64(1<<47)/uint64(esz), 64)))) {
				m.rtPanic("makeslice: cap out of range")
			}
			if m.cond(m.tc.Ult(t, m.tc.Const(n.n, 64))) {
				m.rtPanic("makeslice: cap out of range")
			}
			m.allocSym(t, esz)
			cp = n // the extra capacity is not observable except through cap()
		}
	}
	if int64(n.n) < 0 || n.n > uint64(1<<47)/uint64(esz) {
		m.rtPanic("makeslice: len out of range")
	}
	if cp.n < n.n || cp.n > uint64(1<<47)/uint64(esz) {
		m.rtPanic("makeslice: cap out of range")
	}
	m.alloc(int64(cp.n) * esz)
	if cp.n > 1<<24 {
		m.unsupported("very large allocation")
	}
	return Value{r: &SliceV{o: m.newArr(elem, int(cp.n)), len: int(n.n), cap: int(cp.n)}}
}

func (m *Machine) slice(x Value, t *TInfo, lo, hi, mx *Value) Value {
	tc := m.tc
	if t.kind == KString {
		s := m.str(x)
		n := len(s.s)
		l, h := Value{}, Value{n: uint64(n)}
		if lo != nil {
			l = *lo
		}
		if hi != nil {
			h = *hi
		}
		// 0 <= l <= h <= n
		if ht, ok := h.r.(*Term); ok {
			if m.cond(tc.Ult(tc.Const(uint64(n), 64), ht)) {
				m.rtPanic("slice bounds out of range")
			}
			h = Value{n: m.concretize(ht)}
		}
		if lt, ok := l.r.(*Term); ok {
			if m.cond(tc.Ult(tc.Const(h.n, 64), lt)) {
				m.rtPanic("slice bounds out of range")
			}
			l = Value{n: m.concretize(lt)}
		}
		if h.n > uint64(n) || l.n > h.n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", int64(l.n), int64(h.n), n))
		}
		return m.subStr(s, int(l.n), int(h.n))
	}
	var s *SliceV
	switch t.kind {
	case KSlice:
		s = m.sl(x)
		if s == nil {
			s = &SliceV{}
		}
	default: // pointer to array
		if x.r == nil {
			m.nilDeref()
		}
		o, ok := x.r.(*Obj)
		if !ok {
			m.unsupported("slice of symbolic pointer")
		}
		arr := m.get(o, int(x.n)).r.(*Obj)
		s = &SliceV{o: arr, len: arr.length(), cap: arr.length()}
	}
	isNil := s.o == nil
	if s.lenT != nil {
		// lazily sized: capacity equals length
		l := Value{}
		if lo != nil {
			l = *lo
		}
		h := Value{r: s.lenT}
		if hi != nil {
			h = *hi
		}
		ht := m.t64(h)
		if hi != nil && m.cond(tc.Ult(s.lenT, ht)) {
			m.rtPanic("slice bounds out of range")
		}
		lt := m.t64(l)
		if m.cond(tc.Ult(ht, lt)) {
			m.rtPanic("slice bounds out of range")
		}
		li := int(m.concretize(lt))
		nl := tc.norm(tc.Sub(ht, tc.Const(uint64(li), 64)))
		if nl.isConst() {
			n := int(nl.k)
			if n > 1<<22 {
				m.unsupported("large concretized length")
			}
			m.grow(s.o, s.off+li+n)
			return Value{r: &SliceV{o: s.o, off: s.off + li, len: n, cap: n}}
		}
		return Value{r: &SliceV{o: s.o, off: s.off + li, lenT: nl}}
	}
	l, h, c := Value{}, Value{n: uint64(s.len)}, Value{n: uint64(s.cap)}
	if lo != nil {
		l = *lo
	}
	if hi != nil {
		h = *hi
	}
	if mx != nil {
		c = *mx
		if ct, ok := c.r.(*Term); ok {
			c = Value{n: m.concretize(ct)}
		}
		if c.n > uint64(s.cap) {
			m.rtPanic("slice bounds out of range (max)")
		}
	}
	if ht, ok := h.r.(*Term); ok {
		if m.cond(tc.Ult(tc.Const(c.n, 64), ht)) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", int64(ht.cv), c.n))
		}
		h = Value{n: m.concretize(ht)}
	}
	if h.n > c.n {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", int64(h.n), c.n))
	}
	if lt, ok := l.r.(*Term); ok {
		if m.cond(tc.Ult(tc.Const(h.n, 64), lt)) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", int64(lt.cv), h.n))
		}
		l = Value{n: m.concretize(lt)}
	}
	if l.n > h.n {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", int64(l.n), h.n))
	}
	if isNil {
		return Value{}
	}
	return Value{r: &SliceV{o: s.o, off: s.off + int(l.n), len: int(h.n - l.n), cap: int(c.n - l.n)}}
}

func (m *Machine) t64(v Value) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	return m.tc.Const(v.n, 64)
}

func (m *Machine) lenOf(v Value, t *TInfo) Value {
	switch t.kind {
	case KString:
		return Value{n: uint64(len(m.str(v).s))}
	case KSlice:
		s := m.sl(v)
		if s == nil {
			return Value{}
		}
		if s.lenT != nil {
			return m.wrap(s.lenT, intInfo)
		}
		return Value{n: uint64(s.len)}
	case KMap:
		mv, _ := v.r.(*MapV)
		if mv == nil {
			return Value{}
		}
		return Value{n: uint64(mv.n)}
	case KArray:
		return Value{n: uint64(t.n)}
	case KPtr:
		return Value{n: uint64(t.elem.n)}
	case KChan:
		c, _ := v.r.(*ChanV)
		if c == nil {
			return Value{}
		}
		return Value{n: uint64(len(c.buf))}
	}
	m.unsupported("len of " + t.String())
	return Value{}
}

var intInfo, byteInfo, boolInfo, stringInfo, runeInfo, errInfo *TInfo

func initTypes() {
	intInfo = tinfo(types.Typ[types.Int])
	byteInfo = tinfo(types.Typ[types.Uint8])
	boolInfo = tinfo(types.Typ[types.Bool])
	stringInfo = tinfo(types.Typ[types.String])
	runeInfo = tinfo(types.Typ[types.Rune])
	errInfo = tinfo(types.Universe.Lookup("error").Type())
}

// ------------------------------------------------------------------ calls

func (m *Machine) doCall(fr *frame, in *ins) Value {
	ci := in.call
	if ci.static != nil {
		var tmp [10]Value
		args := tmp[:0]
		for _, a := range in.args {
			args = append(args, fr.get(a))
		}
		return m.callFn(ci.static, args, nil)
	}
	args := make([]Value, 0, len(in.args)+1)
	if ci.invoke != nil {
		recv := fr.get(ci.fnOp)
		i, _ := recv.r.(*Iface)
		if i == nil {
			m.nilDeref()
		}
		if i.t == nil {
			return m.nativeInvoke(i, ci.invoke.Name(), fr, in)
		}
		f := m.method(i.t, ci.invoke)
		if f == nil {
			m.unsupported("method " + ci.invoke.FullName() + " on " + i.t.String())
		}
		args = append(args, i.v)
		for _, a := range in.args {
			args = append(args, fr.get(a))
		}
		return m.callFn(m.fn(f), args, nil)
	}
	for _, a := range in.args {
		args = append(args, fr.get(a))
	}
	if ci.builtin != "" {
		return m.builtin(fr, ci, args)
	}
	return m.callValue(fr.get(ci.fnOp), args)
}

func (m *Machine) callValue(f Value, args []Value) Value {
	c, _ := f.r.(*Closure)
	if c == nil {
		if f.r == nil {
			m.nilDeref()
		}
		m.unsupported(fmt.Sprintf("call of %T", f.r))
	}
	if c.nat != nil {
		return c.nat(m, args)
	}
	return m.callFn(m.fn(c.fn), args, c.free)
}

func (m *Machine) nativeInvoke(i *Iface, name string, fr *frame, in *ins) Value {
	m.unsupported("invoke on native value: " + name)
	return Value{}
}

// prepCall evaluates the operands of a go/defer statement.
func (m *Machine) prepCall(fr *frame, in *ins) func() {
	ci := in.call
	args := make([]Value, 0, len(in.args)+1)
	if ci.invoke != nil {
		i, _ := fr.get(ci.fnOp).r.(*Iface)
		if i == nil {
			m.nilDeref()
		}
		f := m.method(i.t, ci.invoke)
		args = append(args, i.v)
		for _, a := range in.args {
			args = append(args, fr.get(a))
		}
		return func() { m.callFn(m.fn(f), args, nil) }
	}
	for _, a := range in.args {
		args = append(args, fr.get(a))
	}
	if ci.static != nil {
		return func() { m.callFn(ci.static, args, nil) }
	}
	if ci.builtin != "" {
		return func() { m.builtin(m.g.fr, ci, args) }
	}
	f := fr.get(ci.fnOp)
	return func() { m.callValue(f, args) }
}

// method finds the implementation of an interface method.
func (m *Machine) method(t *TInfo, meth *types.Func) *ssa.Function {
	return m.methodByName(t, meth.Pkg(), meth.Name(), meth.Id())
}

func (m *Machine) methodByName(t *TInfo, pkg *types.Package, name, id string) *ssa.Function {
	t.mmu.Lock()
	if f, ok := t.methods[id]; ok {
		t.mmu.Unlock()
		return f
	}
	t.mmu.Unlock()
	methMu.Lock()
	sel := m.prog.MethodSets.MethodSet(t.t).Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		f = m.prog.MethodValue(sel)
	}
	methMu.Unlock()
	t.mmu.Lock()
	if t.methods == nil {
		t.methods = map[string]*ssa.Function{}
	}
	t.methods[id] = f
	t.mmu.Unlock()
	return f
}

func (m *Machine) implements(t, iface *TInfo) bool {
	t.mmu.Lock()
	if r, ok := t.impl[iface]; ok {
		t.mmu.Unlock()
		return r
	}
	t.mmu.Unlock()
	r := types.Implements(t.t, iface.under.(*types.Interface))
	t.mmu.Lock()
	if t.impl == nil {
		t.impl = map[*TInfo]bool{}
	}
	t.impl[iface] = r
	t.mmu.Unlock()
	return r
}

func (m *Machine) typeAssert(x Value, t *TInfo, commaOk bool) Value {
	i, _ := x.r.(*Iface)
	ok := false
	var v Value
	if t.kind == KIface {
		if i != nil && i.t != nil && m.implements(i.t, t) {
			ok = true
			v = x
		}
	} else if i != nil && i.t == t {
		ok = true
		v = i.v
	}
	if commaOk {
		if !ok {
			v = m.zero(t)
		}
		return Value{r: []Value{v, {n: b2u(ok)}}}
	}
	if !ok {
		d := "nil"
		if i != nil && i.t != nil {
			d = i.t.String()
		}
		m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, t))
	}
	return v
}

func (m *Machine) builtin(fr *frame, ci *callInfo, args []Value) Value {
	switch ci.builtin {
	case "len":
		return m.lenOf(args[0], ci.argT[0])
	case "cap":
		t := ci.argT[0]
		if t.kind == KSlice {
			s := m.sl(args[0])
			if s == nil {
				return Value{}
			}
			if s.lenT != nil {
				return m.wrap(s.lenT, intInfo)
			}
			return Value{n: uint64(s.cap)}
		}
		if t.kind == KChan {
			c, _ := args[0].r.(*ChanV)
			if c == nil {
				return Value{}
			}
			return Value{n: uint64(c.cap)}
		}
		return m.lenOf(args[0], t)
	case "append":
		return m.appendB(args[0], args[1], ci.argT[0], ci.argT[1])
	case "copy":
		return m.copyB(args[0], args[1], ci.argT[0], ci.argT[1])
	case "delete":
		mv, _ := args[0].r.(*MapV)
		if mv != nil {
			m.mapDelete(mv, args[1])
		}
		return Value{}
	case "clear":
		if ci.argT[0].kind == KMap {
			mv, _ := args[0].r.(*MapV)
			if mv != nil {
				m.mapClear(mv)
			}
			return Value{}
		}
		s := m.concLen(m.sl(args[0]))
		if s != nil {
			et := ci.argT[0].elem
			if et == nil {
				et = tinfo(ci.argT[0].under).elem
			}
			for i := 0; i < s.len; i++ {
				m.store(Value{n: uint64(s.off + i), r: s.o}, m.zero(et), et)
			}
		}
		return Value{}
	case "min", "max":
		v := args[0]
		t := ci.argT[0]
		tok := token.LSS
		if ci.builtin == "max" {
			tok = token.GTR
		}
		for _, w := range args[1:] {
			switch t.kind {
			case KInt:
				c := m.boolTerm(m.cmpInt(tok, t, w, v))
				if c.isConst() {
					if c.k != 0 {
						v = w
					}
				} else {
					v = m.wrap(m.tc.Ite(c, m.term(w, t), m.term(v, t)), t)
				}
			case KFloat:
				if v.r == nil && w.r == nil {
					a, b := math.Float64frombits(v.n), math.Float64frombits(w.n)
					if ci.builtin == "min" {
						v = Value{n: math.Float64bits(min(a, b))}
					} else {
						v = Value{n: math.Float64bits(max(a, b))}
					}
				} else {
					v = m.iteFloat(m.boolTerm(m.binFloat(tok, t, w, v)), w, v)
				}
			default:
				m.unsupported("min/max on " + t.String())
			}
		}
		return v
	case "panic":
		panic(&targetPanic{v: args[0], trace: m.trace()})
	case "recover":
		c := fr.caller
		if c != nil && c.panicking {
			tp := c.pv.(*targetPanic)
			c.panicking = false
			return m.panicValue(tp)
		}
		return Value{}
	case "close":
		m.chanClose(args[0])
		return Value{}
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			m.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return Value{r: &NativeV{fr}}
	case "String": // unsafe.String(ptr, len)
		n := int(m.concVal(args[1]))
		if n == 0 {
			return Value{}
		}
		o := args[0].r.(*Obj)
		return m.bytesToStr(&SliceV{o: o, off: int(args[0].n), len: n, cap: n})
	case "SliceData":
		s := m.sl(args[0])
		if s == nil {
			return Value{}
		}
		s = m.concLen(s)
		return Value{n: uint64(s.off), r: s.o}
	case "StringData":
		s := m.str(args[0])
		o := m.strToObj(s)
		return Value{r: o}
	case "Slice": // unsafe.Slice
		n := int(m.concVal(args[1]))
		if args[0].r == nil {
			return Value{}
		}
		return Value{r: &SliceV{o: args[0].r.(*Obj), off: int(args[0].n), len: n, cap: n}}
	}
	m.unsupported("builtin " + ci.builtin)
	return Value{}
}

func (m *Machine) concVal(v Value) uint64 {
	if t, ok := v.r.(*Term); ok {
		return m.concretize(t)
	}
	return v.n
}

func (m *Machine) panicValue(tp *targetPanic) Value {
	if tp.v.r != nil {
		return tp.v
	}
	// a runtime.Error; represented as an error value wrapping the message
	if m.rtErrType != nil {
		return Value{r: &Iface{t: m.rtErrType, v: Value{r: &Obj{serial: m.serial(), v: []Value{mkStr(tp.msg)}}}}}
	}
	return Value{r: &Iface{t: stringInfo, v: mkStr(tp.msg)}}
}

func (m *Machine) appendB(a, b Value, ta, tb *TInfo) Value {
	s := m.concLen(m.sl(a))
	et := ta.elem
	if et == nil {
		et = tinfo(ta.under).elem
	}
	var src *SliceV
	if tb.kind == KString {
		st := m.str(b)
		if len(st.s) == 0 {
			return a
		}
		src = &SliceV{o: m.strToObj(st), len: len(st.s), cap: len(st.s)}
	} else {
		src = m.concLen(m.sl(b))
	}
	if src == nil || src.len == 0 {
		if s == nil {
			return Value{}
		}
		return Value{r: s}
	}
	n := 0
	if s != nil {
		n = s.len
	}
	total := n + src.len
	var dst *SliceV
	if s != nil && total <= s.cap {
		dst = &SliceV{o: s.o, off: s.off, len: total, cap: s.cap}
	} else {
		c := total
		if s != nil && c < 2*s.cap {
			c = 2 * s.cap
			if s.cap > 1024 && total < s.cap+s.cap/4 {
				c = s.cap + s.cap/4
			}
		}
		if c < 4 && et.size <= 32 {
			c = 4
		}
		m.alloc(int64(c) * et.size)
		if isByte(et) && c < 8 {
			c = 8
		}
		var o *Obj
		if isByte(et) {
			o = &Obj{serial: m.serial(), isB: true, b: make([]byte, c)}
		} else {
			o = &Obj{serial: m.serial(), v: make([]Value, c)}
			if et.agg() {
				for i := range o.v {
					if i >= total {
						o.v[i] = m.zero(et)
					} else {
						o.v[i] = Value{}
					}
				}
			}
		}
		if s != nil {
			m.rawCopy(o, 0, s.o, s.off, n, et)
		}
		if et.agg() {
			for i := n; i < total; i++ {
				o.v[i] = m.zero(et)
			}
		}
		dst = &SliceV{o: o, off: 0, len: total, cap: c}
	}
	m.copyCells(dst.o, dst.off+n, src.o, src.off, src.len, et)
	return Value{r: dst}
}

// rawCopy fills fresh cells.
func (m *Machine) rawCopy(dst *Obj, di int, src *Obj, si, n int, et *TInfo) {
	if src.isB {
		copy(dst.b[di:di+n], src.b[si:si+n])
		if src.t != nil {
			for i := 0; i < n; i++ {
				if src.t[si+i] != nil {
					if dst.t == nil {
						dst.t = make([]*Term, len(dst.b))
					}
					dst.t[di+i] = src.t[si+i]
				}
			}
		}
		return
	}
	for i := 0; i < n; i++ {
		dst.v[di+i] = m.cloneVal(src.v[si+i], et)
	}
}

// copyCells copies n elements (memmove semantics) to existing cells.
func (m *Machine) copyCells(dst *Obj, di int, src *Obj, si, n int, et *TInfo) {
	if n == 0 {
		return
	}
	if dst.lazy != nil && di+n > dst.length() {
		m.grow(dst, di+n)
	}
	if src.lazy != nil && si+n > src.length() {
		m.grow(src, si+n)
	}
	if dst.isB && dst.serial != 0 && dst.serial >= m.freeze && src.t == nil && dst.t == nil {
		copy(dst.b[di:di+n], src.b[si:si+n])
		return
	}
	if dst == src && di > si {
		for i := n - 1; i >= 0; i-- {
			m.store(Value{n: uint64(di + i), r: dst}, m.load(Value{n: uint64(si + i), r: src}, et), et)
		}
		return
	}
	if et.agg() {
		for i := 0; i < n; i++ {
			m.store(Value{n: uint64(di + i), r: dst}, m.get(src, si+i), et)
		}
		return
	}
	for i := 0; i < n; i++ {
		m.set(dst, di+i, m.get(src, si+i))
	}
}

func (m *Machine) copyB(a, b Value, ta, tb *TInfo) Value {
	d := m.sl(a)
	et := ta.elem
	if et == nil {
		et = tinfo(ta.under).elem
	}
	var s *SliceV
	if tb.kind == KString {
		st := m.str(b)
		s = &SliceV{o: m.strToObj(st), len: len(st.s), cap: len(st.s)}
	} else {
		s = m.sl(b)
	}
	if d == nil || s == nil {
		return Value{}
	}
	if d.lenT != nil && s.lenT == nil {
		if m.cond(m.tc.Ult(d.lenT, m.tc.Const(uint64(s.len), 64))) {
			d = m.concLen(d)
		} else {
			m.copyCells(d.o, d.off, s.o, s.off, s.len, et)
			return Value{n: uint64(s.len)}
		}
	} else if s.lenT != nil && d.lenT == nil {
		if m.cond(m.tc.Ult(s.lenT, m.tc.Const(uint64(d.len), 64))) {
			s = m.concLen(s)
		} else {
			m.copyCells(d.o, d.off, s.o, s.off, d.len, et)
			return Value{n: uint64(d.len)}
		}
	} else {
		d, s = m.concLen(d), m.concLen(s)
	}
	n := d.len
	if s.len < n {
		n = s.len
	}
	m.copyCells(d.o, d.off, s.o, s.off, n, et)
	return Value{n: uint64(n)}
}
