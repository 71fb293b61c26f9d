package main

// Symbolic terms: hash-consed, per run, each with a concrete shadow value
// (cv) under the model that drives the current run, and with value ranges.

import (
	"math"
	"math/bits"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract
	OpSext
	OpIte
	OpTab // constant table lookup: a = index, tab
	// booleans (w == 0)
	OpBNot
	OpBAnd
	OpBOr
	OpEq
	OpUlt
	OpSlt
	// floating point on 64-bit patterns
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFSqrt
	OpFRound // k = mode: 0 RNE,1 RNA(math.Round),2 floor,3 ceil,4 trunc
	OpFFromS // a: 64-bit signed
	OpFFromU
	OpFToS // to 64-bit signed, truncating
	OpFLt
	OpFLe
	OpFEq
)

type Term struct {
	op       Op
	w        uint8 // 0 for bool
	known    int8  // bool: 1 true, -1 false, 0 unknown
	lenient  bool
	id       int32
	a, b, c  *Term
	k        uint64
	cv       uint64
	ulo, uhi uint64
	slo, shi int64
	vars     []uint64
	tab      *Table
	size     int32
}

type Table struct {
	id   int
	w    uint8
	data []uint64
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type TermCtx struct {
	tab       map[termKey]*Term
	n         int32
	vars      []*Term
	t, f      *Term
	smallVars [64][]uint64
	lins      map[*Term]*linSum
	floors    map[*Term]*floorInfo
	wide      map[*Term]*Term // signed numbers, narrowed without loss
	digits    map[*Term]digit // decimal digits of numbers
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: make(map[termKey]*Term, 256), lins: map[*Term]*linSum{}, floors: map[*Term]*floorInfo{}, wide: map[*Term]*Term{}, digits: map[*Term]digit{}}
	c.t = &Term{op: OpConst, w: 0, k: 1, cv: 1, known: 1, id: c.next()}
	c.f = &Term{op: OpConst, w: 0, k: 0, cv: 0, known: -1, id: c.next()}
	return c
}

func (c *TermCtx) next() int32 { c.n++; return c.n }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sextv(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func smin(w uint8) int64 { return -1 << (w - 1) }
func smax(w uint8) int64 { return 1<<(w-1) - 1 }

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.t
	}
	return c.f
}

func (c *TermCtx) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	v &= mask(w)
	key := termKey{op: OpConst, w: w, k: v}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: OpConst, w: w, k: v, cv: v, id: c.next(), ulo: v, uhi: v, slo: sextv(v, w), shi: sextv(v, w), size: 1}
	c.tab[key] = t
	return t
}

func (c *TermCtx) NewVar(w uint8, cv uint64) *Term {
	i := len(c.vars)
	t := &Term{op: OpVar, w: w, k: uint64(i), id: c.next(), cv: cv & mask(w), size: 1}
	if w == 0 {
		t.cv = cv & 1
	} else {
		t.uhi = mask(w)
		t.slo, t.shi = smin(w), smax(w)
	}
	t.vars = make([]uint64, i/64+1)
	t.vars[i/64] |= 1 << (i % 64)
	c.vars = append(c.vars, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func subsetOf(a, b []uint64) bool {
	if len(a) > len(b) {
		return false
	}
	for i, x := range a {
		if x&^b[i] != 0 {
			return false
		}
	}
	return true
}

func unionVars(a, b []uint64) []uint64 {
	if subsetOf(a, b) {
		return b
	}
	if subsetOf(b, a) {
		return a
	}
	if len(a) < len(b) {
		a, b = b, a
	}
	r := make([]uint64, len(a))
	copy(r, a)
	for i, x := range b {
		r[i] |= x
	}
	return r
}

// norm replaces terms whose value is pinned by the path condition.
func (c *TermCtx) norm(t *Term) *Term {
	if t.op == OpConst {
		return t
	}
	if t.w == 0 {
		if t.known > 0 {
			return c.t
		}
		if t.known < 0 {
			return c.f
		}
		return t
	}
	if t.ulo == t.uhi {
		return c.Const(t.ulo, t.w)
	}
	return t
}

func (c *TermCtx) mk(op Op, w uint8, a, b, cc *Term, k uint64) *Term {
	key := termKey{op: op, w: w, k: k}
	sz := int32(1)
	if a != nil {
		key.a = a.id
		sz += a.size
	}
	if b != nil {
		key.b = b.id
		sz += b.size
	}
	if cc != nil {
		key.c = cc.id
		sz += cc.size
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	if sz > 1<<28 {
		sz = 1 << 28
	}
	t := &Term{op: op, w: w, a: a, b: b, c: cc, k: k, id: c.next(), size: sz}
	if a != nil {
		t.vars = a.vars
	}
	if b != nil {
		t.vars = unionVars(t.vars, b.vars)
	}
	if cc != nil {
		t.vars = unionVars(t.vars, cc.vars)
	}
	t.cv = evalOp(op, w, a, b, cc, k, nil)
	if w > 0 {
		c.ranges(t)
	}
	c.tab[key] = t
	return t
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func goF2I(f float64) int64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}

func roundMode(k uint64, f float64) float64 {
	switch k {
	case 0:
		return math.RoundToEven(f)
	case 1:
		return math.Round(f)
	case 2:
		return math.Floor(f)
	case 3:
		return math.Ceil(f)
	default:
		return math.Trunc(f)
	}
}

// evalOp computes the value of an operation from the cv of its arguments.
func evalOp(op Op, w uint8, a, b, cc *Term, k uint64, tab *Table) uint64 {
	var av, bv, cv uint64
	if a != nil {
		av = a.cv
	}
	if b != nil {
		bv = b.cv
	}
	if cc != nil {
		cv = cc.cv
	}
	var aw, bw uint8
	if a != nil {
		aw = a.w
	}
	if b != nil {
		bw = b.w
	}
	return evalVals(op, w, aw, bw, av, bv, cv, k, tab)
}

func evalVals(op Op, w, aw, bw uint8, av, bv, cv, k uint64, tab *Table) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (av + bv) & m
	case OpSub:
		return (av - bv) & m
	case OpMul:
		return (av * bv) & m
	case OpUDiv:
		if bv == 0 {
			return m
		}
		return av / bv
	case OpURem:
		if bv == 0 {
			return av
		}
		return av % bv
	case OpSDiv:
		x, y := sextv(av, w), sextv(bv, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sextv(av, w), sextv(bv, w)
		if y == 0 {
			return av
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpAnd:
		return av & bv
	case OpOr:
		return av | bv
	case OpXor:
		return av ^ bv
	case OpNot:
		return ^av & m
	case OpShl:
		if bv >= uint64(w) {
			return 0
		}
		return av << bv & m
	case OpLshr:
		if bv >= uint64(w) {
			return 0
		}
		return av >> bv
	case OpAshr:
		x := sextv(av, w)
		if bv >= uint64(w) {
			bv = uint64(w) - 1
		}
		return uint64(x>>bv) & m
	case OpConcat:
		return av<<bw | bv
	case OpExtract:
		return av >> k & m
	case OpSext:
		return uint64(sextv(av, aw)) & m
	case OpIte:
		if av != 0 {
			return bv
		}
		return cv
	case OpTab:
		if av < uint64(len(tab.data)) {
			return tab.data[av]
		}
		return 0
	case OpBNot:
		return av ^ 1
	case OpBAnd:
		return av & bv
	case OpBOr:
		return av | bv
	case OpEq:
		return b2u(av == bv)
	case OpUlt:
		return b2u(av < bv)
	case OpSlt:
		return b2u(sextv(av, aw) < sextv(bv, aw))
	}
	fa, fb := math.Float64frombits(av), math.Float64frombits(bv)
	switch op {
	case OpFAdd:
		return math.Float64bits(fa + fb)
	case OpFSub:
		return math.Float64bits(fa - fb)
	case OpFMul:
		return math.Float64bits(fa * fb)
	case OpFDiv:
		return math.Float64bits(fa / fb)
	case OpFSqrt:
		return math.Float64bits(math.Sqrt(fa))
	case OpFRound:
		return math.Float64bits(roundMode(k, fa))
	case OpFFromS:
		return math.Float64bits(float64(int64(av)))
	case OpFFromU:
		return math.Float64bits(float64(av))
	case OpFToS:
		return uint64(goF2I(fa))
	case OpFLt:
		return b2u(fa < fb)
	case OpFLe:
		return b2u(fa <= fb)
	case OpFEq:
		return b2u(fa == fb)
	}
	panic("evalVals: bad op")
}

func addOvfU(a, b uint64, w uint8) (uint64, bool) {
	s, c := bits.Add64(a, b, 0)
	return s, c != 0 || s > mask(w)
}

func addOvfS(a, b int64, w uint8) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, true
	}
	return s, s < smin(w) || s > smax(w)
}

func mulOvfS(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	p := a * b
	if p/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, true
	}
	return p, false
}

// ranges computes unsigned and signed bounds for a freshly built term.
func (c *TermCtx) ranges(t *Term) {
	w := t.w
	m := mask(w)
	t.ulo, t.uhi = 0, m
	t.slo, t.shi = smin(w), smax(w)
	a, b := t.a, t.b
	setU := func(lo, hi uint64) { t.ulo, t.uhi = lo, hi }
	setS := func(lo, hi int64) { t.slo, t.shi = lo, hi }
	switch t.op {
	case OpAdd:
		if hi, o := addOvfU(a.uhi, b.uhi, w); !o {
			setU(a.ulo+b.ulo, hi)
		}
		lo, o1 := addOvfS(a.slo, b.slo, w)
		hi, o2 := addOvfS(a.shi, b.shi, w)
		if !o1 && !o2 {
			setS(lo, hi)
		}
	case OpSub:
		if a.ulo >= b.uhi {
			setU(a.ulo-b.uhi, a.uhi-b.ulo)
		}
		if b.slo != math.MinInt64 {
			lo, o1 := addOvfS(a.slo, -b.shi, w)
			hi, o2 := addOvfS(a.shi, -b.slo, w)
			if !o1 && !o2 {
				setS(lo, hi)
			}
		}
	case OpMul:
		h, l := bits.Mul64(a.uhi, b.uhi)
		if h == 0 && l <= m {
			setU(a.ulo*b.ulo, l)
		}
		var lo, hi int64
		ok := true
		first := true
		for _, x := range []int64{a.slo, a.shi} {
			for _, y := range []int64{b.slo, b.shi} {
				p, o := mulOvfS(x, y)
				if o || p < smin(w) || p > smax(w) {
					ok = false
				}
				if first || p < lo {
					lo = p
				}
				if first || p > hi {
					hi = p
				}
				first = false
			}
		}
		if ok {
			setS(lo, hi)
		}
	case OpUDiv:
		if b.ulo > 0 {
			setU(a.ulo/b.uhi, a.uhi/b.ulo)
		}
	case OpURem:
		if b.ulo > 0 {
			hi := b.uhi - 1
			if a.uhi < hi {
				hi = a.uhi
			}
			setU(0, hi)
		}
	case OpSDiv:
		if b.slo > 0 {
			f := func(x int64) int64 {
				if x >= 0 {
					return x / b.slo
				}
				return x / b.slo
			}
			lo, hi := f(a.slo), f(a.shi)
			if a.slo > 0 {
				lo = a.slo / b.shi
			}
			if a.shi < 0 {
				hi = a.shi / b.shi
			}
			setS(lo, hi)
		}
	case OpSRem:
		if b.slo > 0 && b.shi < math.MaxInt64 {
			lo, hi := -(b.shi - 1), b.shi-1
			if a.slo >= 0 {
				lo = 0
			}
			if a.shi < hi && a.shi >= 0 {
				hi = a.shi
			}
			setS(lo, hi)
		}
	case OpAnd:
		hi := a.uhi
		if b.uhi < hi {
			hi = b.uhi
		}
		setU(0, hi)
	case OpOr, OpXor:
		x := a.uhi | b.uhi
		n := bits.Len64(x)
		hi := mask(uint8(n))
		if n == 0 {
			hi = 0
		}
		lo := uint64(0)
		if t.op == OpOr {
			lo = a.ulo
			if b.ulo > lo {
				lo = b.ulo
			}
		}
		setU(lo, hi)
	case OpNot:
		setU(^a.uhi&m, ^a.ulo&m)
	case OpLshr:
		if b.isConst() {
			setU(a.ulo>>b.k, a.uhi>>b.k)
		} else {
			setU(0, a.uhi)
		}
	case OpShl:
		if a.uhi == 1 && b.uhi < uint64(w) {
			setU(0, 1<<b.uhi)
		}
	case OpAshr:
		lo, hi := a.slo, a.shi
		if lo > 0 {
			lo = 0
		}
		if hi < 0 {
			hi = -1
		}
		setS(lo, hi)
	case OpConcat:
		setU(a.ulo<<b.w|b.ulo, a.uhi<<b.w|b.uhi)
		setS(a.slo<<b.w|int64(b.ulo), a.shi<<b.w|int64(b.uhi))
	case OpExtract:
		if t.k == 0 && a.uhi <= m {
			setU(a.ulo, a.uhi)
		} else if t.k > 0 && a.uhi>>t.k <= m {
			setU(a.ulo>>t.k, a.uhi>>t.k)
		}
		if t.k == 0 && a.slo >= smin(w) && a.shi <= smax(w) {
			setS(a.slo, a.shi)
		} else if t.k > 0 && a.slo>>t.k >= smin(w) && a.shi>>t.k <= smax(w) {
			setS(a.slo>>t.k, a.shi>>t.k)
		}
	case OpSext:
		setS(a.slo, a.shi)
	case OpIte:
		lo, hi := b.ulo, b.uhi
		if t.c.ulo < lo {
			lo = t.c.ulo
		}
		if t.c.uhi > hi {
			hi = t.c.uhi
		}
		setU(lo, hi)
		sl, sh := b.slo, b.shi
		if t.c.slo < sl {
			sl = t.c.slo
		}
		if t.c.shi > sh {
			sh = t.c.shi
		}
		setS(sl, sh)
	case OpTab:
		// set by caller
	}
	c.syncRanges(t)
}

// syncRanges makes the unsigned and signed ranges of t consistent.
func (c *TermCtx) syncRanges(t *Term) {
	w := t.w
	half := uint64(1) << (w - 1)
	for i := 0; i < 2; i++ {
		if t.uhi < half || t.ulo >= half {
			// no sign crossing
			lo, hi := sextv(t.ulo, w), sextv(t.uhi, w)
			if lo > t.slo {
				t.slo = lo
			}
			if hi < t.shi {
				t.shi = hi
			}
		}
		if t.slo >= 0 || t.shi < 0 {
			lo, hi := uint64(t.slo)&mask(w), uint64(t.shi)&mask(w)
			if lo > t.ulo {
				t.ulo = lo
			}
			if hi < t.uhi {
				t.uhi = hi
			}
		}
	}
}

// ---------------------------------------------------------------- builders

func (c *TermCtx) Concat(a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a.isConst() && b.isConst() {
		return c.Const(a.k<<b.w|b.k, a.w+b.w)
	}
	// right-associate: concat(concat(x,y),z) = concat(x,concat(y,z))
	if a.op == OpConcat {
		return c.Concat(a.a, c.Concat(a.b, b))
	}
	// merge constants: const . (const . x)
	if a.isConst() && b.op == OpConcat && b.a.isConst() {
		return c.Concat(c.Const(a.k<<b.a.w|b.a.k, a.w+b.a.w), b.b)
	}
	if a.isConst() && a.k == 0 {
		if r := c.zextArith(b, a.w+b.w); r != nil {
			return r
		}
	}
	// merge adjacent extracts
	if a.op == OpExtract {
		if b.op == OpExtract && a.a == b.a && a.k == b.k+uint64(b.w) {
			return c.Extract(a.a, uint8(b.k), a.w+b.w)
		}
		if b.op == OpConcat && b.a.op == OpExtract && b.a.a == a.a && a.k == b.a.k+uint64(b.a.w) {
			return c.Concat(c.Extract(a.a, uint8(b.a.k), a.w+b.a.w), b.b)
		}
		// the low part of an extract may have been simplified
		bb := b
		if b.op == OpConcat {
			bb = b.a
		}
		if x := a.a; bb.op != OpConst && a.k == uint64(bb.w) && (x.op == OpAdd || x.op == OpSub || x.op == OpMul) {
			if c.Extract(x, 0, bb.w) == bb {
				r := c.Extract(x, 0, a.w+bb.w)
				if b.op == OpConcat {
					return c.Concat(r, b.b)
				}
				return r
			}
		}
	}
	// a is extract of top bits of x, b == lower part x itself? handled by extract
	return c.mk(OpConcat, a.w+b.w, a, b, nil, 0)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	return c.Concat(c.Const(0, w-a.w), a)
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	a = c.norm(a)
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(uint64(sextv(a.k, a.w)), w)
	}
	if a.slo >= 0 {
		return c.Zext(a, w)
	}
	if a.op == OpSext {
		return c.Sext(a.a, w)
	}
	if a.op == OpExtract && a.k == 0 && a.a.slo >= smin(a.w) && a.a.shi <= smax(a.w) {
		return c.resizeS(a.a, w)
	}
	if a.op == OpAdd && a.b.isConst() {
		k := sextv(a.b.k, a.w)
		if x := a.a; x.slo+k >= smin(a.w) && x.shi+k <= smax(a.w) && x.w < 63 {
			return c.Add(c.Sext(x, w), c.Const(uint64(k), w))
		}
	}
	return c.mk(OpSext, w, a, nil, nil, 0)
}

// resizeS changes the width of a signed number.
func (c *TermCtx) resizeS(a *Term, w uint8) *Term {
	if w <= a.w {
		return c.Extract(a, 0, w)
	}
	return c.Sext(a, w)
}

// zextArith simplifies the zero extension of b to width w, for values which
// were truncated without loss.
func (c *TermCtx) zextArith(b *Term, w uint8) *Term {
	m := mask(b.w)
	if b.w >= 63 {
		return nil
	}
	switch {
	case b.op == OpExtract && b.k == 0 && b.a.slo >= 0 && b.a.uhi <= m:
		if w <= b.a.w {
			return c.Extract(b.a, 0, w)
		}
		return c.Zext(b.a, w)
	case b.op == OpAdd && b.b.isConst():
		x, k := b.a, b.b.k
		ks := sextv(k, b.w)
		switch {
		case x.uhi+k <= m:
			return c.Add(c.Zext(x, w), c.Const(k, w))
		case x.ulo+k > m:
			return c.Add(c.Zext(x, w), c.Const(k-m-1, w))
		case x.slo+ks >= 0 && x.shi+ks <= int64(m):
			return c.Add(c.Sext(x, w), c.Const(uint64(ks), w))
		case x.slo+int64(k) >= 0 && x.shi+int64(k) <= int64(m):
			return c.Add(c.Sext(x, w), c.Const(k, w))
		case x.op == OpExtract && x.k == 0 && x.a.slo > math.MinInt64/2 && x.a.shi < math.MaxInt64/2:
			v := x.a
			for _, kk := range []int64{int64(k), int64(k - m - 1)} {
				if v.slo+kk >= 0 && v.shi+kk <= int64(m) {
					return c.Add(c.resizeS(v, w), c.Const(uint64(kk), w))
				}
			}
		}
	}
	return nil
}

func (c *TermCtx) Extract(a *Term, lo, w uint8) *Term {
	a = c.norm(a)
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.Const(a.k>>lo, w)
	case OpConcat:
		bw := a.b.w
		if lo >= bw {
			return c.Extract(a.a, lo-bw, w)
		}
		if lo+w <= bw {
			return c.Extract(a.b, lo, w)
		}
		return c.Concat(c.Extract(a.a, 0, lo+w-bw), c.Extract(a.b, lo, bw-lo))
	case OpExtract:
		return c.Extract(a.a, lo+uint8(a.k), w)
	case OpSext:
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		if lo == 0 {
			return c.Sext(a.a, w)
		}
		if lo < a.a.w {
			return c.Sext(c.Extract(a.a, lo, a.a.w-lo), w)
		}
		return c.Sext(c.Extract(a.a, a.a.w-1, 1), w)
	case OpIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			x, y := c.Extract(a.a, 0, w), c.Extract(a.b, 0, w)
			switch a.op {
			case OpAdd:
				return c.Add(x, y)
			case OpSub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	case OpAnd, OpOr, OpXor:
		x, y := c.Extract(a.a, lo, w), c.Extract(a.b, lo, w)
		switch a.op {
		case OpAnd:
			return c.And(x, y)
		case OpOr:
			return c.Or(x, y)
		default:
			return c.Xor(x, y)
		}
	case OpNot:
		return c.Not(c.Extract(a.a, lo, w))
	}
	return c.mk(OpExtract, w, a, nil, nil, uint64(lo))
}

type piece struct {
	t  *Term
	lo uint8 // lowest bit position in the whole
}

func pieces(t *Term) []piece {
	var res []piece
	pos := t.w
	for t.op == OpConcat {
		pos -= t.a.w
		res = append(res, piece{t.a, pos})
		t = t.b
	}
	return append(res, piece{t, 0})
}

// bitwise performs and/or/xor with piecewise simplification.
func (c *TermCtx) bitwise(op Op, a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a.isConst() && b.isConst() {
		return c.Const(evalVals(op, a.w, a.w, a.w, a.k, b.k, 0, 0, nil), a.w)
	}
	if a == b {
		if op == OpXor {
			return c.Const(0, a.w)
		}
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	m := mask(a.w)
	if b.isConst() {
		switch op {
		case OpAnd:
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			// split the constant into runs
			var res *Term
			pos := uint8(0)
			for pos < a.w {
				bit := b.k >> pos & 1
				n := uint8(1)
				for pos+n < a.w && b.k>>(pos+n)&1 == bit {
					n++
				}
				var p *Term
				if bit == 1 {
					p = c.Extract(a, pos, n)
				} else {
					p = c.Const(0, n)
				}
				if res == nil {
					res = p
				} else {
					res = c.Concat(p, res)
				}
				pos += n
			}
			return res
		case OpOr:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
			var res *Term
			pos := uint8(0)
			for pos < a.w {
				bit := b.k >> pos & 1
				n := uint8(1)
				for pos+n < a.w && b.k>>(pos+n)&1 == bit {
					n++
				}
				var p *Term
				if bit == 0 {
					p = c.Extract(a, pos, n)
				} else {
					p = c.Const(^uint64(0), n)
				}
				if res == nil {
					res = p
				} else {
					res = c.Concat(p, res)
				}
				pos += n
			}
			return res
		case OpXor:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return c.Not(a)
			}
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		pa, pb := pieces(a), pieces(b)
		// cut points
		var cuts [65]bool
		for _, p := range pa {
			cuts[p.lo] = true
		}
		for _, p := range pb {
			cuts[p.lo] = true
		}
		cuts[a.w] = true
		useful := false
		var res *Term
		lo := uint8(0)
		for hi := uint8(1); hi <= a.w; hi++ {
			if !cuts[hi] {
				continue
			}
			x, y := c.Extract(a, lo, hi-lo), c.Extract(b, lo, hi-lo)
			if x.isConst() || y.isConst() {
				useful = true
			}
			var p *Term
			if x.isConst() || y.isConst() || x == y {
				p = c.bitwise(op, x, y)
			} else {
				if x.id > y.id {
					x, y = y, x
				}
				p = c.mk(op, x.w, x, y, nil, 0)
			}
			if res == nil {
				res = p
			} else {
				res = c.Concat(p, res)
			}
			lo = hi
		}
		if useful {
			return res
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, a.w, a, b, nil, 0)
}

func (c *TermCtx) And(a, b *Term) *Term { return c.bitwise(OpAnd, a, b) }
func (c *TermCtx) Or(a, b *Term) *Term  { return c.bitwise(OpOr, a, b) }
func (c *TermCtx) Xor(a, b *Term) *Term { return c.bitwise(OpXor, a, b) }

func (c *TermCtx) Not(a *Term) *Term {
	a = c.norm(a)
	if a.isConst() {
		return c.Const(^a.k, a.w)
	}
	if a.op == OpNot {
		return a.a
	}
	if a.op == OpConcat {
		return c.Concat(c.Not(a.a), c.Not(a.b))
	}
	return c.mk(OpNot, a.w, a, nil, nil, 0)
}

func trailingZeroBits(t *Term) uint8 {
	switch t.op {
	case OpConst:
		if t.k == 0 {
			return t.w
		}
		return uint8(bits.TrailingZeros64(t.k))
	case OpConcat:
		z := trailingZeroBits(t.b)
		if z == t.b.w {
			return z + trailingZeroBits(t.a)
		}
		return z
	}
	return 0
}

func (c *TermCtx) Add(a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a.isConst() && b.isConst() {
		return c.Const(a.k+b.k, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.op == OpAdd && a.b.isConst() {
			return c.Add(a.a, c.Const(a.b.k+b.k, a.w))
		}
		if a.op == OpSub && a.a.isConst() {
			return c.Sub(c.Const(a.a.k+b.k, a.w), a.b)
		}
	} else {
		if a.op == OpAdd && a.b.isConst() {
			return c.Add(c.Add(a.a, b), a.b)
		}
		if b.op == OpAdd && b.b.isConst() {
			return c.Add(c.Add(a, b.a), b.b)
		}
		// (x - y) + y
		if a.op == OpSub && a.b == b {
			return a.a
		}
		if b.op == OpSub && b.b == a {
			return b.a
		}
	}
	// disjoint bits: addition is or
	if a.op == OpConcat || b.op == OpConcat {
		if c.disjoint(a, b) {
			return c.Or(a, b)
		}
	}
	// common trailing zeros
	za, zb := trailingZeroBits(a), trailingZeroBits(b)
	z := za
	if zb < z {
		z = zb
	}
	if z > 0 && z < a.w {
		return c.Concat(c.Add(c.Extract(a, z, a.w-z), c.Extract(b, z, a.w-z)), c.Const(0, z))
	}
	// leading zeros: narrow the addition if it cannot overflow
	if hi, o := addOvfU(a.uhi, b.uhi, a.w); !o {
		n := uint8(bits.Len64(hi))
		if n < 1 {
			n = 1
		}
		if n < a.w && a.op == OpConcat && b.op == OpConcat {
			// both zero-extended
			return c.Zext(c.Add(c.Extract(a, 0, n), c.Extract(b, 0, n)), a.w)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAdd, a.w, a, b, nil, 0)
}

func (c *TermCtx) disjoint(a, b *Term) bool {
	pa, pb := pieces(a), pieces(b)
	var ma, mb uint64 // possibly nonzero bits
	f := func(ps []piece) uint64 {
		var r uint64
		for _, p := range ps {
			v := mask(p.t.w)
			if p.t.isConst() {
				v = p.t.k
			} else if n := bits.Len64(p.t.uhi); n < int(p.t.w) {
				v = mask(uint8(n))
			}
			r |= v << p.lo
		}
		return r
	}
	ma, mb = f(pa), f(pb)
	return ma&mb == 0
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a == b {
		return c.Const(0, a.w)
	}
	if b.isConst() {
		return c.Add(a, c.Const(-b.k, a.w))
	}
	if a.op == OpAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.isConst() {
			if b.op == OpAdd && b.b.isConst() {
				return c.Add(c.Sub(a.a, b.a), c.Const(a.b.k-b.b.k, a.w))
			}
			return c.Add(c.Sub(a.a, b), a.b)
		}
	}
	if b.op == OpAdd && b.b.isConst() {
		return c.Add(c.Sub(a, b.a), c.Const(-b.b.k, a.w))
	}
	if b.op == OpAdd {
		if b.a == a {
			return c.Neg(b.b)
		}
		if b.b == a {
			return c.Neg(b.a)
		}
	}
	if b.op == OpSub {
		if b.a == a {
			return b.b
		}
		if a.isConst() && b.a.isConst() {
			return c.Add(b.b, c.Const(a.k-b.a.k, a.w))
		}
	}
	if x, k := c.factor(a); k != 0 {
		if y, k2 := c.factor(b); k2 == k {
			if d := c.Sub(x, y); d.slo >= smin(a.w)/2/k && d.shi <= smax(a.w)/2/k {
				return c.Mul(d, c.Const(uint64(k), a.w))
			}
		}
	}
	return c.mk(OpSub, a.w, a, b, nil, 0)
}

func (c *TermCtx) Neg(a *Term) *Term { return c.Sub(c.Const(0, a.w), a) }

func (c *TermCtx) Mul(a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a.isConst() && b.isConst() {
		return c.Const(a.k*b.k, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if b.k == mask(b.w) {
			return c.Neg(a)
		}
		if b.k&(b.k-1) == 0 {
			return c.ShlC(a, uint8(bits.TrailingZeros64(b.k)))
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	if !b.isConst() {
		// a factor which takes only a few small values is multiplied by cases
		if n := iteLeaves(a, 8); n > 0 {
			return c.mulCases(a, b)
		}
		if n := iteLeaves(b, 8); n > 0 {
			return c.mulCases(b, a)
		}
	}
	// use no more bits than the product has
	if h, l := bits.Mul64(a.uhi, b.uhi); h == 0 && a.op != OpConst && b.op != OpConst {
		n := uint8(bits.Len64(l))
		if n < 8 {
			n = 8
		}
		if n+8 <= a.w {
			return c.Zext(c.Mul(c.Extract(a, 0, n), c.Extract(b, 0, n)), a.w)
		}
	}
	return c.mk(OpMul, a.w, a, b, nil, 0)
}

// iteLeaves returns the number of leaves of a tree of ite terms with constant
// leaves, or 0 if a is not such a tree or has more than max leaves.
func iteLeaves(a *Term, max int) int {
	if a.isConst() {
		return 1
	}
	if a.op == OpConcat && a.a.isConst() && a.a.k == 0 {
		return iteLeaves(a.b, max)
	}
	if a.op != OpIte || max <= 1 {
		return 0
	}
	l := iteLeaves(a.b, max-1)
	if l == 0 {
		return 0
	}
	r := iteLeaves(a.c, max-l)
	if r == 0 {
		return 0
	}
	return l + r
}

func (c *TermCtx) mulCases(a, b *Term) *Term {
	if a.isConst() {
		return c.Mul(c.Const(a.k, b.w), b)
	}
	if a.op == OpConcat {
		return c.mulCases(a.b, b)
	}
	return c.Ite(a.a, c.mulCases(a.b, b), c.mulCases(a.c, b))
}

func (c *TermCtx) ShlC(a *Term, n uint8) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.Const(0, a.w)
	}
	if a.op == OpMul && a.b.isConst() {
		return c.Mul(a.a, c.Const(a.b.k<<n, a.w))
	}
	return c.Concat(c.Extract(a, 0, a.w-n), c.Const(0, n))
}

// factor writes t as x*k with k > 1 such that the product does not overflow as
// a signed number.
func (c *TermCtx) factor(t *Term) (*Term, int64) {
	if t.op != OpMul || !t.b.isConst() {
		return nil, 0
	}
	k := sextv(t.b.k, t.w)
	if k <= 1 {
		return nil, 0
	}
	lim := smax(t.w) / k
	if t.a.slo < -lim || t.a.shi > lim {
		return nil, 0
	}
	return t.a, k
}

// unscale returns t/k for a term t = x*k or a constant multiple of k.
func (c *TermCtx) unscale(t *Term, k int64) *Term {
	if t.isConst() {
		if s := sextv(t.k, t.w); s%k == 0 {
			return c.Const(uint64(s/k), t.w)
		}
		return nil
	}
	if x, k2 := c.factor(t); k2 == k {
		return x
	}
	return nil
}

func (c *TermCtx) LshrC(a *Term, n uint8) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.Const(0, a.w)
	}
	return c.Zext(c.Extract(a, n, a.w-n), a.w)
}

func (c *TermCtx) AshrC(a *Term, n uint8) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		n = a.w - 1
	}
	if c.norm(a).slo >= 0 && a.slo >= 0 {
		return c.LshrC(a, n)
	}
	return c.Sext(c.Extract(a, n, a.w-n), a.w)
}

// Shift: count term has the same width as a (saturated by the caller).
func (c *TermCtx) Shift(op Op, a, n *Term) *Term {
	a, n = c.norm(a), c.norm(n)
	if n.isConst() {
		k := uint8(64)
		if n.k < 64 {
			k = uint8(n.k)
		}
		switch op {
		case OpShl:
			return c.ShlC(a, k)
		case OpLshr:
			return c.LshrC(a, k)
		default:
			return c.AshrC(a, k)
		}
	}
	return c.mk(op, a.w, a, n, nil, 0)
}

func (c *TermCtx) Div(op Op, a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a.isConst() && b.isConst() {
		return c.Const(evalVals(op, a.w, a.w, a.w, a.k, b.k, 0, 0, nil), a.w)
	}
	if a.slo >= 0 && b.slo >= 0 {
		if op == OpSDiv {
			op = OpUDiv
		} else if op == OpSRem {
			op = OpURem
		}
	}
	if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
		n := uint8(bits.TrailingZeros64(b.k))
		if op == OpUDiv {
			return c.LshrC(a, n)
		}
		if op == OpURem {
			if n == 0 {
				return c.Const(0, a.w)
			}
			return c.Zext(c.Extract(a, 0, n), a.w)
		}
		if op == OpSDiv && n == 0 {
			return a
		}
	}
	if (op == OpUDiv || op == OpURem) && b.ulo > 0 {
		if a.uhi < b.ulo {
			if op == OpUDiv {
				return c.Const(0, a.w)
			}
			return a
		}
		// narrow
		m := a.uhi
		if b.uhi > m {
			m = b.uhi
		}
		n := uint8(bits.Len64(m))
		if n < a.w {
			return c.Zext(c.mk(op, n, c.Extract(a, 0, n), c.Extract(b, 0, n), nil, 0), a.w)
		}
	}
	if (op == OpSDiv || op == OpSRem) && b.isConst() {
		// narrow signed division
		n := uint8(1)
		for n < a.w && (a.slo < smin(n) || a.shi > smax(n) || b.slo < smin(n) || b.shi > smax(n)) {
			n++
		}
		n++ // avoid MinInt / -1
		if n < a.w {
			return c.Sext(c.mk(op, n, c.Extract(a, 0, n), c.Extract(b, 0, n), nil, 0), a.w)
		}
	}
	return c.mk(op, a.w, a, b, nil, 0)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	cond = c.norm(cond)
	a, b = c.norm(a), c.norm(b)
	if cond == c.t {
		return a
	}
	if cond == c.f {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == c.t && b == c.f {
			return cond
		}
		if a == c.f && b == c.t {
			return c.BNot(cond)
		}
		if a == c.t {
			return c.BOr(cond, b)
		}
		if a == c.f {
			return c.BAnd(c.BNot(cond), b)
		}
		if b == c.t {
			return c.BOr(c.BNot(cond), a)
		}
		if b == c.f {
			return c.BAnd(cond, a)
		}
		return c.BOr(c.BAnd(cond, a), c.BAnd(c.BNot(cond), b))
	}
	if cond.op == OpBNot {
		cond, a, b = cond.a, b, a
	}
	// common concat structure
	if a.op == OpConcat && b.op == OpConcat && a.a.w == b.a.w && (a.a == b.a || a.b == b.b) {
		return c.Concat(c.Ite(cond, a.a, b.a), c.Ite(cond, a.b, b.b))
	}
	if a.op == OpConcat && b.isConst() {
		return c.Concat(c.Ite(cond, a.a, c.Extract(b, a.b.w, a.a.w)), c.Ite(cond, a.b, c.Extract(b, 0, a.b.w)))
	}
	if b.op == OpConcat && a.isConst() {
		return c.Concat(c.Ite(cond, c.Extract(a, b.b.w, b.a.w), b.a), c.Ite(cond, c.Extract(a, 0, b.b.w), b.b))
	}
	// common factor
	if a.op == OpMul || b.op == OpMul {
		_, k := c.factor(a)
		if k == 0 {
			_, k = c.factor(b)
		}
		if k != 0 {
			x, y := c.unscale(a, k), c.unscale(b, k)
			if x != nil && y != nil {
				return c.Mul(c.Ite(cond, x, y), c.Const(uint64(k), a.w))
			}
		}
	}
	// nested ite with same condition
	if a.op == OpIte && a.a == cond {
		return c.Ite(cond, a.b, b)
	}
	if b.op == OpIte && b.a == cond {
		return c.Ite(cond, a, b.c)
	}
	return c.mk(OpIte, a.w, cond, a, b, 0)
}

func (c *TermCtx) Tab(idx *Term, tab *Table) *Term {
	idx = c.norm(idx)
	if idx.isConst() {
		if idx.k < uint64(len(tab.data)) {
			return c.Const(tab.data[idx.k], tab.w)
		}
		return c.Const(0, tab.w)
	}
	key := termKey{op: OpTab, w: tab.w, a: idx.id, k: uint64(tab.id)}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: OpTab, w: tab.w, a: idx, id: c.next(), tab: tab, k: uint64(tab.id), vars: idx.vars, size: idx.size + 1}
	t.cv = evalVals(OpTab, tab.w, idx.w, 0, idx.cv, 0, 0, 0, tab)
	lo, hi := mask(tab.w), uint64(0)
	for _, v := range tab.data {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	t.ulo, t.uhi = lo, hi
	t.slo, t.shi = smin(tab.w), smax(tab.w)
	c.syncRanges(t)
	c.tab[key] = t
	return t
}

func (c *TermCtx) BNot(a *Term) *Term {
	a = c.norm(a)
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	if a.op == OpBNot {
		return a.a
	}
	return c.mk(OpBNot, 0, a, nil, nil, 0)
}

func (c *TermCtx) BAnd(a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a == c.f || b == c.f {
		return c.f
	}
	if a == c.t || a == b {
		return b
	}
	if b == c.t {
		return a
	}
	if (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a) {
		return c.f
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBAnd, 0, a, b, nil, 0)
}

func (c *TermCtx) BOr(a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a == c.t || b == c.t {
		return c.t
	}
	if a == c.f || a == b {
		return b
	}
	if b == c.f {
		return a
	}
	if (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a) {
		return c.t
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBOr, 0, a, b, nil, 0)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a == b {
		return c.t
	}
	if a.w == 0 {
		if a == c.t {
			return b
		}
		if b == c.t {
			return a
		}
		if a == c.f {
			return c.BNot(b)
		}
		if b == c.f {
			return c.BNot(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OpEq, 0, a, b, nil, 0)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	switch c.linEq(a, b) {
	case 1:
		return c.t
	case 0:
		return c.f
	}
	if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo {
		return c.f
	}
	if a.isConst() {
		a, b = b, a
	}
	if x, k := c.factor(a); k != 0 {
		if y := c.unscale(b, k); y != nil {
			return c.Eq(x, y)
		}
		if b.isConst() {
			return c.f
		}
	}
	if b.isConst() {
		switch a.op {
		case OpConcat:
			return c.BAnd(c.Eq(a.a, c.Const(b.k>>a.b.w, a.a.w)), c.Eq(a.b, c.Const(b.k, a.b.w)))
		case OpAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(b.k-a.b.k, a.w))
			}
		case OpSub:
			if b.k == 0 {
				return c.Eq(a.a, a.b)
			}
			if a.a.isConst() {
				return c.Eq(a.b, c.Const(a.a.k-b.k, a.w))
			}
		case OpNot:
			return c.Eq(a.a, c.Const(^b.k, a.w))
		case OpSext:
			x := c.Const(b.k, a.a.w)
			if sextv(x.k, x.w) != sextv(b.k, b.w) {
				return c.f
			}
			return c.Eq(a.a, x)
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				return c.Ite(a.a, c.Bool(a.b.k == b.k), c.Bool(a.c.k == b.k))
			}
			if a.b.isConst() {
				if a.b.k != b.k {
					return c.BAnd(c.BNot(a.a), c.Eq(a.c, b))
				}
				return c.BOr(a.a, c.Eq(a.c, b))
			}
			if a.c.isConst() {
				if a.c.k != b.k {
					return c.BAnd(a.a, c.Eq(a.b, b))
				}
				return c.BOr(c.BNot(a.a), c.Eq(a.b, b))
			}
		}
	} else {
		if a.op == OpConcat && b.op == OpConcat {
			if a.b.w == b.b.w {
				return c.BAnd(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
			}
			lo := a.b.w
			if b.b.w > lo {
				lo = b.b.w
			}
			// split at the higher cut
			return c.BAnd(c.Eq(c.Extract(a, lo, a.w-lo), c.Extract(b, lo, a.w-lo)),
				c.Eq(c.Extract(a, 0, lo), c.Extract(b, 0, lo)))
		}
		if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OpAdd && b.op == OpAdd {
			if a.a == b.a {
				return c.Eq(a.b, b.b)
			}
			if a.b == b.b {
				return c.Eq(a.a, b.a)
			}
			if a.a == b.b {
				return c.Eq(a.b, b.a)
			}
			if a.b == b.a {
				return c.Eq(a.a, b.b)
			}
		}
		if a.op == OpAdd && (a.a == b || a.b == b) {
			o := a.a
			if o == b {
				o = a.b
			}
			return c.Eq(o, c.Const(0, o.w))
		}
		if b.op == OpAdd && (b.a == a || b.b == a) {
			o := b.a
			if o == a {
				o = b.b
			}
			return c.Eq(o, c.Const(0, o.w))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OpEq, 0, a, b, nil, 0)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a == b {
		return c.f
	}
	if a.uhi < b.ulo {
		return c.t
	}
	if a.ulo >= b.uhi {
		return c.f
	}
	// common leading constant zeros
	if za, zb := leadZeros(a), leadZeros(b); za > 0 && zb > 0 {
		z := za
		if zb < z {
			z = zb
		}
		if z < a.w {
			return c.Ult(c.Extract(a, 0, a.w-z), c.Extract(b, 0, a.w-z))
		}
	}
	if b.isConst() && b.k == 1 {
		return c.Eq(a, c.Const(0, a.w))
	}
	if a.op == OpConcat && b.op == OpConcat && a.b.w == b.b.w && a.b == b.b {
		return c.Ult(a.a, b.a)
	}
	// trailing low bits against constants
	if a.op == OpConcat && a.b.isConst() && a.b.k == 0 && b.isConst() {
		// x.0 < k  <=>  x < ceil(k / 2^n)
		n := a.b.w
		q := b.k >> n
		if b.k&mask(n) != 0 {
			q++
		}
		if q > mask(a.a.w) {
			return c.t
		}
		return c.Ult(a.a, c.Const(q, a.a.w))
	}
	return c.mk(OpUlt, 0, a, b, nil, 0)
}

func leadZeros(t *Term) uint8 {
	if t.op == OpConst {
		return t.w - uint8(bits.Len64(t.k))
	}
	if t.op == OpConcat && t.a.isConst() {
		if t.a.k == 0 {
			return t.a.w
		}
		return t.a.w - uint8(bits.Len64(t.a.k))
	}
	return 0
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	a, b = c.norm(a), c.norm(b)
	if a == b {
		return c.f
	}
	if a.shi < b.slo {
		return c.t
	}
	if a.slo >= b.shi {
		return c.f
	}
	// common factor, or factor against a constant
	if x, k := c.factor(a); k != 0 {
		if y := c.unscale(b, k); y != nil {
			return c.Slt(x, y)
		}
		if b.isConst() {
			// x*k < n  <=>  x < ceil(n/k)
			n := sextv(b.k, b.w)
			q := n / k
			if n > 0 && n%k != 0 {
				q++
			}
			return c.Slt(x, c.Const(uint64(q), a.w))
		}
	} else if y, k := c.factor(b); k != 0 {
		if x := c.unscale(a, k); x != nil {
			return c.Slt(x, y)
		}
		if a.isConst() {
			// n < y*k  <=>  floor(n/k) < y
			n := sextv(a.k, a.w)
			q := n / k
			if n < 0 && n%k != 0 {
				q--
			}
			return c.Slt(c.Const(uint64(q), a.w), y)
		}
	}
	if a.slo >= 0 && b.slo >= 0 {
		return c.Ult(a, b)
	}
	// narrow sign extensions
	na, nb := signWidth(a), signWidth(b)
	n := na
	if nb > n {
		n = nb
	}
	if n < a.w {
		return c.Slt(c.Extract(a, 0, n), c.Extract(b, 0, n))
	}
	return c.mk(OpSlt, 0, a, b, nil, 0)
}

// signWidth returns n such that t == sext(extract(t,0,n)).
func signWidth(t *Term) uint8 {
	switch t.op {
	case OpConst:
		n := uint8(1)
		s := sextv(t.k, t.w)
		for s < smin(n) || s > smax(n) {
			n++
		}
		return n
	case OpSext:
		return t.a.w
	case OpConcat:
		if t.a.isConst() && t.a.k == 0 {
			return t.b.w + 1
		}
	}
	return t.w
}

func (c *TermCtx) F(op Op, a, b *Term, k uint64) *Term {
	a = c.norm(a)
	w := uint8(64)
	switch op {
	case OpFLt, OpFLe, OpFEq:
		w = 0
	}
	if b != nil {
		b = c.norm(b)
	}
	if a.isConst() && (b == nil || b.isConst()) {
		return c.Const(evalOp(op, w, a, b, nil, k, nil), w)
	}
	return c.mk(op, w, a, b, nil, k)
}

// assume records that bool term t has the given value on the current path,
// refining ranges where possible.
func (c *TermCtx) assume(t *Term, val bool) {
	if t.op == OpConst {
		return
	}
	if val {
		t.known = 1
	} else {
		t.known = -1
	}
	switch t.op {
	case OpBNot:
		c.assume(t.a, !val)
	case OpBAnd:
		if val {
			c.assume(t.a, true)
			c.assume(t.b, true)
		} else if t.a.known > 0 {
			c.assume(t.b, false)
		} else if t.b.known > 0 {
			c.assume(t.a, false)
		}
	case OpBOr:
		if !val {
			c.assume(t.a, false)
			c.assume(t.b, false)
		} else if t.a.known < 0 {
			c.assume(t.b, true)
		} else if t.b.known < 0 {
			c.assume(t.a, true)
		}
	case OpEq:
		if t.a.w == 0 {
			return
		}
		if val {
			c.narrowU(t.a, t.b.ulo, t.b.uhi)
			c.narrowU(t.b, t.a.ulo, t.a.uhi)
			c.narrowS(t.a, t.b.slo, t.b.shi)
			c.narrowS(t.b, t.a.slo, t.a.shi)
		} else if t.b.isConst() {
			if t.a.ulo == t.b.k {
				c.narrowU(t.a, t.a.ulo+1, t.a.uhi)
			} else if t.a.uhi == t.b.k {
				c.narrowU(t.a, t.a.ulo, t.a.uhi-1)
			}
		}
	case OpUlt:
		if val {
			if t.b.uhi > 0 {
				c.narrowU(t.a, 0, t.b.uhi-1)
			}
			if t.a.ulo < mask(t.a.w) {
				c.narrowU(t.b, t.a.ulo+1, mask(t.a.w))
			}
		} else {
			c.narrowU(t.a, t.b.ulo, mask(t.a.w))
			c.narrowU(t.b, 0, t.a.uhi)
		}
	case OpSlt:
		if val {
			if t.b.shi > math.MinInt64 {
				c.narrowS(t.a, smin(t.a.w), t.b.shi-1)
			}
			if t.a.slo < math.MaxInt64 {
				c.narrowS(t.b, t.a.slo+1, smax(t.a.w))
			}
		} else {
			c.narrowS(t.a, t.b.slo, smax(t.a.w))
			c.narrowS(t.b, smin(t.a.w), t.a.shi)
		}
	}
}

func (c *TermCtx) narrowU(t *Term, lo, hi uint64) {
	if t.op == OpConst {
		return
	}
	ch := false
	if lo > t.ulo && lo <= t.uhi {
		t.ulo = lo
		ch = true
	}
	if hi < t.uhi && hi >= t.ulo {
		t.uhi = hi
		ch = true
	}
	if ch {
		c.syncRanges(t)
		c.pushDown(t)
	}
}

func (c *TermCtx) narrowS(t *Term, lo, hi int64) {
	if t.op == OpConst {
		return
	}
	ch := false
	if lo > t.slo && lo <= t.shi {
		t.slo = lo
		ch = true
	}
	if hi < t.shi && hi >= t.slo {
		t.shi = hi
		ch = true
	}
	if ch {
		c.syncRanges(t)
		c.pushDown(t)
	}
}

// pushDown propagates a range narrowing into simple subterms.
func (c *TermCtx) pushDown(t *Term) {
	switch t.op {
	case OpConcat:
		// high part
		c.narrowU(t.a, t.ulo>>t.b.w, t.uhi>>t.b.w)
		if t.a.ulo == t.a.uhi {
			h := t.a.ulo << t.b.w
			lo, hi := uint64(0), mask(t.b.w)
			if t.ulo > h {
				lo = t.ulo - h
			}
			if t.uhi-h < hi {
				hi = t.uhi - h
			}
			c.narrowU(t.b, lo, hi)
		}
	case OpSext:
		c.narrowS(t.a, t.slo, t.shi)
	case OpAdd:
		if t.b.isConst() {
			// x + k in [slo,shi] without signed overflow
			k := t.b.slo
			if _, o := addOvfS(t.a.slo, k, t.w); !o {
				if _, o := addOvfS(t.a.shi, k, t.w); !o {
					lo, o1 := addOvfS(t.slo, -k, 64)
					hi, o2 := addOvfS(t.shi, -k, 64)
					if !o1 && !o2 && k != math.MinInt64 {
						c.narrowS(t.a, lo, hi)
					}
				}
			}
		}
	}
}
