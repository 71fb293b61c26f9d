package main

// Floating point values: concrete values are computed natively; symbolic
// values are exact dyadic numbers (Fix) where that is possible, and terms of
// the SMT theory of floating point (on 64-bit patterns) otherwise.

import (
	"go/token"
	"math"
	"math/bits"
)

const fixMax = 1 << 53

// dyadic writes f as m * 2^-e with odd m (or m == 0).
func dyadic(f float64) (int64, int, bool) {
	if f == 0 {
		return 0, 0, true
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return 0, 0, false
	}
	fr, ex := math.Frexp(f) // f = fr * 2^ex, 0.5 <= |fr| < 1
	m := int64(fr * fixMax) // exact
	e := 53 - ex
	if m != 0 {
		tz := bits.TrailingZeros64(uint64(m))
		m >>= tz
		e -= tz
	}
	return m, e, true
}

// fix converts a float value to exact dyadic form if possible.
func (m *Machine) fix(v Value) *Fix {
	switch x := v.r.(type) {
	case *Fix:
		return x
	case nil:
		f := math.Float64frombits(v.n)
		if mm, e, ok := dyadic(f); ok && e <= 60 && e >= -60 {
			if e < 0 { // integer multiple of a power of two
				if e > -50 && mm<<uint(-e)>>uint(-e) == mm && abs64(mm<<uint(-e)) <= fixMax {
					return &Fix{m: m.tc.Const(uint64(mm)<<uint(-e), 64), e: 0}
				}
				return nil
			}
			return &Fix{m: m.tc.Const(uint64(mm), 64), e: e}
		}
	}
	return nil
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func fixOK(t *Term) bool { return t.slo >= -fixMax && t.shi <= fixMax }

func (m *Machine) fixShift(f *Fix, e int) *Term {
	k := e - f.e
	if k == 0 {
		return f.m
	}
	if k < 0 || k > 53 {
		return nil
	}
	lim := int64(fixMax) >> uint(k)
	if f.m.slo < -lim || f.m.shi > lim {
		return nil
	}
	return m.tc.ShlC(f.m, uint8(k))
}

func (m *Machine) fixAlign(a, b *Fix) (*Term, *Term, int) {
	e := a.e
	if b.e > e {
		e = b.e
	}
	x, y := m.fixShift(a, e), m.fixShift(b, e)
	if x == nil || y == nil {
		return nil, nil, 0
	}
	return x, y, e
}

// fpTerm gives the 64-bit pattern of a float value as a term.
func (m *Machine) fpTerm(v Value) *Term {
	switch x := v.r.(type) {
	case *Term:
		return x
	case *Fix:
		t := m.tc.F(OpFFromS, x.m, nil, 0)
		if x.e != 0 {
			t = m.tc.F(OpFMul, t, m.tc.Const(math.Float64bits(math.Ldexp(1, -x.e)), 64), 0)
		}
		return t
	}
	return m.tc.Const(v.n, 64)
}

func (m *Machine) wrapF(t *Term) Value {
	t = m.tc.norm(t)
	if t.isConst() {
		return Value{n: t.k}
	}
	return Value{r: t}
}

func (m *Machine) wrapFix(t *Term, e int) Value {
	t = m.tc.norm(t)
	if t.isConst() {
		return Value{n: math.Float64bits(math.Ldexp(float64(int64(t.k)), -e))}
	}
	// drop common trailing zero bits
	if k := trailingZeros(t, 4); e > 0 && k > 0 {
		if k > e {
			k = e
		}
		e -= k
		if s := m.tc.linComb(t, 1, nil, 0); s != nil && s.zeros() >= k {
			if _, _, ok := s.bounds(); ok {
				s.shift(k)
				return Value{r: &Fix{m: m.tc.linTerm(s), e: e}}
			}
		}
		t = m.tc.AshrC(t, uint8(k))
	}
	return Value{r: &Fix{m: t, e: e}}
}

// concFloat makes a float concrete.
func (m *Machine) concFloat(v Value) float64 {
	switch x := v.r.(type) {
	case *Term:
		return math.Float64frombits(m.concretize(x))
	case *Fix:
		return math.Ldexp(float64(int64(m.concretize(x.m))), -x.e)
	}
	return math.Float64frombits(v.n)
}

func roundTo(f float64, t *TInfo) Value {
	if t != nil && t.bits == 32 {
		f = float64(float32(f))
	}
	return Value{n: math.Float64bits(f)}
}

func (m *Machine) binFloat(tok token.Token, t *TInfo, x, y Value) Value {
	if x.r == nil && y.r == nil {
		a, b := math.Float64frombits(x.n), math.Float64frombits(y.n)
		switch tok {
		case token.ADD:
			return roundTo(a+b, t)
		case token.SUB:
			return roundTo(a-b, t)
		case token.MUL:
			return roundTo(a*b, t)
		case token.QUO:
			return roundTo(a/b, t)
		case token.EQL:
			return Value{n: b2u(a == b)}
		case token.NEQ:
			return Value{n: b2u(a != b)}
		case token.LSS:
			return Value{n: b2u(a < b)}
		case token.LEQ:
			return Value{n: b2u(a <= b)}
		case token.GTR:
			return Value{n: b2u(a > b)}
		case token.GEQ:
			return Value{n: b2u(a >= b)}
		}
	}
	if t.bits == 32 {
		a := m.concFloat(x)
		b := m.concFloat(y)
		return m.binFloat(tok, t, roundTo(a, nil), roundTo(b, nil))
	}
	a, b := m.fix(x), m.fix(y)
	tc := m.tc
	// comparison with infinities
	if a != nil && y.r == nil && math.IsInf(math.Float64frombits(y.n), 0) || b != nil && x.r == nil && math.IsInf(math.Float64frombits(x.n), 0) {
		var fa, fb float64
		if x.r == nil {
			fa = math.Float64frombits(x.n)
		}
		if y.r == nil {
			fb = math.Float64frombits(y.n)
		}
		switch tok {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.binFloat(tok, t, roundTo(fa, nil), roundTo(fb, nil))
		}
	}
	if a != nil && b != nil {
		switch tok {
		case token.ADD, token.SUB:
			if v, ok := m.fixLin(a, b, tok == token.SUB); ok {
				return v
			}
			if p, q, e := m.fixAlign(a, b); p != nil {
				var r *Term
				if tok == token.ADD {
					r = tc.Add(p, q)
				} else {
					r = tc.Sub(p, q)
				}
				if fixOK(r) {
					return m.wrapFix(r, e)
				}
			}
		case token.MUL:
			if mulInRange(a.m, b.m) && a.e+b.e <= 200 {
				if a.m.isConst() {
					a, b = b, a
				}
				if b.m.isConst() {
					if s := tc.linComb(a.m, int64(b.m.k), nil, 0); s != nil {
						if _, _, ok := s.bounds(); ok {
							return m.wrapFix(tc.linTerm(s), a.e+b.e)
						}
					}
				}
				return m.wrapFix(tc.Mul(a.m, b.m), a.e+b.e)
			}
		case token.QUO:
			if b.m.isConst() && b.m.k != 0 {
				k := int64(b.m.k)
				if k > 0 && k&(k-1) == 0 {
					// divide by k * 2^-b.e
					e := a.e + bits.TrailingZeros64(uint64(k)) - b.e
					if e >= 0 {
						return m.wrapFix(a.m, e)
					}
					if r := m.fixShift(&Fix{m: a.m}, -e); r != nil {
						return m.wrapFix(r, 0)
					}
				}
			}
		default:
			if p, q, _ := m.fixAlign(a, b); p != nil {
				if x, y := tc.linCmp(p, q); x != nil {
					p, q = x, y
				}
				return m.wrapBool(m.cmpTerm(tok, true, p, q))
			}
		}
	}
	m.fpUsed = true
	p, q := m.fpTerm(x), m.fpTerm(y)
	switch tok {
	case token.ADD:
		return m.wrapF(tc.F(OpFAdd, p, q, 0))
	case token.SUB:
		return m.wrapF(tc.F(OpFSub, p, q, 0))
	case token.MUL:
		return m.wrapF(tc.F(OpFMul, p, q, 0))
	case token.QUO:
		return m.wrapF(tc.F(OpFDiv, p, q, 0))
	case token.EQL:
		return m.wrapBool(tc.F(OpFEq, p, q, 0))
	case token.NEQ:
		return m.wrapBool(tc.BNot(tc.F(OpFEq, p, q, 0)))
	case token.LSS:
		return m.wrapBool(tc.F(OpFLt, p, q, 0))
	case token.LEQ:
		return m.wrapBool(tc.F(OpFLe, p, q, 0))
	case token.GTR:
		return m.wrapBool(tc.F(OpFLt, q, p, 0))
	case token.GEQ:
		return m.wrapBool(tc.F(OpFLe, q, p, 0))
	}
	m.unsupported("float op " + tok.String())
	return Value{}
}

func mulInRange(a, b *Term) bool {
	for _, x := range []int64{a.slo, a.shi} {
		for _, y := range []int64{b.slo, b.shi} {
			p, o := mulOvfS(x, y)
			if o || p < -fixMax || p > fixMax {
				return false
			}
		}
	}
	return true
}

func (m *Machine) negFloat(x Value, t *TInfo) Value {
	switch q := x.r.(type) {
	case nil:
		return Value{n: math.Float64bits(-math.Float64frombits(x.n))}
	case *Fix:
		if s := m.tc.linComb(q.m, -1, nil, 0); s != nil {
			if _, _, ok := s.bounds(); ok {
				return m.wrapFix(m.tc.linTerm(s), q.e)
			}
		}
		return m.wrapFix(m.tc.Neg(q.m), q.e)
	case *Term:
		return m.wrapF(m.tc.Xor(q, m.tc.Const(1<<63, 64)))
	}
	panic("negFloat")
}

func (m *Machine) iteFloat(c *Term, x, y Value) Value {
	c = m.tc.norm(c)
	if c.isConst() {
		if c.k != 0 {
			return x
		}
		return y
	}
	if x.r == nil && y.r == nil && x.n == y.n {
		return x
	}
	a, b := m.fix(x), m.fix(y)
	if a != nil && b != nil {
		if p, q, e := m.fixAlign(a, b); p != nil {
			return m.wrapFix(m.tc.Ite(c, p, q), e)
		}
	}
	return m.wrapF(m.tc.Ite(c, m.fpTerm(x), m.fpTerm(y)))
}

// fixRound rounds m*2^-e to an integer term.
func (m *Machine) fixRound(f *Fix, mode int) *Term {
	if f.e <= 0 {
		return f.m
	}
	tc := m.tc
	if f.e > 62 {
		return nil
	}
	e := uint8(f.e)
	switch mode {
	case 2: // floor
		return tc.floorDiv(f.m, 0, f.e)
	case 3: // ceil
		return tc.floorDiv(f.m, 1<<e-1, f.e)
	case 4: // trunc
		if m.cond(tc.Slt(f.m, tc.Const(0, 64))) {
			return tc.floorDiv(f.m, 1<<e-1, f.e)
		}
		return tc.floorDiv(f.m, 0, f.e)
	case 1: // half away from zero
		if m.cond(tc.Slt(f.m, tc.Const(0, 64))) {
			return tc.floorDiv(f.m, 1<<(e-1)-1, f.e)
		}
		return tc.floorDiv(f.m, 1<<(e-1), f.e)
	case 0: // half to even
		fl := tc.AshrC(f.m, e)
		low := tc.Extract(f.m, 0, e)
		half := tc.Const(1<<(e-1), e)
		odd := tc.Eq(tc.Extract(fl, 0, 1), tc.Const(1, 1))
		up := tc.BOr(tc.Ult(half, low), tc.BAnd(tc.Eq(low, half), odd))
		return tc.Ite(up, tc.Add(fl, tc.Const(1, 64)), fl)
	}
	return nil
}

func (m *Machine) roundFloat(v Value, mode int) Value {
	if v.r == nil {
		return Value{n: math.Float64bits(roundMode(uint64(mode), math.Float64frombits(v.n)))}
	}
	if f, ok := v.r.(*Fix); ok {
		if r := m.fixRound(f, mode); r != nil {
			return m.wrapFix(r, 0)
		}
	}
	m.fpUsed = true
	return m.wrapF(m.tc.F(OpFRound, m.fpTerm(v), nil, uint64(mode)))
}

func (m *Machine) absFloat(v Value) Value {
	switch x := v.r.(type) {
	case nil:
		return Value{n: v.n &^ (1 << 63)}
	case *Fix:
		if m.cond(m.tc.Slt(x.m, m.tc.Const(0, 64))) {
			return m.negFloat(v, nil)
		}
		return v
	case *Term:
		return m.wrapF(m.tc.And(x, m.tc.Const(1<<63-1, 64)))
	}
	panic("absFloat")
}

// floatToInt converts with Go/amd64 semantics.
func (m *Machine) floatToInt(v Value, t *TInfo) Value {
	if v.r == nil {
		return Value{n: f2i(math.Float64frombits(v.n), t)}
	}
	tc := m.tc
	if f, ok := v.r.(*Fix); ok {
		if r := m.fixRound(f, 4); r != nil {
			lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
			if t.signed {
				lo, hi = smin(t.bits), smax(t.bits)
			} else if t.bits < 64 {
				lo, hi = 0, int64(mask(t.bits))
			} else {
				lo = 0
			}
			in := tc.BAnd(tc.BNot(tc.Slt(r, tc.Const(uint64(lo), 64))), tc.BNot(tc.Slt(tc.Const(uint64(hi), 64), r)))
			if m.cond(in) {
				x := tc.Extract(r, 0, t.bits)
				if t.signed && t.bits < 64 && !x.isConst() {
					tc.wide[x] = r
				}
				return m.wrap(x, t)
			}
			return Value{n: f2i(m.concFloat(v), t)}
		}
	}
	p := m.fpTerm(v)
	lo, hi := -9223372036854775808.0, 9223372036854775808.0
	if t.signed {
		lo, hi = float64(smin(t.bits)), -float64(smin(t.bits))
	} else {
		lo = 0
		if t.bits < 64 {
			hi = float64(mask(t.bits)) + 1
		}
	}
	// trunc(x) in [lo, hi)
	tr := tc.F(OpFRound, p, nil, 4)
	in := tc.BAnd(tc.F(OpFLe, tc.Const(math.Float64bits(lo), 64), tr, 0), tc.F(OpFLt, tr, tc.Const(math.Float64bits(hi), 64), 0))
	if m.cond(in) {
		return m.wrap(tc.Extract(tc.F(OpFToS, p, nil, 0), 0, t.bits), t)
	}
	return Value{n: f2i(m.concFloat(v), t)}
}

func f2i(f float64, t *TInfo) uint64 {
	if t.signed {
		switch t.bits {
		case 8:
			return uint64(int8(f))
		case 16:
			return uint64(int16(f))
		case 32:
			return uint64(int32(f))
		}
		return uint64(int64(f))
	}
	switch t.bits {
	case 8:
		return uint64(uint8(f))
	case 16:
		return uint64(uint16(f))
	case 32:
		return uint64(uint32(f))
	}
	return uint64(f)
}

func (m *Machine) intToFloat(v Value, from, to *TInfo) Value {
	x, ok := v.r.(*Term)
	if !ok {
		var f float64
		if from.signed {
			f = float64(int64(v.n))
		} else {
			f = float64(v.n)
		}
		return roundTo(f, to)
	}
	if to.bits == 32 {
		return m.intToFloat(Value{n: m.concValT(v, from)}, from, to)
	}
	var t *Term
	if from.signed {
		t = m.tc.Sext(x, 64)
	} else {
		t = m.tc.Zext(x, 64)
	}
	if fixOK(t) {
		return m.wrapFix(t, 0)
	}
	m.fpUsed = true
	if from.signed {
		return m.wrapF(m.tc.F(OpFFromS, t, nil, 0))
	}
	return m.wrapF(m.tc.F(OpFFromU, t, nil, 0))
}

// concValT concretizes an integer value and extends it according to its type.
func (m *Machine) concValT(v Value, t *TInfo) uint64 {
	x, ok := v.r.(*Term)
	if !ok {
		return v.n
	}
	k := m.concretize(x)
	if t.kind == KInt && t.signed {
		return uint64(sextv(k, x.w))
	}
	return k
}

// trailingZeros gives a lower bound for the number of trailing zero bits.
func trailingZeros(t *Term, depth int) int {
	if t.isConst() {
		if t.k == 0 {
			return int(t.w)
		}
		return bits.TrailingZeros64(t.k)
	}
	if depth == 0 {
		return 0
	}
	switch t.op {
	case OpConcat:
		k := trailingZeros(t.b, depth-1)
		if k == int(t.b.w) {
			k += trailingZeros(t.a, depth-1)
		}
		return min(k, int(t.w)-1)
	case OpSext:
		return trailingZeros(t.a, depth-1)
	}
	return 0
}
