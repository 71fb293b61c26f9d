package main

// Strings, conversions.

import (
	"fmt"
	"go/token"
	"unicode/utf8"
)

var emptyStr = &Str{}

func (m *Machine) str(v Value) *Str {
	if v.r == nil {
		return emptyStr
	}
	s, ok := v.r.(*Str)
	if !ok {
		m.unsupported(fmt.Sprintf("string is %T", v.r))
	}
	if s.lazy != nil {
		if m.spec > 0 {
			panic(specAbort{})
		}
		f := s.lazy
		r := f(m)
		s.s, s.t, s.lazy = r.s, r.t, nil
	}
	return s
}

func strVal(s *Str) Value {
	if s.lazy == nil && len(s.s) == 0 {
		return Value{}
	}
	return Value{r: s}
}

func (m *Machine) strConcat(x, y Value) Value {
	if a, ok := x.r.(*Str); ok && a.lazy != nil {
		return Value{r: &Str{lazy: func(m *Machine) *Str { return m.concat(m.str(x), m.str(y)) }}}
	}
	if b, ok := y.r.(*Str); ok && b.lazy != nil {
		return Value{r: &Str{lazy: func(m *Machine) *Str { return m.concat(m.str(x), m.str(y)) }}}
	}
	return strVal(m.concat(m.str(x), m.str(y)))
}

func (m *Machine) concat(a, b *Str) *Str {
	if len(a.s) == 0 {
		return b
	}
	if len(b.s) == 0 {
		return a
	}
	r := &Str{s: a.s + b.s}
	if a.t != nil || b.t != nil {
		r.t = make([]*Term, len(r.s))
		copy(r.t, a.t)
		copy(r.t[len(a.s):], b.t)
	}
	return r
}

func (m *Machine) strByte(s *Str, i int) Value {
	if s.t != nil && s.t[i] != nil {
		return Value{r: s.t[i]}
	}
	return Value{n: uint64(s.s[i])}
}

func (m *Machine) strByteT(s *Str, i int) *Term {
	if s.t != nil && s.t[i] != nil {
		return s.t[i]
	}
	return m.tc.Const(uint64(s.s[i]), 8)
}

func (m *Machine) strEq(a, b *Str) *Term {
	tc := m.tc
	if len(a.s) != len(b.s) {
		return tc.f
	}
	if a.t == nil && b.t == nil {
		return tc.Bool(a.s == b.s)
	}
	res := tc.t
	for i := range a.s {
		res = tc.BAnd(res, tc.Eq(m.strByteT(a, i), m.strByteT(b, i)))
		if res == tc.f {
			return res
		}
	}
	return res
}

func (m *Machine) strLess(a, b *Str) *Term {
	tc := m.tc
	if a.t == nil && b.t == nil {
		return tc.Bool(a.s < b.s)
	}
	n := len(a.s)
	if len(b.s) < n {
		n = len(b.s)
	}
	res := tc.Bool(len(a.s) < len(b.s))
	for i := n - 1; i >= 0; i-- {
		x, y := m.strByteT(a, i), m.strByteT(b, i)
		res = tc.BOr(tc.Ult(x, y), tc.BAnd(tc.Eq(x, y), res))
	}
	return res
}

func (m *Machine) strCompare(tok token.Token, x, y Value) Value {
	if x.r == y.r && x.r != nil {
		switch tok {
		case token.EQL, token.LEQ, token.GEQ:
			return Value{n: 1}
		default:
			return Value{}
		}
	}
	a, b := m.str(x), m.str(y)
	tc := m.tc
	switch tok {
	case token.EQL:
		return m.wrapBool(m.strEq(a, b))
	case token.NEQ:
		return m.wrapBool(tc.BNot(m.strEq(a, b)))
	case token.LSS:
		return m.wrapBool(m.strLess(a, b))
	case token.GTR:
		return m.wrapBool(m.strLess(b, a))
	case token.LEQ:
		return m.wrapBool(tc.BNot(m.strLess(b, a)))
	case token.GEQ:
		return m.wrapBool(tc.BNot(m.strLess(a, b)))
	}
	m.unsupported("string op " + tok.String())
	return Value{}
}

func (m *Machine) strIndex(x, i Value) Value {
	s := m.str(x)
	n := len(s.s)
	if !m.inRange(i, n, nil) {
		m.idxPanic(i, n, nil)
	}
	if t, ok := i.r.(*Term); ok {
		return m.selectFrom(t, n, byteInfo, func(k int) Value { return m.strByte(s, k) })
	}
	return m.strByte(s, int(i.n))
}

func (m *Machine) subStr(s *Str, lo, hi int) Value {
	if lo == 0 && hi == len(s.s) {
		return strVal(s)
	}
	r := &Str{s: s.s[lo:hi]}
	if s.t != nil {
		for _, t := range s.t[lo:hi] {
			if t != nil {
				r.t = s.t[lo:hi:hi]
				break
			}
		}
	}
	return strVal(r)
}

func (m *Machine) strToObj(s *Str) *Obj {
	o := &Obj{serial: m.serial(), isB: true, b: []byte(s.s)}
	if s.t != nil {
		o.t = append([]*Term(nil), s.t...)
	}
	return o
}

func (m *Machine) bytesToStr(s *SliceV) Value {
	s = m.concLen(s)
	if s == nil || s.len == 0 {
		return Value{}
	}
	if s.o.lazy != nil {
		m.grow(s.o, s.off+s.len)
	}
	r := &Str{s: string(s.o.b[s.off : s.off+s.len])}
	if s.o.t != nil {
		for i, t := range s.o.t[s.off : s.off+s.len] {
			if t == nil {
				continue
			}
			t = m.tc.norm(t)
			if r.t == nil {
				r.t = make([]*Term, s.len)
			}
			r.t[i] = t
		}
	}
	return strVal(r)
}

// concStr makes the contents of a string concrete.
func (m *Machine) concStr(s *Str) string {
	if s.t == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, t := range s.t {
		if t != nil {
			b[i] = byte(m.concretize(t))
		}
	}
	return string(b)
}

// shadowStr is the string under the current model.
func shadowStr(s *Str) string {
	if s.t == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, t := range s.t {
		if t != nil {
			b[i] = byte(t.cv)
		}
	}
	return string(b)
}

// decodeRune decodes a rune at position i, forking on symbolic bytes.
func (m *Machine) decodeRune(s *Str, i int) (Value, int) {
	if s.t == nil || (s.t[i] == nil && s.s[i] < 0x80) {
		r, n := utf8.DecodeRuneInString(s.s[i:])
		sym := false
		if s.t != nil {
			for k := i; k < i+4 && k < len(s.s); k++ {
				if s.t[k] != nil {
					sym = true
				}
			}
		}
		if !sym || s.t == nil || s.s[i] < 0x80 {
			return Value{n: uint64(int64(r))}, n
		}
	}
	tc := m.tc
	b0 := m.strByteT(s, i)
	if m.cond(tc.Ult(b0, tc.Const(0x80, 8))) {
		return m.wrap(tc.Zext(b0, 32), runeInfo), 1
	}
	// general case: interpret utf8.DecodeRuneInString
	f := m.lookupFunc("unicode/utf8", "DecodeRuneInString")
	v := m.callFn(f, []Value{m.subStr(s, i, len(s.s))}, nil)
	vs := v.r.([]Value)
	return vs[0], int(m.concVal(vs[1]))
}

func (m *Machine) convert(v Value, from, to *TInfo) Value {
	switch to.kind {
	case KInt:
		switch from.kind {
		case KInt:
			x, ok := v.r.(*Term)
			if !ok {
				return Value{n: normInt(v.n, to)}
			}
			if to.bits <= from.bits {
				return m.wrap(m.tc.Extract(x, 0, to.bits), to)
			}
			if from.signed {
				return m.wrap(m.tc.Sext(x, to.bits), to)
			}
			return m.wrap(m.tc.Zext(x, to.bits), to)
		case KFloat:
			return m.floatToInt(v, to)
		case KUnsafe:
			return Value{n: 0x1000}
		}
	case KFloat:
		switch from.kind {
		case KInt:
			return m.intToFloat(v, from, to)
		case KFloat:
			if to.bits == 32 && from.bits == 64 {
				if f, ok := v.r.(*Fix); ok && f.m.slo >= -(1<<24) && f.m.shi <= 1<<24 {
					return v
				}
				return roundTo(m.concFloat(v), to)
			}
			return v
		}
	case KString:
		switch from.kind {
		case KInt:
			x, ok := v.r.(*Term)
			if ok {
				if m.cond(m.tc.Ult(m.tc.Zext(x, 64), m.tc.Const(0x80, 64))) && (!from.signed || !m.cond(m.tc.Slt(x, m.tc.Const(0, x.w)))) {
					return Value{r: &Str{s: "?", t: []*Term{m.tc.Extract(x, 0, 8)}}}
				}
				f := m.lookupFunc("unicode/utf8", "AppendRune")
				var r *Term
				if x.w > 32 {
					r = m.tc.Const(m.concretize(x), 32)
				} else if from.signed {
					r = m.tc.Sext(x, 32)
				} else {
					r = m.tc.Zext(x, 32)
				}
				b := m.callFn(f, []Value{{}, m.wrap(r, runeInfo)}, nil)
				return m.bytesToStr(m.sl(b))
			}
			if from.signed && int64(v.n) < 0 || v.n > 0x10ffff {
				return mkStr("\uFFFD")
			}
			return mkStr(string(rune(v.n)))
		case KSlice:
			et := from.elem
			if et == nil {
				et = tinfo(from.under).elem
			}
			if et.bits == 8 {
				return m.bytesToStr(m.sl(v))
			}
			// []rune
			s := m.concLen(m.sl(v))
			if s == nil {
				return Value{}
			}
			res := Value{}
			for i := 0; i < s.len; i++ {
				res = m.strConcat(res, m.convert(m.get(s.o, s.off+i), runeInfo, stringInfo))
			}
			return res
		case KString:
			return v
		}
	case KSlice:
		if from.kind == KString {
			s := m.str(v)
			et := to.elem
			if et == nil {
				et = tinfo(to.under).elem
			}
			if et.bits == 8 {
				o := m.strToObj(s)
				m.alloc(int64(len(s.s)))
				return Value{r: &SliceV{o: o, len: len(s.s), cap: len(s.s)}}
			}
			o := &Obj{serial: m.serial()}
			for i := 0; i < len(s.s); {
				r, n := m.decodeRune(s, i)
				o.v = append(o.v, r)
				i += n
			}
			m.alloc(int64(4 * len(o.v)))
			return Value{r: &SliceV{o: o, len: len(o.v), cap: len(o.v)}}
		}
		return v
	case KComplex:
		m.unsupported("complex")
	}
	return v
}
