package main

// Symbolic decimal formatting: %d, %+d and %s with symbolic operands keep the
// digits symbolic.  The sign and the number of digits are path decisions.

import (
	"fmt"
	"strings"
)

// decimal returns the decimal representation of a symbolic integer, or nil if
// the value may need more than 16 bits.
func (m *Machine) decimal(v Value, t *TInfo, plus bool) *Str {
	tc := m.tc
	x := m.term(v, t)
	w := x.w
	neg := t.signed && m.branch(tc.Slt(x, tc.Const(0, w)))
	abs := x
	if neg {
		abs = tc.Neg(x)
	}
	if w > 16 {
		if !m.branch(tc.Ult(abs, tc.Const(1<<16, w))) {
			return nil
		}
		abs = tc.Extract(abs, 0, 16)
	} else if w < 16 {
		abs = tc.Zext(abs, 16)
	}
	n, p := 1, uint64(10)
	for n < 5 && !m.branch(tc.Ult(abs, tc.Const(p, 16))) {
		n++
		p *= 10
	}
	sign := ""
	if neg {
		sign = "-"
	} else if plus {
		sign = "+"
	}
	res := &Str{}
	var ts []*Term
	var sb strings.Builder
	if sign != "" {
		sb.WriteString(sign)
		ts = append(ts, nil)
	}
	q := make([]*Term, n+1)
	q[0] = abs
	p = 1
	for k := 1; k < n; k++ {
		p *= 10
		q[k] = tc.Div(OpUDiv, abs, tc.Const(p, 16))
	}
	q[n] = tc.Const(0, 16)
	for k := n - 1; k >= 0; k-- {
		d := tc.Sub(q[k], tc.Mul(q[k+1], tc.Const(10, 16)))
		c := tc.Add(tc.Extract(d, 0, 8), tc.Const('0', 8))
		sb.WriteByte(byte(c.cv))
		if c.isConst() {
			c = nil
		} else {
			m.tc.digits[c] = digit{abs, k, n}
		}
		ts = append(ts, c)
	}
	res.s, res.t = sb.String(), ts
	return res
}

type digit struct {
	of *Term // the 16-bit number
	k  int   // the power of ten
	n  int   // the total number of digits
}

// atoi recovers the number from a string made by decimal.
func (m *Machine) atoi(s *Str) (Value, bool) {
	i := 0
	if len(s.s) > 0 && s.t[0] == nil && (s.s[0] == '-' || s.s[0] == '+') {
		i = 1
	}
	n := len(s.s) - i
	var of *Term
	for k := n - 1; k >= 0; k-- {
		t := s.t[i+n-1-k]
		if t == nil {
			return Value{}, false
		}
		d, ok := m.tc.digits[t]
		if !ok || d.n != n || d.k != k || of != nil && of != d.of {
			return Value{}, false
		}
		of = d.of
	}
	if of == nil {
		return Value{}, false
	}
	x := m.tc.Zext(of, 64)
	if i == 1 && s.s[0] == '-' {
		x = m.tc.Neg(x)
	}
	return Value{r: x}, true
}

// symSprintf handles formats which only use %d, %+d, %s and %%, and returns nil
// for all others.
func (m *Machine) symSprintf(format string, args []Value) *Str {
	type piece struct {
		lit  string
		verb byte
		plus bool
	}
	var ps []piece
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			ps = append(ps, piece{lit: string([]byte{c})})
			continue
		}
		i++
		p := piece{}
		if i < len(format) && format[i] == '+' {
			p.plus = true
			i++
		}
		if i >= len(format) {
			return nil
		}
		switch {
		case format[i] == '%' && !p.plus:
			p.lit = "%"
		case format[i] == 'd' || format[i] == 's' && !p.plus:
			p.verb = format[i]
			n++
		default:
			return nil
		}
		ps = append(ps, p)
	}
	if n != len(args) {
		return nil
	}
	sym := false
	for _, a := range args {
		ia, _ := a.r.(*Iface)
		if ia == nil || ia.t == nil {
			return nil
		}
		if m.hasSym(ia.v, ia.t, 0) {
			sym = true
			if ia.t.kind != KInt && ia.t.kind != KString {
				return nil
			}
		}
	}
	if !sym {
		return nil
	}
	res := emptyStr
	k := 0
	for _, p := range ps {
		if p.verb == 0 {
			res = m.concat(res, &Str{s: p.lit})
			continue
		}
		ia := args[k].r.(*Iface)
		k++
		var s *Str
		isSym := m.hasSym(ia.v, ia.t, 0)
		switch {
		case p.verb == 'd' && ia.t.kind == KInt && isSym:
			s = m.decimal(ia.v, ia.t, p.plus)
		case p.verb == 's' && ia.t.kind == KString && m.hasMethod(ia, "String") == nil && m.hasMethod(ia, "Error") == nil:
			s = m.str(ia.v)
		}
		if s == nil {
			f := "%" + string(rune(p.verb))
			if p.plus {
				f = "%+d"
			}
			s = &Str{s: fmt.Sprintf(f, m.native(ia, rune(p.verb)))}
		}
		res = m.concat(res, s)
	}
	return res
}
