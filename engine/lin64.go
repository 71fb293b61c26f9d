package main

// Linear normal form of the mantissas of exact dyadic numbers: sums and
// differences of many such numbers are kept as canonical linear combinations,
// so that, for example, x + (v - x) is v again.

import (
	"fmt"
	"math/bits"
	"sort"
)

type linAtom struct {
	t *Term // 64 bits wide, taken as a signed number
	c int64
}

type linSum struct {
	k     int64
	atoms []linAtom // sorted by id, no zero coefficients
}

const linMaxAtoms = 40

type linAcc struct {
	c      *TermCtx
	k      uint64
	coef   map[*Term]uint64
	budget int
}

// add adds coef*t; the value of t matters modulo 2^w only if t is w bits wide
// and coef is a multiple of 2^(64-w).
func (l *linAcc) add(t *Term, coef uint64) bool {
	l.budget--
	if l.budget < 0 {
		return false
	}
	if coef == 0 {
		return true
	}
	c := l.c
	if !t.isConst() {
		t = c.norm(t)
	}
	if t.w == 64 && !t.isConst() {
		if s, ok := c.lins[t]; ok && s != nil {
			l.k += coef * uint64(s.k)
			for _, a := range s.atoms {
				n := c.norm(a.t)
				if n.isConst() {
					l.k += coef * uint64(a.c) * n.k
				} else {
					l.coef[n] += coef * uint64(a.c)
				}
			}
			return true
		}
	}
	switch t.op {
	case OpConst:
		l.k += coef * t.k
		return true
	case OpAdd:
		return l.add(t.a, coef) && l.add(t.b, coef)
	case OpSub:
		return l.add(t.a, coef) && l.add(t.b, -coef)
	case OpMul:
		if t.b.isConst() {
			return l.add(t.a, coef*uint64(sextv(t.b.k, t.w)))
		}
	case OpConcat:
		if b := t.b; t.a.isConst() && b.op == OpConcat && b.b.isConst() {
			l.k += coef * (t.a.k<<b.w + b.b.k)
			return l.add(c.Zext(b.a, 64), coef<<b.b.w)
		}
		if b := t.b; t.a.isConst() && b.op == OpAdd && b.w < 63 && b.a.uhi+b.b.uhi <= mask(b.w) {
			l.k += coef * (t.a.k << b.w)
			return l.add(c.Zext(b.a, 64), coef) && l.add(c.Zext(b.b, 64), coef)
		}
		if b := t.b; t.a.isConst() && t.a.k == 0 && b.slo >= 0 && b.w <= 62 {
			switch b.op {
			case OpAdd:
				if b.a.slo+b.b.slo >= smin(b.w) && b.a.shi+b.b.shi <= smax(b.w) {
					return l.add(c.Sext(b.a, t.w), coef) && l.add(c.Sext(b.b, t.w), coef)
				}
			case OpSub:
				if b.a.slo-b.b.shi >= smin(b.w) && b.a.shi-b.b.slo <= smax(b.w) {
					return l.add(c.Sext(b.a, t.w), coef) && l.add(c.Sext(b.b, t.w), -coef)
				}
			}
		}
		if t.a.isConst() && t.a.k == 0 {
			break
		}
		if t.b.isConst() {
			l.k += coef * t.b.k
			return l.add(t.a, coef<<t.b.w)
		}
		if t.a.isConst() {
			l.k += coef * (t.a.k << t.b.w)
			return l.atom(c.Zext(t.b, 64), coef)
		}
	case OpExtract:
		if t.k == 0 {
			return l.add(t.a, coef)
		}
	case OpSext:
		a := t.a
		if r := c.wide[a]; r != nil && r != t {
			return l.add(r, coef)
		}
		switch a.op {
		case OpConcat:
			if a.a.isConst() {
				l.k += coef * (uint64(sextv(a.a.k, a.a.w)) << a.b.w)
				return l.add(c.Zext(a.b, t.w), coef)
			}
			if a.b.isConst() {
				l.k += coef * a.b.k
				return l.add(c.Sext(a.a, t.w), coef<<a.b.w)
			}
		case OpAdd, OpSub:
			b := a.b
			if a.w > 1 && a.w <= 62 {
				lo, hi := a.a.slo+b.slo, a.a.shi+b.shi
				if a.op == OpSub {
					lo, hi = a.a.slo-b.shi, a.a.shi-b.slo
				}
				if lo >= smin(a.w) && hi <= smax(a.w) {
					if a.op == OpSub {
						return l.add(c.Sext(a.a, t.w), coef) && l.add(c.Sext(b, t.w), -coef)
					}
					return l.add(c.Sext(a.a, t.w), coef) && l.add(c.Sext(b, t.w), coef)
				}
			}
		}
	}
	return l.atom(c.resizeS(t, 64), coef)
}

// atom adds coef*t, for a 64-bit term t which is not a sum.
func (l *linAcc) atom(t *Term, coef uint64) bool {
	c := l.c
	for {
		t = c.norm(t)
		if t.isConst() {
			l.k += coef * t.k
			return true
		}
		var x *Term
		switch {
		case t.op == OpSext:
			x = t.a
		case t.op == OpConcat && t.a.isConst() && t.a.k == 0 && t.b.slo >= 0:
			x = t.b
		case t.op == OpConcat && t.a.isConst() && t.a.k == 0 && t.b.op == OpExtract && t.b.k == 0 && t.b.a.slo >= 0 && t.b.a.uhi <= mask(t.b.w):
			x = t.b.a
		}
		if x == nil && t.op == OpConcat && t.a.isConst() && t.a.k == 0 && t.b.op == OpExtract {
			x = t.b
			if x.k == 0 || x.a.w != 64 {
				break
			}
		}
		if x == nil {
			break
		}
		for x.op == OpExtract && x.k == 0 && x.a.slo >= smin(x.w) && x.a.shi <= smax(x.w) {
			x = x.a
		}
		if e := x; e.op == OpExtract && e.k > 0 && e.a.w == 64 {
			if lo, hi := e.a.slo>>e.k, e.a.shi>>e.k; t.op == OpSext && lo >= smin(e.w) && hi <= smax(e.w) || t.op == OpConcat && lo >= 0 && uint64(hi) <= mask(e.w) {
				t = c.AshrC(e.a, uint8(e.k))
				break
			}
			if t.op == OpConcat {
				break
			}
		}
		n := c.resizeS(x, 64)
		if n == t {
			break
		}
		switch n.op {
		case OpAdd, OpSub, OpMul, OpConcat:
			if n.w == 64 && n.size < t.size {
				return l.add(n, coef)
			}
		}
		if n.size >= t.size {
			break
		}
		t = n
	}
	l.coef[t] += coef
	return true
}

// floorInfo describes a term as x >> k, with x = 2^k * (x >> k) + low.
type floorInfo struct {
	x   *linSum
	low *Term
	k   int
}

// dropFloors replaces x - 2^k * (x >> k) by the low bits of x.
func (l *linAcc) dropFloors() {
	c := l.c
	if len(c.floors) == 0 {
		return
	}
	for i := 0; i < 16; i++ {
		var best *Term
		for t, v := range l.coef {
			if f := c.floors[t]; f != nil && v != 0 && (best == nil || t.id > best.id) {
				if v<<(64-f.k) != 0 {
					continue
				}
				q := -uint64(int64(v) >> f.k)
				ok := true
				for _, a := range f.x.atoms {
					if l.coef[a.t] != q*uint64(a.c) {
						ok = false
						break
					}
				}
				if ok {
					best = t
				}
			}
		}
		if best == nil {
			return
		}
		f := c.floors[best]
		q := -uint64(int64(l.coef[best]) >> f.k)
		delete(l.coef, best)
		for _, a := range f.x.atoms {
			delete(l.coef, a.t)
		}
		l.k -= q * uint64(f.x.k)
		l.add(f.low, q)
	}
}

// floorDiv computes (t + add) >> e, where the sum does not overflow.
func (c *TermCtx) floorDiv(t *Term, add int64, e int) *Term {
	s := c.linComb(t, 1, c.Const(uint64(add), 64), 1)
	if s == nil {
		return c.AshrC(c.Add(t, c.Const(uint64(add), 64)), uint8(e))
	}
	if _, _, ok := s.bounds(); !ok {
		return c.AshrC(c.Add(t, c.Const(uint64(add), 64)), uint8(e))
	}
	a, b := &linSum{k: s.k >> e}, &linSum{k: s.k & (1<<e - 1)}
	for _, x := range s.atoms {
		if uint64(x.c)<<(64-e) == 0 {
			a.atoms = append(a.atoms, linAtom{x.t, x.c >> e})
		} else {
			b.atoms = append(b.atoms, x)
		}
	}
	if len(b.atoms) > 0 {
		if _, _, ok := a.bounds(); !ok {
			return c.AshrC(c.Add(t, c.Const(uint64(add), 64)), uint8(e))
		}
		tb := c.linTerm(b)
		fl := c.AshrC(tb, uint8(e))
		if fl.isConst() {
			a.k += int64(fl.k)
		} else {
			if c.floors[fl] == nil && fl.w == 64 {
				c.floors[fl] = &floorInfo{x: b, k: e, low: c.Zext(c.Extract(tb, 0, uint8(e)), 64)}
			}
			a.atoms = append(a.atoms, linAtom{fl, 1})
		}
	}
	return c.linTerm(a)
}

func (l *linAcc) sum() *linSum {
	l.dropFloors()
	s := &linSum{k: int64(l.k)}
	for t, v := range l.coef {
		if v != 0 {
			s.atoms = append(s.atoms, linAtom{t, int64(v)})
		}
	}
	if len(s.atoms) > linMaxAtoms {
		return nil
	}
	sort.Slice(s.atoms, func(i, j int) bool { return s.atoms[i].t.id < s.atoms[j].t.id })
	return s
}

// linComb gives p*x + q*y.
func (c *TermCtx) linComb(x *Term, p int64, y *Term, q int64) *linSum {
	l := &linAcc{c: c, coef: map[*Term]uint64{}, budget: 400}
	if !l.add(x, uint64(p)) {
		return nil
	}
	if y != nil && !l.add(y, uint64(q)) {
		return nil
	}
	before := l.eval()
	s := l.sum()
	if s != nil {
		// self-check on the concrete values
		want := uint64(p) * x.cv
		if y != nil {
			want += uint64(q) * y.cv
		}
		got := uint64(s.k)
		for _, a := range s.atoms {
			got += uint64(a.c) * a.t.cv
		}
		if got != want {
			panic(fmt.Sprintf("internal error: linear form %d %d %d: %d*%s %d*%s", got, before, want, p, termDebug(x, 8), q, termDebug(y, 8)))
		}
	}
	return s
}

func (l *linAcc) eval() uint64 {
	r := l.k
	for t, v := range l.coef {
		r += v * t.cv
	}
	return r
}

func termDebug(t *Term, d int) string {
	if t == nil {
		return ""
	}
	s := fmt.Sprintf("(%d/%d", t.op, t.w)
	if t.op == OpConst || t.op == OpExtract {
		s += fmt.Sprintf(" k%d", t.k)
	}
	if d > 0 {
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				s += " " + termDebug(x, d-1)
			}
		}
	}
	return s + fmt.Sprintf(" =%d)", t.cv)
}

// bounds computes the range of the sum; ok is false if it may be large.
func (s *linSum) bounds() (lo, hi int64, ok bool) {
	const lim = fixMax
	if abs64(s.k) > lim || s.k < -lim {
		return 0, 0, false
	}
	lo, hi = s.k, s.k
	for _, a := range s.atoms {
		p, o1 := mulOvfS(a.c, a.t.slo)
		q, o2 := mulOvfS(a.c, a.t.shi)
		if o1 || o2 {
			return 0, 0, false
		}
		if p > q {
			p, q = q, p
		}
		if p < -lim || q > lim {
			return 0, 0, false
		}
		lo += p
		hi += q
		if lo < -lim || hi > lim {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// zeros gives the number of common trailing zero bits of the coefficients.
func (s *linSum) zeros() int {
	var or uint64
	or = uint64(s.k)
	for _, a := range s.atoms {
		or |= uint64(a.c)
	}
	if or == 0 {
		return 63
	}
	return bits.TrailingZeros64(or)
}

func (s *linSum) shift(k int) {
	s.k >>= k
	for i := range s.atoms {
		s.atoms[i].c >>= k
	}
}

// linTerm builds the canonical term of a sum which does not overflow.
func (c *TermCtx) linTerm(s *linSum) *Term {
	var r *Term
	for pass := 0; pass < 2; pass++ {
		for _, a := range s.atoms {
			if (a.c > 0) != (pass == 0) {
				continue
			}
			t := a.t
			if k := abs64(a.c); k != 1 {
				t = c.Mul(t, c.Const(uint64(k), 64))
			}
			switch {
			case r == nil && a.c > 0:
				r = t
			case r == nil:
				r = c.Neg(t)
			case a.c > 0:
				r = c.Add(r, t)
			default:
				r = c.Sub(r, t)
			}
		}
	}
	if r == nil {
		return c.Const(uint64(s.k), 64)
	}
	if s.k != 0 {
		r = c.Add(r, c.Const(uint64(s.k), 64))
	}
	if (len(s.atoms) > 1 || r != s.atoms[0].t) && r.w == 64 && !r.isConst() {
		c.lins[r] = s
	}
	return r
}

// fixLin computes a ± b as a canonical sum, or gives up.
func (m *Machine) fixLin(a, b *Fix, neg bool) (Value, bool) {
	e := a.e
	if b.e > e {
		e = b.e
	}
	ka, kb := e-a.e, e-b.e
	if ka > 53 || kb > 53 {
		return Value{}, false
	}
	// the exact result must be representable in 64 bits
	for _, x := range [][3]int64{{a.m.slo, a.m.shi, int64(ka)}, {b.m.slo, b.m.shi, int64(kb)}} {
		if lim := int64(1<<61) >> x[2]; x[0] < -lim || x[1] > lim {
			return Value{}, false
		}
	}
	q := int64(1) << kb
	if neg {
		q = -q
	}
	s := m.tc.linComb(a.m, 1<<ka, b.m, q)
	if s == nil {
		return Value{}, false
	}
	if _, _, ok := s.bounds(); !ok {
		return Value{}, false
	}
	if z := s.zeros(); z > 0 && e > 0 {
		if z > e {
			z = e
		}
		s.shift(z)
		e -= z
	}
	return m.wrapFix(m.tc.linTerm(s), e), true
}

// linCmp compares p and q via the sign of their difference, when this cancels
// terms; it returns nil, nil otherwise.
func (c *TermCtx) linCmp(p, q *Term) (*Term, *Term) {
	if p.isConst() || q.isConst() {
		return nil, nil
	}
	s := c.linComb(p, 1, q, -1)
	if s == nil {
		return nil, nil
	}
	if _, _, ok := s.bounds(); !ok {
		return nil, nil
	}
	if len(s.atoms) > 1 {
		sp, sq := c.linComb(p, 1, nil, 0), c.linComb(q, 1, nil, 0)
		if sp == nil || sq == nil || len(s.atoms) >= len(sp.atoms)+len(sq.atoms) {
			return nil, nil
		}
	}
	if z := s.zeros(); z > 0 {
		s.shift(min(z, 62))
	}
	// positive part against negative part
	x, y := &linSum{}, &linSum{}
	for _, a := range s.atoms {
		if a.c > 0 {
			x.atoms = append(x.atoms, a)
		} else {
			y.atoms = append(y.atoms, linAtom{a.t, -a.c})
		}
	}
	if len(x.atoms) == 0 {
		x.k = s.k
	} else {
		y.k = -s.k
	}
	if _, _, ok := x.bounds(); !ok {
		return nil, nil
	}
	if _, _, ok := y.bounds(); !ok {
		return nil, nil
	}
	return c.linTerm(x), c.linTerm(y)
}
