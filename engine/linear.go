package main

// Linear normal forms modulo 2^w, used to decide equations between long sums
// (checksums) for which bit-blasting is hopeless.

type linForm struct {
	w      uint8
	k      uint64
	coef   map[*Term]uint64
	budget int
	c      *TermCtx
}

// add adds coef * 2^s * zext(t) to the form, modulo 2^w.
func (l *linForm) add(t *Term, s uint8, neg bool) bool {
	l.budget--
	if l.budget < 0 {
		return false
	}
	if s >= l.w {
		return true
	}
	if !t.isConst() {
		t = l.c.norm(t)
	}
	trunc := int(t.w)+int(s) >= int(l.w)
	switch t.op {
	case OpConst:
		v := t.k << s
		if neg {
			v = -v
		}
		l.k += v
		return true
	case OpConcat:
		return l.add(t.b, s, neg) && l.add(t.a, s+t.b.w, neg)
	case OpAdd:
		if !trunc {
			hi, o := addOvfU(t.a.uhi, t.b.uhi, t.w)
			if o || hi > mask(t.w) {
				break
			}
		}
		return l.add(t.a, s, neg) && l.add(t.b, s, neg)
	case OpSub:
		if !trunc && t.a.ulo < t.b.uhi {
			break
		}
		return l.add(t.a, s, neg) && l.add(t.b, s, !neg)
	case OpNot:
		// ~x = 2^n - 1 - x
		v := mask(t.w) << s
		if neg {
			v = -v
		}
		l.k += v
		return l.add(t.a, s, !neg)
	case OpMul:
		if t.b.isConst() && trunc {
			for i := uint8(0); i < t.w; i++ {
				if t.b.k>>i&1 != 0 && !l.add(t.a, s+i, neg) {
					return false
				}
			}
			return true
		}
	}
	v := uint64(1) << s
	if neg {
		v = -v
	}
	l.coef[t] += v
	return true
}

// linDiff computes a-b; ok is false if the form got too large.
func (c *TermCtx) linDiff(a, b *Term) (l *linForm, ok bool) {
	l = &linForm{w: a.w, coef: map[*Term]uint64{}, budget: 40000, c: c}
	if !l.add(a, 0, false) || !l.add(b, 0, true) {
		return nil, false
	}
	m := mask(a.w)
	l.k &= m
	for t, v := range l.coef {
		if v&m == 0 {
			delete(l.coef, t)
		}
	}
	return l, true
}

func sumLike(t *Term) bool {
	for t.op == OpConcat {
		if sumLike(t.a) {
			return true
		}
		t = t.b
	}
	return t.op == OpAdd || t.op == OpSub
}

// linEq decides a == b if it follows by linear arithmetic; 1 true, 0 false,
// -1 unknown.
func (c *TermCtx) linEq(a, b *Term) int {
	if !sumLike(a) && !sumLike(b) {
		return -1
	}
	if a.size < 8 && b.size < 8 {
		return -1
	}
	l, ok := c.linDiff(a, b)
	if !ok || len(l.coef) != 0 {
		return -1
	}
	if l.k == 0 {
		return 1
	}
	return 0
}
