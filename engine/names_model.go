package main

import (
	"regexp"
	"regexp/syntax"

	"seehuhn.de/go/postscript/type1/names"
)

// registerLibNames models two library functions which are awkward to
// interpret: the glyph-name table of the postscript library (it is read from
// an embedded file on first use) and regular expressions.
func registerLibNames(reg func(string, func(m *Machine, a []Value) Value)) {
	reg("(*seehuhn.de/go/postscript/type1/names.glyphMap).encode", func(m *Machine, a []Value) Value {
		r := rune(int32(m.concVal(a[1])))
		return mkStr(names.FromUnicode(string(r)))
	})
}

// deleteClass handles ReplaceAllString(s, "") for the expression [class]+ or
// [class] on strings with symbolic bytes; ok is false if the expression has
// a different form.
func (m *Machine) deleteClass(re *regexp.Regexp, s *Str) (Value, bool) {
	p, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return Value{}, false
	}
	p = p.Simplify()
	if p.Op == syntax.OpPlus || p.Op == syntax.OpStar {
		p = p.Sub[0]
	}
	if p.Op != syntax.OpCharClass {
		return Value{}, false
	}
	// all characters beyond ASCII must behave in the same way
	n := len(p.Rune)
	if n < 2 || p.Rune[n-1] != 0x10FFFF || p.Rune[n-2] > 0x80 {
		return Value{}, false
	}
	res := &Str{}
	var keep []int
	for i := 0; i < len(s.s); i++ {
		b := m.strByteT(s, i)
		in := m.tc.f
		for k := 0; k < n; k += 2 {
			lo, hi := p.Rune[k], p.Rune[k+1]
			if lo > 255 {
				break
			}
			if hi > 255 {
				hi = 255
			}
			c := m.tc.BAnd(m.tc.BNot(m.tc.Ult(b, m.tc.Const(uint64(lo), 8))), m.tc.BNot(m.tc.Ult(m.tc.Const(uint64(hi), 8), b)))
			in = m.tc.BOr(in, c)
		}
		if !m.cond(in) {
			keep = append(keep, i)
		}
	}
	v := strVal(res)
	for j := 0; j < len(keep); {
		k := j
		for k+1 < len(keep) && keep[k+1] == keep[k]+1 {
			k++
		}
		v = m.strConcat(v, m.subStr(s, keep[j], keep[k]+1))
		j = k + 1
	}
	return v, true
}
