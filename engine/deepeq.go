package main

import (
	"fmt"
	"go/types"
)

// deepEq compares two values structurally and asserts that they are equal.
// Nil and empty slices and maps are the same, functions and values of type
// time.Time are skipped.  Differences in concrete data are reported at once;
// the comparisons of symbolic data are collected in res.
type deepEq struct {
	m   *Machine
	msg string
	res *Term
}

func (d *deepEq) diff(path string) {
	d.m.assertT(d.res, "assert", d.msg)
	d.m.violation("assert", d.msg+": "+path+" differs", nil)
}

func (d *deepEq) eq(x, y Value, t *TInfo, path string) {
	m := d.m
	switch t.kind {
	case KBool, KInt, KFloat, KString:
		e := m.tc.norm(m.equal(x, y, t, t))
		if e.isConst() {
			if e.k == 0 {
				d.diff(path)
			}
			m.trivial++
			return
		}
		d.res = m.tc.BAnd(d.res, e)
	case KFunc:
	case KPtr:
		if x.r == nil || y.r == nil {
			if x.r != nil || y.r != nil {
				d.diff(path)
			}
			return
		}
		if m.refEqual(x, y) {
			return
		}
		d.eq(m.load(x, t.elem), m.load(y, t.elem), t.elem, path)
	case KIface:
		a, _ := x.r.(*Iface)
		b, _ := y.r.(*Iface)
		if a == nil || b == nil {
			if a != b {
				d.diff(path)
			}
			return
		}
		if a.t != b.t {
			d.diff(path + " (type)")
		}
		d.eq(a.v, b.v, a.t, path)
	case KStruct:
		if n, ok := t.t.(*types.Named); ok && n.Obj().Name() == "Time" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
			return
		}
		a, b := x.r.(*Obj), y.r.(*Obj)
		st := t.under.(*types.Struct)
		for i, f := range t.fields {
			d.eq(m.get(a, i), m.get(b, i), f, path+"."+st.Field(i).Name())
		}
	case KArray:
		a, b := x.r.(*Obj), y.r.(*Obj)
		for i := 0; i < t.n; i++ {
			d.eq(m.get(a, i), m.get(b, i), t.elem, fmt.Sprintf("%s[%d]", path, i))
		}
	case KSlice:
		a, b := m.concLen(m.sl(x)), m.concLen(m.sl(y))
		na, nb := 0, 0
		if a != nil {
			na = a.len
		}
		if b != nil {
			nb = b.len
		}
		if na != nb {
			d.diff("length of " + path)
		}
		for i := 0; i < na; i++ {
			d.eq(m.get(a.o, a.off+i), m.get(b.o, b.off+i), t.elem, fmt.Sprintf("%s[%d]", path, i))
		}
	case KMap:
		a, _ := x.r.(*MapV)
		b, _ := y.r.(*MapV)
		na, nb := 0, 0
		if a != nil {
			na = a.n
		}
		if b != nil {
			nb = b.n
		}
		if na != nb {
			d.diff("length of " + path)
		}
		if na == 0 {
			return
		}
		for i := range a.ents {
			e := a.ents[i]
			if e.dead {
				continue
			}
			j := m.find(b, e.k)
			if j < 0 {
				d.diff("keys of " + path)
			}
			d.eq(e.v, b.ents[j].v, t.elem, path+"[...]")
		}
	default:
		m.unsupported("DeepEqual on " + t.String())
	}
}

func (m *Machine) assertEqual(x, y Value, msg string) {
	d := &deepEq{m: m, msg: msg, res: m.tc.t}
	a, _ := x.r.(*Iface)
	b, _ := y.r.(*Iface)
	if a == nil || b == nil || a.t != b.t {
		if a != b {
			d.diff("type")
		}
		return
	}
	d.eq(a.v, b.v, a.t, "")
	if t := m.tc.norm(d.res); t.isConst() && t.k != 0 {
		m.trivial++
	} else {
		m.assertT(t, "assert", msg)
	}
}
