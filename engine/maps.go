package main

import (
	"fmt"
	"math"
	"strconv"
)

// MapV is a map. Entries keep insertion order; deleted entries are dead.
type MapV struct {
	t      *TInfo
	serial uint32
	ents   []mapEnt
	idx    map[any]int // concrete keys
	nsym   int         // live entries with symbolic keys
	n      int         // live entries
}

type mapEnt struct {
	k, v Value
	dead bool
	sym  bool
}

func (m *Machine) newMap(t *TInfo) *MapV {
	if t.key == nil {
		t = tinfo(t.under)
	}
	return &MapV{t: t, serial: m.serial(), idx: map[any]int{}}
}

type ptrKey struct {
	p any
	n uint64
}
type ifaceKey struct {
	t *TInfo
	k any
}

// hashKey gives a comparable Go value for a concrete key; ok is false if the
// key has symbolic parts.
func (m *Machine) hashKey(v Value, t *TInfo) (any, bool) {
	switch t.kind {
	case KBool, KInt:
		if v.r != nil {
			x := m.tc.norm(v.r.(*Term))
			if !x.isConst() {
				return nil, false
			}
			return m.wrap(x, t).n, true
		}
		return v.n, true
	case KFloat:
		if v.r != nil {
			return nil, false
		}
		f := math.Float64frombits(v.n)
		if f == 0 {
			f = 0
		}
		if f != f {
			m.unsupported("NaN map key")
		}
		return f, true
	case KString:
		s := m.str(v)
		if s.t != nil {
			for _, x := range s.t {
				if x != nil && !m.tc.norm(x).isConst() {
					return nil, false
				}
			}
			return shadowStr(s), true
		}
		return s.s, true
	case KPtr, KChan, KUnsafe, KMap, KFunc:
		if _, ok := v.r.(*SymPtr); ok {
			m.unsupported("symbolic pointer as map key")
		}
		return ptrKey{v.r, v.n}, true
	case KIface:
		i, _ := v.r.(*Iface)
		if i == nil {
			return nil, true
		}
		if !i.t.comparable {
			m.rtPanic("hash of unhashable type " + i.t.String())
		}
		k, ok := m.hashKey(i.v, i.t)
		return ifaceKey{i.t, k}, ok
	case KStruct, KArray:
		o := v.r.(*Obj)
		var b []byte
		for i := 0; i < o.length(); i++ {
			et := t.elem
			if t.kind == KStruct {
				et = t.fields[i]
			}
			k, ok := m.hashKey(m.get(o, i), et)
			if !ok {
				return nil, false
			}
			switch x := k.(type) {
			case uint64:
				b = strconv.AppendUint(b, x, 36)
				b = append(b, ',')
			case string:
				b = strconv.AppendInt(b, int64(len(x)), 10)
				b = append(b, ':')
				b = append(b, x...)
			default:
				b = append(b, fmt.Sprintf("%T/%v;", k, k)...)
			}
		}
		return string(b), true
	}
	m.unsupported("map key of type " + t.String())
	return nil, false
}

// find locates the live entry equal to key, forking where necessary.
func (m *Machine) find(mv *MapV, key Value) int {
	hk, conc := m.hashKey(key, mv.t.key)
	if conc {
		if i, ok := mv.idx[hk]; ok {
			return i
		}
		if mv.nsym == 0 {
			return -1
		}
		for i := range mv.ents {
			e := &mv.ents[i]
			if e.dead || !e.sym {
				continue
			}
			if m.cond(m.equal(key, e.k, mv.t.key, mv.t.key)) {
				return i
			}
		}
		return -1
	}
	for i := range mv.ents {
		e := &mv.ents[i]
		if e.dead {
			continue
		}
		if m.cond(m.equal(key, e.k, mv.t.key, mv.t.key)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lookup(x, k Value, in *ins) Value {
	if in.ti.kind == KString {
		return m.strIndex(x, m.to64(k, in.ti2))
	}
	mv, _ := x.r.(*MapV)
	et := in.ti.elem
	commaOk := in.n == 1
	ret := func(v Value, ok Value) Value {
		if commaOk {
			return Value{r: []Value{v, ok}}
		}
		return v
	}
	if mv == nil || mv.n == 0 {
		if mv != nil || in.ti.key.kind == KIface {
			m.hashKey(k, in.ti.key)
		}
		return ret(m.zero(et), Value{})
	}
	if hk, conc := m.hashKey(k, mv.t.key); conc {
		if i, ok := mv.idx[hk]; ok {
			return ret(mv.ents[i].v, Value{n: 1})
		}
		if mv.nsym == 0 {
			return ret(m.zero(et), Value{})
		}
	} else if (et.kind == KInt || et.kind == KBool) && m.noMerge == 0 || et.kind == KStruct && et.n == 0 {
		// build an if-then-else chain
		tc := m.tc
		isSet := et.kind == KStruct
		present := tc.f
		var val *Term
		if !isSet {
			val = m.term(Value{}, et)
		}
		for i := len(mv.ents) - 1; i >= 0; i-- {
			e := &mv.ents[i]
			if e.dead {
				continue
			}
			eq := m.equal(k, e.k, mv.t.key, mv.t.key)
			if eq == tc.f {
				continue
			}
			present = tc.BOr(present, eq)
			if !isSet {
				val = tc.Ite(eq, m.term(e.v, et), val)
			}
		}
		if isSet {
			return ret(m.zero(et), m.wrapBool(present))
		}
		return ret(m.wrap(val, et), m.wrapBool(present))
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	i := m.find(mv, k)
	if i < 0 {
		return ret(m.zero(et), Value{})
	}
	return ret(mv.ents[i].v, Value{n: 1})
}

func (m *Machine) mapWrote(mv *MapV, undo func()) {
	if mv.serial == 0 && m.initing == 0 {
		m.undo = append(m.undo, undoEntry{f: undo})
	}
	if mv.serial < m.freeze && m.initing == 0 && m.lockDepth == 0 {
		m.frozenWrite("write to shared map")
	}
}

func (m *Machine) mapSet(mv *MapV, k, v Value) {
	i := m.find(mv, k)
	if i >= 0 {
		old := mv.ents[i].v
		m.mapWrote(mv, func() { mv.ents[i].v = old })
		mv.ents[i].v = v
		return
	}
	hk, conc := m.hashKey(k, mv.t.key)
	m.alloc(mv.t.key.size + mv.t.elem.size + 8)
	k = m.cloneVal(k, mv.t.key)
	i = len(mv.ents)
	m.mapWrote(mv, func() {
		if conc {
			delete(mv.idx, hk)
		} else {
			mv.nsym--
		}
		mv.ents = mv.ents[:i]
		mv.n--
	})
	mv.ents = append(mv.ents, mapEnt{k: k, v: v, sym: !conc})
	if conc {
		mv.idx[hk] = i
	} else {
		mv.nsym++
	}
	mv.n++
}

func (m *Machine) mapDelete(mv *MapV, k Value) {
	i := m.find(mv, k)
	if i < 0 {
		return
	}
	e := &mv.ents[i]
	var hk any
	if !e.sym {
		hk, _ = m.hashKey(e.k, mv.t.key)
	}
	m.mapWrote(mv, func() {
		e := &mv.ents[i]
		e.dead = false
		if e.sym {
			mv.nsym++
		} else {
			mv.idx[hk] = i
		}
		mv.n++
	})
	e.dead = true
	if e.sym {
		mv.nsym--
	} else {
		delete(mv.idx, hk)
	}
	mv.n--
}

func (m *Machine) mapClear(mv *MapV) {
	ents, idx, nsym, n := mv.ents, mv.idx, mv.nsym, mv.n
	m.mapWrote(mv, func() { mv.ents, mv.idx, mv.nsym, mv.n = ents, idx, nsym, n })
	mv.ents, mv.idx, mv.nsym, mv.n = nil, map[any]int{}, 0, 0
}

// ---------------------------------------------------------------- range

type mapIter struct {
	mv   *MapV
	pos  int
	seen int
	mode int
	ord  []int
}

type strIter struct {
	s *Str
	i int
}

func (m *Machine) rangeIter(x Value, t *TInfo) Value {
	if t.kind == KString {
		return Value{r: &NativeV{&strIter{s: m.str(x)}}}
	}
	mv, _ := x.r.(*MapV)
	it := &mapIter{mv: mv, mode: m.mapOrder}
	if mv != nil && it.mode != 0 {
		for i := range mv.ents {
			if !mv.ents[i].dead {
				it.ord = append(it.ord, i)
			}
		}
		n := len(it.ord)
		switch it.mode {
		case 1: // reverse
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				it.ord[i], it.ord[j] = it.ord[j], it.ord[i]
			}
		default: // rotation
			if n > 0 {
				k := (it.mode - 1) % n
				it.ord = append(append([]int(nil), it.ord[k:]...), it.ord[:k]...)
			}
		}
	}
	return Value{r: &NativeV{it}}
}

func (m *Machine) next(x Value, in *ins) Value {
	switch it := x.r.(*NativeV).x.(type) {
	case *strIter:
		if it.i >= len(it.s.s) {
			return Value{r: []Value{{}, {}, {}}}
		}
		r, n := m.decodeRune(it.s, it.i)
		k := it.i
		it.i += n
		return Value{r: []Value{{n: 1}, {n: uint64(k)}, r}}
	case *mapIter:
		if it.mv != nil {
			if it.mode != 0 {
				for it.pos < len(it.ord) {
					i := it.ord[it.pos]
					it.pos++
					if i < len(it.mv.ents) && !it.mv.ents[i].dead {
						e := &it.mv.ents[i]
						return Value{r: []Value{{n: 1}, m.cloneVal(e.k, it.mv.t.key), m.cloneVal(e.v, it.mv.t.elem)}}
					}
				}
			} else {
				for it.pos < len(it.mv.ents) {
					e := &it.mv.ents[it.pos]
					it.pos++
					if !e.dead {
						return Value{r: []Value{{n: 1}, m.cloneVal(e.k, it.mv.t.key), m.cloneVal(e.v, it.mv.t.elem)}}
					}
				}
			}
		}
		k, v := Value{}, Value{}
		if it.mv != nil {
			k, v = m.zero(it.mv.t.key), m.zero(it.mv.t.elem)
		}
		return Value{r: []Value{{}, k, v}}
	}
	m.unsupported("next")
	return Value{}
}
