package main

import (
	"fmt"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KArray
	KStruct
	KMap
	KChan
	KFunc
	KIface
	KTuple
	KUnsafe
)

// TInfo describes a type to the interpreter. Canonical per identical type.
type TInfo struct {
	t      types.Type
	under  types.Type
	kind   Kind
	bits   uint8
	signed bool
	elem   *TInfo
	key    *TInfo
	n      int
	fields []*TInfo
	id     int

	mmu        sync.Mutex
	methods    map[string]*ssa.Function
	impl       map[*TInfo]bool
	comparable bool
	size       int64
}

func (t *TInfo) agg() bool      { return t.kind == KStruct || t.kind == KArray }
func (t *TInfo) scalar() bool   { return t.kind == KBool || t.kind == KInt || t.kind == KFloat }
func (t *TInfo) String() string { return types.TypeString(t.t, nil) }

var (
	tiMu  sync.Mutex
	tiMap typeutil.Map
	tiN   int
)

func tinfo(t types.Type) *TInfo {
	tiMu.Lock()
	defer tiMu.Unlock()
	return tinfo1(t)
}

func tinfo1(t types.Type) *TInfo {
	t = types.Unalias(t)
	if x := tiMap.At(t); x != nil {
		return x.(*TInfo)
	}
	ti := &TInfo{t: t, under: t.Underlying(), id: tiN}
	tiN++
	tiMap.Set(t, ti)
	switch u := ti.under.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			ti.kind = KUnsafe
		case u.Info()&types.IsBoolean != 0:
			ti.kind = KBool
			ti.size = 1
		case u.Info()&types.IsInteger != 0:
			ti.kind = KInt
			ti.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.bits = 8
			case types.Int16, types.Uint16:
				ti.bits = 16
			case types.Int32, types.Uint32:
				ti.bits = 32
			default:
				ti.bits = 64
			}
			ti.size = int64(ti.bits / 8)
		case u.Info()&types.IsFloat != 0:
			ti.kind = KFloat
			ti.bits = 64
			if u.Kind() == types.Float32 {
				ti.bits = 32
			}
			ti.size = int64(ti.bits / 8)
		case u.Info()&types.IsComplex != 0:
			ti.kind = KComplex
		case u.Info()&types.IsString != 0:
			ti.kind = KString
			ti.size = 16
		case u.Kind() == types.UntypedNil:
			ti.kind = KPtr
		default:
			ti.kind = KTuple
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.size = 8
		ti.elem = tinfo1(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.size = 24
		ti.elem = tinfo1(u.Elem())
	case *types.Array:
		ti.kind = KArray
		ti.elem = tinfo1(u.Elem())
		ti.n = int(u.Len())
		ti.size = ti.elem.size * int64(ti.n)
	case *types.Struct:
		ti.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			f := tinfo1(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.size += f.size
		}
		ti.n = len(ti.fields)
	case *types.Map:
		ti.kind = KMap
		ti.size = 8
		ti.key = tinfo1(u.Key())
		ti.elem = tinfo1(u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ti.size = 8
		ti.elem = tinfo1(u.Elem())
	case *types.Signature:
		ti.kind = KFunc
		ti.size = 8
	case *types.Interface:
		ti.kind = KIface
		ti.size = 16
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tinfo1(u.At(i).Type()))
		}
	default:
		ti.kind = KTuple
	}
	ti.comparable = types.Comparable(t)
	return ti
}

// Value is an interpreter value; the static type says how to read it.
//
//	bool, ints:  n (sign- or zero-extended to 64 bits), or r = *Term
//	float:       n = float64 bits, or r = *Fix (exact dyadic) or *Term (bits)
//	string:      r = *Str (nil = "")
//	pointer:     r = *Obj, n = cell index; or r = *SymPtr; nil
//	slice:       r = *SliceV (nil = nil slice)
//	struct,array as a value: r = *Obj (not to be modified)
//	map: *MapV; chan: *ChanV; func: *Closure; interface: *Iface
//	tuple: r = []Value
type Value struct {
	n uint64
	r any
}

type Obj struct {
	serial uint32 // 0: created during initialisation
	isB    bool
	v      []Value
	b      []byte
	t      []*Term // parallel to b, nil if all concrete
	lazy   *TInfo  // element type of a lazily grown array
	limit  *Term   // symbolic capacity of a lazily grown array (unused bound)
}

type SliceV struct {
	o             *Obj
	off, len, cap int
	lenT          *Term // symbolic length (64 bits), nil if concrete
}

type Str struct {
	s    string
	t    []*Term // nil if concrete; t[i] == nil means s[i]
	lazy func(m *Machine) *Str
}

type Iface struct {
	t *TInfo
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	nat  func(m *Machine, args []Value) Value
}

type SymPtr struct {
	o   *Obj
	idx *Term // 64 bits, in [0,n)
	n   int
	off int
}

// Fix is an exactly represented symbolic float64: m * 2^-e.
type Fix struct {
	m *Term // 64-bit signed, |m| <= 2^53
	e int
}

type NativeV struct{ x any }

func (o *Obj) length() int {
	if o.isB {
		return len(o.b)
	}
	return len(o.v)
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{r: &Str{s: s}}
}

func isByte(t *TInfo) bool { return t.kind == KInt && t.bits == 8 && !t.signed }

func (m *Machine) newArr(elem *TInfo, n int) *Obj {
	if isByte(elem) {
		return &Obj{serial: m.serial(), isB: true, b: make([]byte, n)}
	}
	o := &Obj{serial: m.serial(), v: make([]Value, n)}
	if elem.agg() {
		for i := range o.v {
			o.v[i] = m.zero(elem)
		}
	}
	return o
}

func (m *Machine) zero(t *TInfo) Value {
	switch t.kind {
	case KArray:
		return Value{r: m.newArr(t.elem, t.n)}
	case KStruct:
		o := &Obj{serial: m.serial(), v: make([]Value, len(t.fields))}
		for i, f := range t.fields {
			if f.agg() {
				o.v[i] = m.zero(f)
			}
		}
		return Value{r: o}
	case KTuple:
		vs := make([]Value, len(t.fields))
		for i, f := range t.fields {
			vs[i] = m.zero(f)
		}
		return Value{r: vs}
	}
	return Value{}
}

func (m *Machine) grow(o *Obj, n int) {
	if o.isB {
		for len(o.b) < n {
			o.b = append(o.b, 0)
		}
		if o.t != nil {
			for len(o.t) < n {
				o.t = append(o.t, nil)
			}
		}
		return
	}
	for len(o.v) < n {
		o.v = append(o.v, m.zero(o.lazy))
	}
}

func (m *Machine) get(o *Obj, i int) Value {
	if o.lazy != nil && i >= o.length() {
		m.grow(o, i+1)
	}
	if o.isB {
		if o.t != nil && o.t[i] != nil {
			return Value{r: o.t[i]}
		}
		return Value{n: uint64(o.b[i])}
	}
	return o.v[i]
}

type undoEntry struct {
	o *Obj
	i int
	v Value
	f func()
}

func (m *Machine) wrote(o *Obj, i int) {
	if o.serial == 0 {
		if m.initing == 0 {
			m.undo = append(m.undo, undoEntry{o: o, i: i, v: m.get(o, i)})
		}
	}
	if o.serial < m.freeze && m.initing == 0 && m.lockDepth == 0 {
		m.frozenWrite(fmt.Sprintf("store to shared memory"))
	}
}

func (m *Machine) rawSet(o *Obj, i int, v Value) {
	if o.isB {
		if t, ok := v.r.(*Term); ok {
			if o.t == nil {
				o.t = make([]*Term, len(o.b))
			}
			o.t[i] = t
		} else {
			o.b[i] = byte(v.n)
			if o.t != nil {
				o.t[i] = nil
			}
		}
		return
	}
	o.v[i] = v
}

// set stores a non-aggregate value.
func (m *Machine) set(o *Obj, i int, v Value) {
	if o.lazy != nil && i >= o.length() {
		m.grow(o, i+1)
	}
	if o.serial < m.freeze || o.serial == 0 {
		m.wrote(o, i)
	}
	m.rawSet(o, i, v)
}

// assignAgg copies the contents of src into dst, keeping dst's identity.
func (m *Machine) assignAgg(dst, src *Obj, t *TInfo) {
	if dst == src {
		return
	}
	if dst.isB {
		for i := range dst.b {
			m.set(dst, i, m.get(src, i))
		}
		return
	}
	for i := range dst.v {
		var et *TInfo
		if t.kind == KArray {
			et = t.elem
		} else {
			et = t.fields[i]
		}
		if et.agg() {
			m.assignAgg(dst.v[i].r.(*Obj), src.v[i].r.(*Obj), et)
		} else {
			m.set(dst, i, src.v[i])
		}
	}
}

// cloneVal returns a value of type t that does not share aggregate storage.
func (m *Machine) cloneVal(v Value, t *TInfo) Value {
	if !t.agg() {
		return v
	}
	return Value{r: m.cloneObj(v.r.(*Obj), t)}
}

func (m *Machine) cloneObj(o *Obj, t *TInfo) *Obj {
	r := &Obj{serial: m.serial(), isB: o.isB}
	if o.isB {
		r.b = append([]byte(nil), o.b...)
		if o.t != nil {
			r.t = append([]*Term(nil), o.t...)
		}
		return r
	}
	r.v = make([]Value, len(o.v))
	if t.kind == KArray {
		if !t.elem.agg() {
			copy(r.v, o.v)
			return r
		}
		for i := range o.v {
			r.v[i] = Value{r: m.cloneObj(o.v[i].r.(*Obj), t.elem)}
		}
		return r
	}
	for i, f := range t.fields {
		if f.agg() {
			r.v[i] = Value{r: m.cloneObj(o.v[i].r.(*Obj), f)}
		} else {
			r.v[i] = o.v[i]
		}
	}
	return r
}

// load reads a value of type t through pointer p.
func (m *Machine) load(p Value, t *TInfo) Value {
	switch q := p.r.(type) {
	case *Obj:
		if t.agg() {
			return Value{r: m.cloneObj(m.get(q, int(p.n)).r.(*Obj), t)}
		}
		return m.get(q, int(p.n))
	case *SymPtr:
		return m.loadSym(q, t)
	case nil:
		m.nilDeref()
	}
	m.unsupported(fmt.Sprintf("load through %T", p.r))
	return Value{}
}

func (m *Machine) store(p Value, v Value, t *TInfo) {
	switch q := p.r.(type) {
	case *Obj:
		if t.agg() {
			m.assignAgg(m.get(q, int(p.n)).r.(*Obj), v.r.(*Obj), t)
			return
		}
		m.set(q, int(p.n), v)
		return
	case *SymPtr:
		m.storeSym(q, v, t)
		return
	case nil:
		m.nilDeref()
	}
	m.unsupported(fmt.Sprintf("store through %T", p.r))
}

func (m *Machine) loadSym(q *SymPtr, t *TInfo) Value {
	if !t.scalar() {
		i := m.concretize(q.idx)
		return m.load(Value{n: i + uint64(q.off), r: q.o}, t)
	}
	return m.selectFrom(q.idx, q.n, t, func(i int) Value { return m.get(q.o, i+q.off) })
}

// selectFrom reads element idx (in range) of a sequence of scalars.
func (m *Machine) selectFrom(idx *Term, n int, t *TInfo, get func(i int) Value) Value {
	idx = m.tc.norm(idx)
	if idx.isConst() {
		return get(int(idx.k))
	}
	lo, hi := int(idx.ulo), n-1
	if idx.uhi < uint64(hi) {
		hi = int(idx.uhi)
	}
	w := t.bits
	if t.kind == KBool {
		w = 0
	}
	allConc := true
	for i := lo; i <= hi; i++ {
		if get(i).r != nil {
			allConc = false
			break
		}
	}
	if t.kind == KFloat || (!allConc && hi-lo > 600) || hi-lo > 70000 {
		return get(int(m.concretize(idx)))
	}
	if allConc && w > 0 && hi-lo >= 3 {
		data := make([]uint64, hi+1)
		for i := range data {
			data[i] = get(i).n & mask(w)
		}
		tab := m.internTable(data, w)
		// narrow the index
		nb := uint8(1)
		for 1<<nb <= hi {
			nb++
		}
		return m.wrap(m.tc.Tab(m.tc.Extract(idx, 0, nb), tab), t)
	}
	res := m.term(get(hi), t)
	for i := hi - 1; i >= lo; i-- {
		res = m.tc.Ite(m.tc.Eq(idx, m.tc.Const(uint64(i), idx.w)), m.term(get(i), t), res)
	}
	return m.wrap(res, t)
}

func (m *Machine) storeSym(q *SymPtr, v Value, t *TInfo) {
	idx := m.tc.norm(q.idx)
	if !t.scalar() || t.kind == KFloat || q.n > 600 || idx.isConst() {
		i := m.concretize(idx)
		m.store(Value{n: i + uint64(q.off), r: q.o}, v, t)
		return
	}
	nv := m.term(v, t)
	for i := 0; i < q.n; i++ {
		if uint64(i) < idx.ulo || uint64(i) > idx.uhi {
			continue
		}
		c := m.tc.Eq(idx, m.tc.Const(uint64(i), idx.w))
		m.set(q.o, i+q.off, m.wrap(m.tc.Ite(c, nv, m.term(m.get(q.o, i+q.off), t)), t))
	}
}

var (
	tableMu  sync.Mutex
	tables   = map[string]*Table{}
	tableSeq int
)

func (m *Machine) internTable(data []uint64, w uint8) *Table {
	key := make([]byte, 0, len(data)*4)
	key = append(key, w)
	for _, x := range data {
		for k := uint8(0); k < w; k += 8 {
			key = append(key, byte(x>>k))
		}
	}
	tableMu.Lock()
	defer tableMu.Unlock()
	if t, ok := tables[string(key)]; ok {
		return t
	}
	tableSeq++
	t := &Table{id: tableSeq, w: w, data: data}
	tables[string(key)] = t
	return t
}

// term converts a bool or integer value to a term.
func (m *Machine) term(v Value, t *TInfo) *Term {
	if x, ok := v.r.(*Term); ok {
		return x
	}
	if v.r != nil {
		m.unsupported(fmt.Sprintf("term of %T", v.r))
	}
	if t.kind == KBool {
		return m.tc.Bool(v.n != 0)
	}
	return m.tc.Const(v.n, t.bits)
}

// wrap converts a term to a value, making constants concrete.
func (m *Machine) wrap(t *Term, ti *TInfo) Value {
	t = m.tc.norm(t)
	if t.isConst() {
		if t.w == 0 {
			return Value{n: t.k}
		}
		if ti.kind == KInt && ti.signed {
			return Value{n: uint64(sextv(t.k, t.w))}
		}
		return Value{n: t.k}
	}
	return Value{r: t}
}

// conc gives the concrete shadow of a scalar value.
func shadow(v Value, t *TInfo) uint64 {
	switch x := v.r.(type) {
	case *Term:
		if t.kind == KInt && t.signed {
			return uint64(sextv(x.cv, x.w))
		}
		return x.cv
	case *Fix:
		return math.Float64bits(math.Ldexp(float64(int64(x.m.cv)), -x.e))
	}
	return v.n
}
