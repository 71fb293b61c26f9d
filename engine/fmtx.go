package main

// fmt, encoding/binary, regexp and vsym intrinsics.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"regexp"
	"strings"
)

var (
	f64t   = types.Typ[types.Float64]
	u32t   = types.Typ[types.Uint32]
	u64t   = types.Typ[types.Uint64]
	i64t   = types.Typ[types.Int64]
	bytesT = types.NewSlice(types.Typ[types.Uint8])
)

// hasSym reports whether formatting v would depend on symbolic values.
func (m *Machine) hasSym(v Value, t *TInfo, depth int) bool {
	if depth > 6 {
		return false
	}
	switch t.kind {
	case KBool, KInt, KFloat:
		return v.r != nil
	case KString:
		s, _ := v.r.(*Str)
		return s != nil && (s.lazy != nil || s.t != nil)
	case KIface:
		i, _ := v.r.(*Iface)
		return i != nil && i.t != nil && m.hasSym(i.v, i.t, depth+1)
	case KStruct:
		o := v.r.(*Obj)
		for i, f := range t.fields {
			if m.hasSym(m.get(o, i), f, depth+1) {
				return true
			}
		}
	case KArray:
		o := v.r.(*Obj)
		for i := 0; i < t.n; i++ {
			if m.hasSym(m.get(o, i), t.elem, depth+1) {
				return true
			}
		}
	case KSlice:
		s := m.sl(v)
		if s == nil {
			return false
		}
		if s.lenT != nil {
			return true
		}
		for i := 0; i < s.len; i++ {
			if m.hasSym(m.get(s.o, s.off+i), t.elem, depth+1) {
				return true
			}
		}
	case KPtr:
		if o, ok := v.r.(*Obj); ok && depth < 3 {
			return m.hasSym(m.get(o, int(v.n)), t.elem, depth+3)
		}
	case KMap:
		mv, _ := v.r.(*MapV)
		if mv != nil && mv.nsym > 0 {
			return true
		}
	}
	return false
}

type textV string

func (t textV) Format(s fmt.State, c rune) { fmt.Fprint(s, string(t)) }

// native converts an interpreted value to a Go value for formatting.
func (m *Machine) native(i *Iface, verb rune) any {
	if i == nil || i.t == nil {
		return nil
	}
	t, v := i.t, i.v
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		if f := m.hasMethod(i, "Error"); f != nil && f.Signature.Params().Len() == 0 {
			return m.concStr(m.str(m.callFn(m.fn(f), []Value{v}, nil)))
		}
		if f := m.hasMethod(i, "String"); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
			return m.concStr(m.str(m.callFn(m.fn(f), []Value{v}, nil)))
		}
	}
	switch t.kind {
	case KBool:
		return m.concVal(v) != 0
	case KInt:
		k := m.concValT(v, t)
		if t.signed {
			switch t.bits {
			case 8:
				return int8(k)
			case 16:
				return int16(k)
			case 32:
				return int32(k)
			}
			return int64(k)
		}
		switch t.bits {
		case 8:
			return uint8(k)
		case 16:
			return uint16(k)
		case 32:
			return uint32(k)
		}
		return k
	case KFloat:
		if t.bits == 32 {
			return float32(m.concFloat(v))
		}
		return m.concFloat(v)
	case KString:
		return m.concStr(m.str(v))
	case KSlice:
		s := m.concLen(m.sl(v))
		if isByte(t.elem) {
			return []byte(m.concStr(m.str(m.bytesToStr(s))))
		}
		n := 0
		if s != nil {
			n = s.len
		}
		r := make([]any, n)
		for k := range r {
			r[k] = m.native(&Iface{t.elem, m.get(s.o, s.off+k)}, verb)
		}
		if t.elem.kind == KIface {
			for k := range r {
				e, _ := m.get(s.o, s.off+k).r.(*Iface)
				r[k] = m.native(e, verb)
			}
		}
		return r
	case KArray:
		o := v.r.(*Obj)
		r := make([]any, t.n)
		for k := range r {
			r[k] = m.native(&Iface{t.elem, m.get(o, k)}, verb)
		}
		return r
	case KIface:
		e, _ := v.r.(*Iface)
		return m.native(e, verb)
	case KStruct:
		o := v.r.(*Obj)
		var parts []string
		for k, f := range t.fields {
			parts = append(parts, fmt.Sprint(m.native(&Iface{f, m.get(o, k)}, verb)))
		}
		return textV("{" + strings.Join(parts, " ") + "}")
	case KPtr:
		if v.r == nil {
			return textV("<nil>")
		}
		if t.elem.kind == KStruct {
			if o, ok := v.r.(*Obj); ok {
				return textV(fmt.Sprint("&", m.native(&Iface{t.elem, m.get(o, int(v.n))}, 'd')))
			}
		}
		return textV("0xc000010000")
	case KMap:
		mv, _ := v.r.(*MapV)
		if mv == nil {
			return textV("map[]")
		}
		r := map[any]any{}
		for _, e := range mv.ents {
			if !e.dead {
				k := m.native(&Iface{t.key, e.k}, verb)
				switch k.(type) {
				case []any, []byte:
					k = fmt.Sprint(k)
				}
				r[k] = m.native(&Iface{t.elem, e.v}, verb)
			}
		}
		return r
	}
	return textV("<" + t.String() + ">")
}

func (m *Machine) formatAny(i *Iface, verb rune, _ bool) string {
	return fmt.Sprintf("%"+string(verb), m.native(i, verb))
}

func verbs(format string) []rune {
	var res []rune
	rs := []rune(format)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '%' {
			continue
		}
		i++
		for i < len(rs) && strings.ContainsRune("+-# 0123456789.[]*", rs[i]) {
			if rs[i] == '*' {
				res = append(res, 'd')
			}
			i++
		}
		if i < len(rs) && rs[i] != '%' {
			res = append(res, rs[i])
		}
	}
	return res
}

func (m *Machine) sprintf(format string, args []Value) *Str {
	if s := m.symSprintf(format, args); s != nil {
		return s
	}
	vs := verbs(format)
	var nat []any
	for i, a := range args {
		verb := rune('v')
		if i < len(vs) {
			verb = vs[i]
		}
		if verb == 'w' {
			verb = 'v'
		}
		ia, _ := a.r.(*Iface)
		if verb == 'T' {
			if ia == nil {
				nat = append(nat, nil)
			} else {
				nat = append(nat, textV(types.TypeString(ia.t.t, func(p *types.Package) string { return p.Name() })))
			}
			continue
		}
		nat = append(nat, m.native(ia, verb))
	}
	return &Str{s: fmt.Sprintf(strings.ReplaceAll(format, "%w", "%v"), nat...)}
}

func (m *Machine) argList(v Value) ([]Value, bool) {
	s := m.concLen(m.sl(v))
	var args []Value
	sym := false
	for i := 0; s != nil && i < s.len; i++ {
		a := m.get(s.o, s.off+i)
		args = append(args, a)
		if ia, _ := a.r.(*Iface); ia != nil && ia.t != nil && m.hasSym(ia.v, ia.t, 0) {
			sym = true
		}
	}
	return args, sym
}

func (m *Machine) lazyFmt(format string, v Value, f func(m *Machine, args []Value) *Str) Value {
	if m.spec > 0 {
		panic(specAbort{})
	}
	args, sym := m.argList(v)
	if sym {
		return Value{r: &Str{lazy: func(m *Machine) *Str { return f(m, args) }}}
	}
	return strVal(f(m, args))
}

func registerFmt(reg func(string, func(m *Machine, a []Value) Value)) {
	reg("fmt.Sprintf", func(m *Machine, a []Value) Value {
		format := m.concStr(m.str(a[0]))
		return m.lazyFmt(format, a[1], func(m *Machine, args []Value) *Str { return m.sprintf(format, args) })
	})
	sprint := func(ln bool) func(m *Machine, args []Value) *Str {
		return func(m *Machine, args []Value) *Str {
			var nat []any
			for _, x := range args {
				ia, _ := x.r.(*Iface)
				nat = append(nat, m.native(ia, 'v'))
			}
			if ln {
				return &Str{s: fmt.Sprintln(nat...)}
			}
			return &Str{s: fmt.Sprint(nat...)}
		}
	}
	reg("fmt.Sprint", func(m *Machine, a []Value) Value { return m.lazyFmt("", a[0], sprint(false)) })
	reg("fmt.Sprintln", func(m *Machine, a []Value) Value { return m.lazyFmt("", a[0], sprint(true)) })
	write := func(m *Machine, w Value, s *Str) Value {
		f, ok := m.callMethod(w, "Write", Value{r: &SliceV{o: m.strToObj(s), len: len(s.s), cap: len(s.s)}})
		if !ok {
			m.unsupported("Fprintf writer")
		}
		return f
	}
	reg("fmt.Fprintf", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		format := m.concStr(m.str(a[1]))
		args, _ := m.argList(a[2])
		return write(m, a[0], m.sprintf(format, args))
	})
	reg("fmt.Fprint", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		args, _ := m.argList(a[1])
		return write(m, a[0], sprint(false)(m, args))
	})
	reg("fmt.Fprintln", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		args, _ := m.argList(a[1])
		return write(m, a[0], sprint(true)(m, args))
	})
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		reg(n, func(m *Machine, a []Value) Value { return tuple(Value{}, Value{}) })
	}
	reg("fmt.Errorf", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		format := m.concStr(m.str(a[0]))
		args, _ := m.argList(a[1])
		msg := Value{r: &Str{lazy: func(m *Machine) *Str { return m.sprintf(format, args) }}}
		// %w operands
		var wrapped []Value
		for i, v := range verbs(format) {
			if v == 'w' && i < len(args) {
				wrapped = append(wrapped, args[i])
			}
		}
		if len(wrapped) == 0 {
			return m.newError(msg)
		}
		for _, p := range m.prog.AllPackages() {
			if p.Pkg.Path() != "fmt" {
				continue
			}
			t := p.Type("wrapError").Type()
			st := &Obj{serial: m.serial(), v: []Value{msg, wrapped[0]}}
			return Value{r: &Iface{t: tinfo(types.NewPointer(t)), v: Value{r: &Obj{serial: m.serial(), v: []Value{{r: st}}}}}}
		}
		return m.newError(msg)
	})
}

// ------------------------------------------------------------------- binary

func (m *Machine) binSize(t *TInfo) int {
	switch t.kind {
	case KBool:
		return 1
	case KInt, KFloat:
		return int(t.bits / 8)
	case KArray:
		return t.n * m.binSize(t.elem)
	case KStruct:
		n := 0
		for _, f := range t.fields {
			n += m.binSize(f)
		}
		return n
	}
	m.unsupported("encoding/binary of " + t.String())
	return 0
}

func (m *Machine) binPut(out *[]Value, v Value, t *TInfo, big bool) {
	switch t.kind {
	case KBool:
		*out = append(*out, m.wrap(m.tc.Ite(m.boolTerm(v), m.tc.Const(1, 8), m.tc.Const(0, 8)), byteInfo))
	case KInt, KFloat:
		if t.kind == KFloat {
			if t.bits == 32 {
				v = m.callExt("math.Float32bits", v)
			} else {
				v = m.callExt("math.Float64bits", v)
			}
		}
		n := int(t.bits / 8)
		for k := 0; k < n; k++ {
			sh := uint(8 * k)
			if big {
				sh = uint(8 * (n - 1 - k))
			}
			if x, ok := v.r.(*Term); ok {
				*out = append(*out, m.wrap(m.tc.Extract(x, uint8(sh), 8), byteInfo))
			} else {
				*out = append(*out, Value{n: v.n >> sh & 0xff})
			}
		}
	case KArray:
		o := v.r.(*Obj)
		for i := 0; i < t.n; i++ {
			m.binPut(out, m.get(o, i), t.elem, big)
		}
	case KStruct:
		o := v.r.(*Obj)
		for i, f := range t.fields {
			m.binPut(out, m.get(o, i), f, big)
		}
	default:
		m.unsupported("encoding/binary of " + t.String())
	}
}

func (m *Machine) callExt(name string, args ...Value) Value {
	v, _ := externals[name](m, nil, args)
	return v
}

func (m *Machine) binGet(get func() Value, t *TInfo, big bool) Value {
	switch t.kind {
	case KBool:
		b := get()
		if b.r == nil {
			return mkBool(b.n != 0)
		}
		return m.wrapBool(m.tc.BNot(m.tc.Eq(b.r.(*Term), m.tc.Const(0, 8))))
	case KInt, KFloat:
		n := int(t.bits / 8)
		var acc *Term
		for k := 0; k < n; k++ {
			b := m.term(get(), byteInfo)
			if acc == nil {
				acc = b
			} else if big {
				acc = m.tc.Concat(acc, b)
			} else {
				acc = m.tc.Concat(b, acc)
			}
		}
		if t.kind == KFloat {
			v := m.wrap(acc, tinfo(u64t))
			if t.bits == 32 {
				return m.callExt("math.Float32frombits", v)
			}
			return v
		}
		return m.wrap(acc, t)
	case KArray:
		o := m.newArr(t.elem, t.n)
		for i := 0; i < t.n; i++ {
			m.rawSet(o, i, m.binGet(get, t.elem, big))
		}
		return Value{r: o}
	case KStruct:
		o := &Obj{serial: m.serial(), v: make([]Value, len(t.fields))}
		for i, f := range t.fields {
			v := m.binGet(get, f, big)
			if st, ok := t.under.(*types.Struct); ok && st.Field(i).Name() == "_" {
				v = m.zero(f)
			}
			o.v[i] = v
		}
		return Value{r: o}
	}
	m.unsupported("encoding/binary of " + t.String())
	return Value{}
}

func registerBinary(reg func(string, func(m *Machine, a []Value) Value)) {
	isBig := func(v Value) bool {
		i := v.r.(*Iface)
		return strings.Contains(i.t.String(), "bigEndian")
	}
	reg("encoding/binary.Size", func(m *Machine, a []Value) Value {
		i, _ := a[0].r.(*Iface)
		t := i.t
		if t.kind == KPtr {
			t = t.elem
		}
		if t.kind == KSlice {
			s := m.concLen(m.sl(i.v))
			if s == nil {
				return Value{}
			}
			return mkInt(s.len * m.binSize(t.elem))
		}
		return mkInt(m.binSize(t))
	})
	reg("encoding/binary.Write", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		big := isBig(a[1])
		i := a[2].r.(*Iface)
		t, v := i.t, i.v
		var out []Value
		switch t.kind {
		case KPtr:
			if v.r == nil {
				m.nilDeref()
			}
			m.binPut(&out, m.load(v, t.elem), t.elem, big)
		case KSlice:
			s := m.concLen(m.sl(v))
			for k := 0; s != nil && k < s.len; k++ {
				m.binPut(&out, m.get(s.o, s.off+k), t.elem, big)
			}
		default:
			m.binPut(&out, v, t, big)
		}
		o := m.newArr(byteInfo, len(out))
		for k, b := range out {
			m.rawSet(o, k, b)
		}
		r, ok := m.callMethod(a[0], "Write", Value{r: &SliceV{o: o, len: len(out), cap: len(out)}})
		if !ok {
			m.unsupported("binary.Write writer")
		}
		return r.r.([]Value)[1]
	})
	reg("encoding/binary.Read", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		big := isBig(a[1])
		i := a[2].r.(*Iface)
		t, v := i.t, i.v
		n := 0
		var sl *SliceV
		switch t.kind {
		case KPtr:
			n = m.binSize(t.elem)
		case KSlice:
			sl = m.concLen(m.sl(v))
			if sl != nil {
				n = sl.len * m.binSize(t.elem)
			}
		default:
			m.unsupported("binary.Read into " + t.String())
		}
		o := m.newArr(byteInfo, n)
		m.alloc(int64(n))
		rf := m.callFn(m.lookupFunc("io", "ReadFull"), []Value{a[0], {r: &SliceV{o: o, len: n, cap: n}}}, nil).r.([]Value)
		if rf[1].r != nil {
			return rf[1]
		}
		pos := 0
		get := func() Value { pos++; return m.get(o, pos-1) }
		if sl != nil {
			for k := 0; k < sl.len; k++ {
				m.store(Value{n: uint64(sl.off + k), r: sl.o}, m.binGet(get, t.elem, big), t.elem)
			}
		} else {
			m.store(v, m.binGet(get, t.elem, big), t.elem)
		}
		return Value{}
	})
}

// ------------------------------------------------------------------- regexp

func registerRegexp(reg func(string, func(m *Machine, a []Value) Value)) {
	type rx struct{ re *regexp.Regexp }
	reg("regexp.MustCompile", func(m *Machine, a []Value) Value {
		s := m.concStr(m.str(a[0]))
		o := &Obj{serial: 0, v: []Value{{r: &NativeV{rx{regexp.MustCompile(s)}}}}}
		return Value{r: o}
	})
	get := func(v Value) *regexp.Regexp { return v.r.(*Obj).v[0].r.(*NativeV).x.(rx).re }
	strs := func(m *Machine, ss []string) Value {
		if ss == nil {
			return Value{}
		}
		o := &Obj{serial: m.serial()}
		for _, s := range ss {
			o.v = append(o.v, mkStr(s))
		}
		return Value{r: &SliceV{o: o, len: len(ss), cap: len(ss)}}
	}
	reg("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, a []Value) Value {
		return strs(m, get(a[0]).FindStringSubmatch(m.concStr(m.str(a[1]))))
	})
	reg("(*regexp.Regexp).MatchString", func(m *Machine, a []Value) Value {
		return mkBool(get(a[0]).MatchString(m.concStr(m.str(a[1]))))
	})
	reg("(*regexp.Regexp).ReplaceAllString", func(m *Machine, a []Value) Value {
		s, repl := m.str(a[1]), m.concStr(m.str(a[2]))
		if s.t != nil && repl == "" {
			if m.spec > 0 {
				panic(specAbort{})
			}
			if v, ok := m.deleteClass(get(a[0]), s); ok {
				return v
			}
		}
		return mkStr(get(a[0]).ReplaceAllString(m.concStr(s), repl))
	})
	reg("(*regexp.Regexp).FindString", func(m *Machine, a []Value) Value {
		return mkStr(get(a[0]).FindString(m.concStr(m.str(a[1]))))
	})
}

// --------------------------------------------------------------------- vsym

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func (m *Machine) newInput(w uint8, def uint64, name string) *Term {
	if m.spec > 0 {
		panic(specAbort{})
	}
	i := len(m.tc.vars)
	cv := def
	if i < len(m.item.model) {
		cv = m.item.model[i]
	}
	t := m.tc.NewVar(w, cv)
	m.draws = append(m.draws, draw{kind: 'v', t: t, name: name})
	return t
}

func registerVsym(reg func(string, func(m *Machine, a []Value) Value)) {
	v := func(name string, f func(m *Machine, a []Value) Value) { reg(vsymPath+"."+name, f) }
	for n, w := range map[string]uint8{"Byte": 8, "Uint16": 16, "Int16": 16, "Uint32": 32, "Int32": 32, "Uint64": 64, "Int64": 64} {
		v(n, func(m *Machine, a []Value) Value { return Value{r: m.newInput(w, 0, "")} })
		v(n+"D", func(m *Machine, a []Value) Value { return Value{r: m.newInput(w, a[0].n, "")} })
	}
	v("Bool", func(m *Machine, a []Value) Value { return Value{r: m.newInput(0, 0, "")} })
	v("Int", func(m *Machine, a []Value) Value {
		lo, hi := a[0].n, a[1].n
		if int64(lo) > int64(hi) {
			panic(&pathAbort{abAssume, ""})
		}
		if lo == hi {
			m.draws = append(m.draws, draw{kind: 'c', v: lo})
			return Value{n: lo}
		}
		t := m.newInput(64, lo, "")
		c := m.tc.BAnd(m.tc.BNot(m.tc.Slt(t, m.tc.Const(lo, 64))), m.tc.BNot(m.tc.Slt(m.tc.Const(hi, 64), t)))
		m.assumeT(c)
		return Value{r: t}
	})
	v("Bytes", func(m *Machine, a []Value) Value {
		n := int(m.concVal(a[0]))
		o := m.newArr(byteInfo, n)
		for i := 0; i < n; i++ {
			m.rawSet(o, i, Value{r: m.newInput(8, 0, "")})
		}
		return Value{r: &SliceV{o: o, len: n, cap: n}}
	})
	v("Choose", func(m *Machine, a []Value) Value {
		k := m.choose(int(m.concVal(a[0])))
		m.draws = append(m.draws, draw{kind: 'c', v: uint64(k)})
		return mkInt(k)
	})
	v("Assume", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		m.assumeT(m.boolTerm(a[0]))
		return Value{}
	})
	v("Assert", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		t := m.tc.norm(m.boolTerm(a[0]))
		if t.isConst() && t.k != 0 {
			m.trivial++
			return Value{}
		}
		m.assertT(t, "assert", shadowMsg(m, a[1]))
		return Value{}
	})
	v("AssertEqual", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		m.assertEqual(a[0], a[1], shadowMsg(m, a[2]))
		return Value{}
	})
	v("Fail", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		m.violation("assert", shadowMsg(m, a[0]), nil)
		return Value{}
	})
	v("Reach", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		m.reaches[m.str(a[0]).s] = true
		return Value{}
	})
	v("Observe", func(m *Machine, a []Value) Value {
		x := a[0].n
		if t, ok := a[0].r.(*Term); ok {
			x = t.cv
		}
		m.obs = append(m.obs, x)
		return Value{}
	})
	v("ObserveBytes", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		s := m.str(m.bytesToStr(m.sl(a[0])))
		m.obs = append(m.obs, hashBytes([]byte(shadowStr(s))))
		return Value{}
	})
	v("ObserveStr", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		m.obs = append(m.obs, hashBytes([]byte(shadowStr(m.str(a[0])))))
		return Value{}
	})
	boolOp := func(f func(a, b *Term) *Term) {}
	_ = boolOp
	v("And", func(m *Machine, a []Value) Value {
		res := m.tc.t
		if s := m.sl(a[0]); s != nil {
			for i := range s.len {
				res = m.tc.BAnd(res, m.boolTerm(m.get(s.o, s.off+i)))
			}
		}
		return m.wrapBool(res)
	})
	v("Or", func(m *Machine, a []Value) Value {
		res := m.tc.f
		if s := m.sl(a[0]); s != nil {
			for i := range s.len {
				res = m.tc.BOr(res, m.boolTerm(m.get(s.o, s.off+i)))
			}
		}
		return m.wrapBool(res)
	})
	v("Implies", func(m *Machine, a []Value) Value {
		return m.wrapBool(m.tc.BOr(m.tc.BNot(m.boolTerm(a[0])), m.boolTerm(a[1])))
	})
	v("IteInt", func(m *Machine, a []Value) Value {
		c := m.tc.norm(m.boolTerm(a[0]))
		if c.isConst() {
			if c.k != 0 {
				return a[1]
			}
			return a[2]
		}
		return m.iteValue(c, a[1], a[2], intInfo)
	})
	v("EqBytes", func(m *Machine, a []Value) Value { return m.callExt("bytes.Equal", a...) })
	v("ErrorText", func(m *Machine, a []Value) Value {
		// the text is only computed for the representative input of the path
		if m.spec > 0 {
			panic(specAbort{})
		}
		m.loose++
		r, ok := m.callMethod(a[0], "Error")
		if !ok {
			m.unsupported("ErrorText")
		}
		s := m.str(r)
		m.loose--
		return mkStr(s.s)
	})
	v("IsConcrete", func(m *Machine, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		s := m.concLen(m.sl(a[0]))
		for i := 0; s != nil && i < s.len; i++ {
			if t, ok := m.get(s.o, s.off+i).r.(*Term); ok && !m.tc.norm(t).isConst() {
				return mkBool(false)
			}
		}
		return mkBool(true)
	})
	v("Symbolic", func(m *Machine, a []Value) Value { return mkBool(true) })
	v("Thorough", func(m *Machine, a []Value) Value { return mkBool(m.ex.thorough) })
	v("Concrete", func(m *Machine, a []Value) Value { return mkInt(int(int64(m.concVal(a[0])))) })
	v("ConcreteBytes", func(m *Machine, a []Value) Value {
		s := m.concLen(m.sl(a[0]))
		if s == nil {
			return Value{}
		}
		o := m.newArr(byteInfo, s.len)
		for i := 0; i < s.len; i++ {
			o.b[i] = byte(m.concVal(m.get(s.o, s.off+i)))
		}
		return Value{r: &SliceV{o: o, len: s.len, cap: s.len}}
	})
	v("Freeze", func(m *Machine, a []Value) Value {
		m.curSerial++
		m.freeze = m.curSerial
		m.freezeMsg = m.concStr(m.str(a[0]))
		return Value{}
	})
	v("Thaw", func(m *Machine, a []Value) Value { m.freeze = 0; return Value{} })
	v("AllocLimit", func(m *Machine, a []Value) Value {
		m.allocMax = int64(m.concVal(a[0]))
		m.allocd = 0
		return Value{}
	})
	v("AllocCheck", func(m *Machine, a []Value) Value { m.allocMax = 0; return Value{} })
	v("StepLimit", func(m *Machine, a []Value) Value {
		m.hangLimit = m.steps + int64(m.concVal(a[0]))
		m.stepCheck = m.steps
		return Value{}
	})
	v("StepCheck", func(m *Machine, a []Value) Value { m.hangLimit = 0; return Value{} })
	v("MapOrder", func(m *Machine, a []Value) Value { m.mapOrder = int(m.concVal(a[0])); return Value{} })
	v("Quiesce", func(m *Machine, a []Value) Value { return mkInt(m.quiesce()) })
	v("NoMerge", func(m *Machine, a []Value) Value {
		if a[0].n != 0 {
			m.noMerge++
		} else {
			m.noMerge--
		}
		return Value{}
	})
	v("Repeat", func(m *Machine, a []Value) Value { return mkInt(1) })
	v("Parallel", func(m *Machine, a []Value) Value {
		// natively: run both functions concurrently; here: one after the other
		m.callValue(a[0], nil)
		m.callValue(a[1], nil)
		return Value{}
	})
	v("Log", func(m *Machine, a []Value) Value {
		if m.ex.verbose {
			debugf("LOG %s\n", shadowMsg(m, a[0]))
		}
		return Value{}
	})
}

// shadowMsg renders a message under the current model without forking.
func shadowMsg(m *Machine, v Value) string {
	s, _ := v.r.(*Str)
	if s == nil {
		return ""
	}
	if s.lazy != nil {
		return "(message with symbolic operands)"
	}
	return shadowStr(s)
}
