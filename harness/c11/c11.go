// Package c11 checks the glyf and loca tables.
package c11

import (
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
)

type pt struct {
	x, y int
	on   bool
}

// specDecode decodes the body of a simple glyph (everything after the
// bounding box) following the TrueType specification. n is the number of
// bytes used; ok is false if the data is malformed.
func specDecode(numCont int, b []byte) (contours [][]pt, instr []byte, n int, ok bool) {
	ends := make([]int, numCont)
	if len(b) < 2*numCont+2 {
		return nil, nil, 0, false
	}
	numPts := 0
	for i := range ends {
		ends[i] = hx.U16(b, 2*i)
		if i > 0 && ends[i] < ends[i-1] {
			return nil, nil, 0, false
		}
		numPts = ends[i] + 1
	}
	p := 2 * numCont
	il := hx.U16(b, p)
	p += 2
	if il > len(b)-p {
		return nil, nil, 0, false
	}
	il = vsym.Concrete(il)
	instr = b[p : p+il]
	p += il
	// every point needs at least 1/256 flag byte
	if numPts > 256*len(b) {
		return nil, nil, 0, false
	}
	numPts = vsym.Concrete(numPts)
	var flags []byte
	for len(flags) < numPts {
		if p >= len(b) {
			return nil, nil, 0, false
		}
		f := b[p]
		p++
		flags = append(flags, f)
		if f&8 != 0 {
			if p >= len(b) {
				return nil, nil, 0, false
			}
			r := int(b[p])
			p++
			if r > numPts-len(flags) {
				return nil, nil, 0, false // repeat count runs over the end
			}
			r = vsym.Concrete(r)
			for range r {
				flags = append(flags, f)
			}
		}
	}
	coord := func(short, same byte) ([]int, bool) {
		res := make([]int, numPts)
		v := 0
		for i, f := range flags {
			switch {
			case f&short != 0:
				if p >= len(b) {
					return nil, false
				}
				d := int(b[p])
				p++
				if f&same == 0 {
					d = -d
				}
				v += d
			case f&same == 0:
				if p+1 >= len(b) {
					return nil, false
				}
				v += int(int16(uint16(b[p])<<8 | uint16(b[p+1])))
				p += 2
			}
			res[i] = v
		}
		return res, true
	}
	xx, ok := coord(2, 16)
	if !ok {
		return nil, nil, 0, false
	}
	yy, ok := coord(4, 32)
	if !ok {
		return nil, nil, 0, false
	}
	k := 0
	for _, e := range ends {
		var c []pt
		e = vsym.Concrete(e)
		for ; k <= e; k++ {
			c = append(c, pt{xx[k], yy[k], flags[k]&1 != 0})
		}
		contours = append(contours, c)
	}
	return contours, instr, p, true
}

func checkContours(info *glyf.GlyphInfo, cc [][]pt, instr []byte) {
	vsym.Assert(len(info.Contours) == len(cc), "Decode: wrong number of contours")
	vsym.Assert(vsym.EqBytes(info.Instructions, instr), "Decode: wrong instructions")
	good := true
	for i, c := range cc {
		vsym.Assert(len(info.Contours[i]) == len(c), "Decode: wrong number of points")
		for j, p := range c {
			q := info.Contours[i][j]
			good = vsym.And(good, vsym.And(q.OnCurve == p.on, vsym.And(q.X == funit.Int16(p.x), q.Y == funit.Int16(p.y))))
		}
	}
	vsym.Assert(good, "Decode: wrong point")
}

// H_Decode: a simple glyph with 0..2 contours and up to 14 arbitrary bytes of
// data (thorough: 0..3 contours, up to 20 bytes); stored alone in a glyf
// table.
//
//gosym: quick=14 thorough=400
func H_Decode() {
	nc := vsym.Choose(3)
	l := 2 + vsym.Choose(13)
	if vsym.Thorough() {
		nc = vsym.Choose(4)
		l = 2 + vsym.Choose(19)
	}
	body := vsym.Bytes(l)
	decodeOne(nc, body)
}

func decodeOne(nc int, body []byte) {
	l := len(body)
	data := append([]byte{0, byte(nc), 1, 2, 3, 4, 5, 6, 7, 8}, body...)
	if l%2 == 1 {
		data = append(data, 0)
	}
	half := len(data) / 2
	enc := &glyf.Encoded{GlyfData: data, LocaData: []byte{0, 0, byte(half >> 8), byte(half)}}
	cc, instr, used, ok := specDecode(nc, body)
	if !ok && l%2 == 1 {
		cc, instr, used, ok = specDecode(nc, data[10:])
	}
	gg, err := glyf.Decode(enc)
	if err != nil {
		vsym.Assert(!ok, "a well-formed glyph is rejected")
		return
	}
	vsym.Assert(len(gg) == 1 && gg[0] != nil, "glyph lost")
	g, isSimple := gg[0].Data.(glyf.SimpleGlyph)
	vsym.Assert(isSimple && int(g.NumContours) == nc, "wrong glyph type or number of contours")
	info, err := g.Decode()
	if !ok {
		vsym.Assert(err != nil, "a malformed glyph is decoded")
		return
	}
	vsym.Reach("valid")
	vsym.Assert(err == nil, "contours of a well-formed glyph cannot be decoded")
	vsym.Assert(len(g.Encoded) == used, "wrong amount of padding removed")
	vsym.Assert(gg[0].Rect16 == funit.Rect16{LLx: 0x102, LLy: 0x304, URx: 0x506, URy: 0x708}, "wrong bounding box")
	checkContours(info, cc, instr)
	e2 := gg.Encode()
	vsym.Assert(vsym.EqBytes(e2.GlyfData[:10+used], data[:10+used]), "glyph changed by re-encoding")
	vsym.Observe(uint64(used))
}

// H_Points: 1..2 contours with up to 4 points, all flag bytes arbitrary but
// without repeats, as much coordinate data as needed.
//
//gosym: quick=10 thorough=300
func H_Points() {
	n1 := 1 + vsym.Choose(3)
	n2 := vsym.Choose(3)
	if n1+n2 > 3 && !vsym.Thorough() {
		n2 = 0
	}
	var b []byte
	nc := 1
	b = append(b, 0, byte(n1-1))
	if n2 > 0 {
		nc = 2
		b = append(b, 0, byte(n1+n2-1))
	}
	il := vsym.Choose(3)
	b = append(b, 0, byte(il))
	b = append(b, vsym.Bytes(il)...)
	n := 0
	kinds := []byte{0x02, 0x12, 0x00, 0x10}
	for range n1 + n2 {
		x, y := kinds[vsym.Choose(4)], kinds[vsym.Choose(4)]
		f := x | y<<1
		if vsym.Bool() {
			f |= 1
		}
		if vsym.Bool() {
			f |= 0x40
		}
		b = append(b, f)
		for _, k := range []byte{x, y} {
			switch k {
			case 0x02, 0x12:
				n++
			case 0:
				n += 2
			}
		}
	}
	b = append(b, vsym.Bytes(n)...)
	decodeOne(nc, b)
}

// H_Repeat: flag repeats with an arbitrary count; enough data.
//
//gosym: quick=6 thorough=100
func H_Repeat() {
	np := 1 + vsym.Choose(9)
	b := []byte{0, byte(np - 1), 0, 0}
	f := vsym.Byte()
	b = append(b, f, vsym.Byte(), vsym.Byte(), vsym.Byte(), vsym.Byte())
	for range 3 * np {
		b = append(b, 1, 0)
	}
	decodeOne(1, b)
}

// H_Runs: long glyphs. Up to three runs of equal flags ending at points around
// the limits of 8-bit counters, with up to two contours; the last coordinates
// of every run are arbitrary.
//
//gosym: quick=12 thorough=200
func H_Runs() {
	ends := []int{1, 2, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513}
	var b, xs, ys []byte
	n := 0
	last := -1
	for k := 0; k < 3; k++ {
		i := last + 1 + vsym.Choose(len(ends)-last-1)
		last = i
		f := []byte{0x33, 0x30, 0x07, 0x21, 0x10}[vsym.Choose(5)]
		add := func(old []byte, short, same byte, l int) []byte {
			switch {
			case f&short != 0:
				for range l - 1 {
					old = append(old, 1)
				}
				return append(old, vsym.Bytes(1)...)
			case f&same == 0:
				for range l - 1 {
					old = append(old, 0xFF, 0xFE)
				}
				return append(old, vsym.Bytes(2)...)
			}
			return old
		}
		todo := ends[i] - n
		xs = add(xs, 2, 16, todo)
		ys = add(ys, 4, 32, todo)
		n = ends[i]
		for todo > 0 {
			r := min(todo, 256)
			if r > 1 {
				b = append(b, f|8, byte(r-1))
			} else {
				b = append(b, f)
			}
			todo -= r
		}
		if last == len(ends)-1 || vsym.Bool() {
			break
		}
	}
	e := n - 1
	h := []byte{byte(e >> 8), byte(e)}
	nc := 1
	if n > 1 && vsym.Bool() {
		e0 := min(ends[vsym.Choose(len(ends))], n) - 1
		h = append([]byte{byte(e0 >> 8), byte(e0)}, h...)
		nc = 2
	}
	h = append(h, 0, 1, 0x77)
	b = append(h, b...)
	b = append(b, xs...)
	b = append(b, ys...)
	decodeOne(nc, b)
}

// simple makes a well-formed simple glyph together with its contours.
func simple(k int) *glyf.Glyph {
	g := &glyf.Glyph{Rect16: funit.Rect16{LLx: funit.Int16(vsym.Int16()), LLy: funit.Int16(vsym.Int16()), URx: funit.Int16(vsym.Int16()), URy: funit.Int16(vsym.Int16())}}
	v := vsym.Byte
	switch k {
	case 0: // no contours, instructions
		g.Data = glyf.SimpleGlyph{NumContours: 0, Encoded: []byte{0, 1, v()}}
	case 1: // no contours
		g.Data = glyf.SimpleGlyph{NumContours: 0, Encoded: []byte{0, 0}}
	case 2: // one contour, two points, one long vector
		g.Data = glyf.SimpleGlyph{NumContours: 1, Encoded: []byte{0, 1, 0, 2, v(), v(), 0x02, 0x31, v(), v(), v()}}
	case 3: // repeated flag, one coordinate byte each
		g.Data = glyf.SimpleGlyph{NumContours: 2, Encoded: []byte{0, 1, 0, 2, 0, 0, 0x1B | v()&0x60, 2, v(), v(), v(), v(), v(), v(), v(), v(), v()}}
		d := g.Data.(glyf.SimpleGlyph)
		_, _, n, ok := specDecode(2, d.Encoded)
		vsym.Assume(ok)
		d.Encoded = d.Encoded[:n]
		g.Data = d
	}
	return g
}

func composite() *glyf.Glyph {
	g := &glyf.Glyph{Rect16: funit.Rect16{LLx: funit.Int16(vsym.Int16()), LLy: funit.Int16(vsym.Int16()), URx: funit.Int16(vsym.Int16()), URy: funit.Int16(vsym.Int16())}}
	n := 1 + vsym.Choose(2)
	c := glyf.CompositeGlyph{}
	instr := vsym.Choose(4)
	for i := range n {
		f := glyf.ComponentFlag(vsym.Uint16()) &^ (glyf.FlagWeHaveAScale | glyf.FlagWeHaveAnXAndYScale | glyf.FlagWeHaveATwoByTwo | glyf.FlagArg1And2AreWords | glyf.FlagMoreComponents | glyf.FlagWeHaveInstructions)
		l := 2
		if vsym.Choose(2) == 1 {
			f |= glyf.FlagArg1And2AreWords
			l += 2
		}
		switch vsym.Choose(4) {
		case 1:
			f |= glyf.FlagWeHaveAScale
			l += 2
		case 2:
			f |= glyf.FlagWeHaveAnXAndYScale
			l += 4
		case 3:
			f |= glyf.FlagWeHaveATwoByTwo
			l += 8
		}
		if i+1 < n {
			f |= glyf.FlagMoreComponents
		}
		// any one of the components may announce the instructions
		if instr > 0 && (i+1 == n || vsym.Choose(2) == 1) {
			f |= glyf.FlagWeHaveInstructions
		}
		c.Components = append(c.Components, glyf.GlyphComponent{Flags: f, GlyphIndex: glyph.ID(vsym.Uint16()), Data: vsym.Bytes(l)})
	}
	if instr > 0 {
		c.Instructions = vsym.Bytes(instr - 1)
	}
	g.Data = c
	return g
}

func eqGlyph(a, b *glyf.Glyph) {
	vsym.Assert((a == nil) == (b == nil), "empty glyph appears or disappears")
	if a == nil {
		return
	}
	vsym.Assert(a.Rect16 == b.Rect16, "bounding box changed")
	switch x := a.Data.(type) {
	case glyf.SimpleGlyph:
		y, ok := b.Data.(glyf.SimpleGlyph)
		vsym.Assert(ok, "glyph type changed")
		vsym.Assert(x.NumContours == y.NumContours, "number of contours changed")
		vsym.Assert(vsym.EqBytes(x.Encoded, y.Encoded), "contour data changed")
	case glyf.CompositeGlyph:
		y, ok := b.Data.(glyf.CompositeGlyph)
		vsym.Assert(ok, "glyph type changed")
		vsym.Assert(len(x.Components) == len(y.Components), "number of components changed")
		for i, c := range x.Components {
			d := y.Components[i]
			vsym.Assert(c.Flags == d.Flags && c.GlyphIndex == d.GlyphIndex, "component changed")
			vsym.Assert(vsym.EqBytes(c.Data, d.Data), "component arguments changed")
		}
		vsym.Assert(vsym.EqBytes(x.Instructions, y.Instructions) && (x.Instructions == nil) == (y.Instructions == nil), "composite instructions changed")
	default:
		vsym.Fail("unexpected glyph data")
	}
}

// roundTrip encodes a glyph list and checks the tables and the decoded list.
func roundTrip(gg glyf.Glyphs) *glyf.Encoded {
	enc := gg.Encode()
	var offs []int
	switch enc.LocaFormat {
	case 0:
		vsym.Assert(len(enc.LocaData) == 2*(len(gg)+1), "wrong length of the short loca table")
		for i := range len(gg) + 1 {
			offs = append(offs, 2*vsym.Concrete(hx.U16(enc.LocaData, 2*i)))
		}
		vsym.Reach("short")
	case 1:
		vsym.Assert(len(enc.LocaData) == 4*(len(gg)+1), "wrong length of the long loca table")
		for i := range len(gg) + 1 {
			offs = append(offs, vsym.Concrete(int(hx.U32(enc.LocaData, 4*i))))
		}
		vsym.Reach("long")
	default:
		vsym.Fail("invalid loca format")
	}
	vsym.Assert(offs[0] == 0 && offs[len(gg)] == len(enc.GlyfData), "loca does not cover the glyf table")
	for i, g := range gg {
		vsym.Assert(offs[i] <= offs[i+1] && offs[i+1]%2 == 0, "loca offsets not even and non-decreasing")
		vsym.Assert((g == nil) == (offs[i] == offs[i+1]), "wrong length of an empty glyph")
		if g == nil {
			continue
		}
		b := enc.GlyfData[offs[i]:offs[i+1]]
		vsym.Assert(len(b) >= 10, "glyph without header")
		for j, x := range []funit.Int16{g.LLx, g.LLy, g.URx, g.URy} {
			vsym.Assert(funit.Int16(hx.U16(b, 2+2*j)) == x, "wrong bounding box in the glyph header")
		}
	}
	back, err := glyf.Decode(enc)
	vsym.Assert(err == nil, "Decode rejects the encoded glyphs")
	vsym.Assert(len(back) == len(gg), "number of glyphs changed")
	for i := range gg {
		eqGlyph(gg[i], back[i])
	}
	return enc
}

// H_Glyphs: 1..3 glyphs (empty, simple, composite).
//
//gosym: quick=8 thorough=200
func H_Glyphs() {
	n := 1 + vsym.Choose(3)
	var gg glyf.Glyphs
	for range n {
		k := vsym.Choose(6)
		switch {
		case k == 5:
			gg = append(gg, nil)
		case k == 4 && len(gg) < 2:
			gg = append(gg, composite())
		default:
			gg = append(gg, simple(k%4))
		}
	}
	enc := roundTrip(gg)
	vsym.ObserveBytes(enc.GlyfData)
	vsym.ObserveBytes(enc.LocaData)
}

// H_Format: the total size of the glyph data passes the limits of the short
// loca format.
//
//gosym: quick=8 thorough=60 conc=8
func H_Format() {
	base := []int{65520, 65530, 131050, 131064}[vsym.Choose(4)]
	n := base + vsym.Choose(10)
	first := n
	var gg glyf.Glyphs
	if n > 65000 {
		// two glyphs share the bytes
		first = n / 2
	}
	mk := func(total int) *glyf.Glyph {
		il := total - 12
		b := make([]byte, 2+il)
		b[0], b[1] = byte(il>>8), byte(il)
		b[1+il] = vsym.Byte()
		return &glyf.Glyph{Data: glyf.SimpleGlyph{Encoded: b}}
	}
	gg = append(gg, mk(first), mk(n-first))
	if vsym.Choose(2) == 1 {
		gg = append(gg, nil)
	}
	enc := roundTrip(gg)
	_ = enc
}

// H_Composite: arbitrary bytes of a composite glyph.
//
//gosym: quick=8 thorough=200
func H_Composite() {
	l := vsym.Choose(17)
	if vsym.Thorough() {
		l = vsym.Choose(29)
	}
	body := vsym.Bytes(l)
	data := append([]byte{0xFF, 0xFF, 1, 2, 3, 4, 5, 6, 7, 8}, body...)
	enc := &glyf.Encoded{GlyfData: data, LocaData: []byte{0, 0, 0, 0, 0, 0, 0, byte(len(data))}, LocaFormat: 1}

	// what the specification says
	type comp struct{ flags, gid, pos, n int }
	var cc []comp
	p := 0
	more, ok, haveInstr := true, true, false
	for more {
		if p+4 > l {
			ok = false
			break
		}
		f := hx.U16(body, p)
		n := 2
		if f&1 != 0 {
			n += 2
		}
		switch {
		case f&0x08 != 0:
			n += 2
		case f&0x40 != 0:
			n += 4
		case f&0x80 != 0:
			n += 8
		}
		if p+4+n > l {
			ok = false
			break
		}
		if f&0x100 != 0 {
			haveInstr = true
		}
		cc = append(cc, comp{f, hx.U16(body, p+2), p + 4, n})
		p += 4 + n
		more = f&0x20 != 0
	}
	gg, err := glyf.Decode(enc)
	if !ok {
		vsym.Assert(err != nil, "a truncated composite glyph is accepted")
		return
	}
	if err != nil {
		// only truncated instructions may be refused
		vsym.Assert(haveInstr && (p+2 > l || p+2+hx.U16(body, p) > l), "a well-formed composite glyph is rejected")
		return
	}
	vsym.Reach("composite")
	d, isComp := gg[0].Data.(glyf.CompositeGlyph)
	vsym.Assert(isComp, "composite glyph decoded as a simple glyph")
	vsym.Assert(len(d.Components) == len(cc), "wrong number of components")
	ids := gg[0].Components()
	vsym.Assert(len(ids) == len(cc), "Components: wrong number")
	newGid := map[glyph.ID]glyph.ID{}
	for i, c := range cc {
		x := d.Components[i]
		vsym.Assert(int(x.Flags) == c.flags && int(x.GlyphIndex) == c.gid, "wrong component")
		vsym.Assert(vsym.EqBytes(x.Data, body[c.pos:c.pos+c.n]), "wrong component arguments")
		vsym.Assert(int(ids[i]) == c.gid, "Components: wrong glyph")
		newGid[glyph.ID(c.gid)] = glyph.ID(3*c.gid + 1)
	}
	if haveInstr && p+2 <= l {
		il := hx.U16(body, p)
		if il <= l-p-2 {
			il = vsym.Concrete(il)
			vsym.Assert(vsym.EqBytes(d.Instructions, body[p+2:p+2+il]), "wrong composite instructions")
			vsym.Reach("instructions")
		}
	} else if !haveInstr {
		vsym.Assert(len(d.Instructions) == 0, "instructions invented")
	}
	fixed := gg[0].FixComponents(newGid)
	fd, isComp := fixed.Data.(glyf.CompositeGlyph)
	vsym.Assert(isComp && fixed.Rect16 == gg[0].Rect16 && len(fd.Components) == len(cc), "FixComponents changes the glyph")
	for i, c := range cc {
		x := fd.Components[i]
		vsym.Assert(int(x.GlyphIndex) == (3*c.gid+1)&0xFFFF, "FixComponents: wrong glyph")
		vsym.Assert(int(x.Flags) == c.flags && vsym.EqBytes(x.Data, d.Components[i].Data), "FixComponents changes a component")
		vsym.Assert(int(d.Components[i].GlyphIndex) == c.gid, "FixComponents modifies the original glyph")
	}
	vsym.Assert(vsym.EqBytes(fd.Instructions, d.Instructions), "FixComponents changes the instructions")
	roundTrip(gg)
}

// H_Loca: arbitrary loca tables of both formats over a glyf table of zero
// bytes: accepted exactly if the offsets are non-decreasing and inside the
// glyf table (and every glyph is empty or big enough).
//
//gosym: quick=6 thorough=100
func H_Loca() {
	size := []int{0, 24, 36, 37}[vsym.Choose(4)]
	format := vsym.Choose(3)
	loca := vsym.Bytes(vsym.Choose(13))
	gg, err := glyf.Decode(&glyf.Encoded{GlyfData: make([]byte, size), LocaData: loca, LocaFormat: int16(format)})
	ok := true
	var offs []int
	switch {
	case format == 0 && len(loca)%2 == 0 && len(loca) >= 4:
		for i := 0; i < len(loca); i += 2 {
			offs = append(offs, 2*hx.U16(loca, i))
		}
	case format == 1 && len(loca)%4 == 0 && len(loca) >= 8:
		for i := 0; i < len(loca); i += 4 {
			offs = append(offs, int(hx.U32(loca, i)))
		}
	default:
		vsym.Assert(err != nil, "a loca table of impossible length or format is accepted")
		return
	}
	for i, o := range offs {
		if o > size || i > 0 && o < offs[i-1] {
			ok = false
		}
	}
	if !ok {
		vsym.Assert(err != nil, "invalid offsets accepted")
		return
	}
	for i := 1; i < len(offs); i++ {
		d := offs[i] - offs[i-1]
		if d > 0 && d < 12 {
			vsym.Assert(err != nil, "a truncated glyph is accepted")
			return
		}
	}
	vsym.Reach("valid")
	vsym.Assert(err == nil, "a valid loca table is rejected")
	vsym.Assert(len(gg) == len(offs)-1, "wrong number of glyphs")
	for i, g := range gg {
		vsym.Assert((g == nil) == (offs[i] == offs[i+1]), "wrong empty glyphs")
	}
}
