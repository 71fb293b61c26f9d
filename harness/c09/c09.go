// Package c09 checks the cmap encoders and decoders.
package c09

import (
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
)

// spec4 is the OpenType specification's lookup procedure for format 4.
func spec4(b []byte, c int) int {
	n := vsym.Concrete(hx.U16(b, 6)) / 2
	for i := range n {
		end := hx.U16(b, 14+2*i)
		if end < c {
			continue
		}
		start := hx.U16(b, 16+2*n+2*i)
		if start > c {
			return 0
		}
		delta := hx.U16(b, 16+4*n+2*i)
		pos := 16 + 6*n + 2*i
		ro := vsym.Concrete(hx.U16(b, pos))
		if ro == 0 {
			return (c + delta) & 0xFFFF
		}
		start = vsym.Concrete(start)
		g := hx.U16(b, pos+ro+2*(c-start))
		return vsym.IteInt(g == 0, 0, (g+delta)&0xFFFF)
	}
	return 0
}

// check4 checks the structure of an encoded format 4 subtable.
func check4(b []byte, lang uint16) {
	vsym.Assert(len(b) >= 16, "format 4: too short")
	vsym.Assert(hx.U16(b, 0) == 4, "format 4: wrong format")
	vsym.Assert(hx.U16(b, 2) == len(b), "format 4: wrong length")
	vsym.Assert(hx.U16(b, 4) == int(lang), "format 4: wrong language")
	n2 := vsym.Concrete(hx.U16(b, 6))
	n := n2 / 2
	vsym.Assert(n2%2 == 0 && n > 0 && 16+8*n <= len(b), "format 4: wrong segCountX2")
	p2, sel := 1, 0
	for p2*2 <= n {
		p2 *= 2
		sel++
	}
	vsym.Assert(hx.U16(b, 8) == 2*p2, "format 4: wrong searchRange")
	vsym.Assert(hx.U16(b, 10) == sel, "format 4: wrong entrySelector")
	vsym.Assert(hx.U16(b, 12) == 2*n-2*p2, "format 4: wrong rangeShift")
	vsym.Assert(hx.U16(b, 14+2*n) == 0, "format 4: wrong reservedPad")
	vsym.Assert(hx.U16(b, 14+2*(n-1)) == 0xFFFF, "format 4: last segment does not end at 0xFFFF")
	prev := -1
	for i := range n {
		end := hx.U16(b, 14+2*i)
		start := hx.U16(b, 16+2*n+2*i)
		vsym.Assert(vsym.And(start > prev, start <= end), "format 4: segments not sorted")
		prev = end
		pos := 16 + 6*n + 2*i
		ro := vsym.Concrete(hx.U16(b, pos))
		if ro != 0 {
			cnt := vsym.Concrete(end - start)
			vsym.Assert(ro%2 == 0 && pos+ro >= 16+8*n && pos+ro+2*cnt+2 <= len(b), "format 4: idRangeOffset out of range")
			vsym.Reach("values")
		}
	}
}

// enc4 encodes a mapping, and checks it with the library and the
// specification.
func enc4(base, n int, m cmap.Format4) {
	lang := vsym.Uint16()
	b := m.Encode(lang)
	check4(b, lang)
	sub, err := cmap.Table{{PlatformID: 3, EncodingID: 1}: b}.Get(cmap.Key{PlatformID: 3, EncodingID: 1})
	vsym.Assert(err == nil, "format 4: the library rejects its own subtable")
	for i := -2; i < n+2; i++ {
		c := base + i
		if c < 0 || c > 0xFFFF {
			continue
		}
		want := m[uint16(c)]
		vsym.Assert(spec4(b, c) == int(want), "format 4: a specification-conforming decoder finds another glyph")
		vsym.Assert(sub.Lookup(rune(c)) == want, "format 4: the library finds another glyph")
	}
	vsym.Assert(sub.Lookup(rune(0x10000+base)) == 0, "format 4: code points beyond the BMP are mapped")
	vsym.Assert(sub.Lookup(-1) == 0, "format 4: negative runes are mapped")
}

// H_Enc4 covers every glyph assignment to a run of consecutive codes at the
// end of the BMP.
//
//gosym: quick=25 thorough=120
func H_Enc4() {
	n := 5
	if vsym.Thorough() {
		n = 7
	}
	base := 0x10000 - n
	if vsym.Bool() {
		base--
	}
	m := cmap.Format4{}
	for i := range n {
		if vsym.Bool() {
			m[uint16(base+i)] = glyph.ID(vsym.Uint16())
		}
	}
	enc4(base, n, m)
}

// H_Enc4Gaps has codes with gaps between them.
//
//gosym: quick=12 thorough=120
func H_Enc4Gaps() {
	n := 3
	if vsym.Thorough() {
		n = 5
	}
	base := 0xFFFF
	m := cmap.Format4{}
	for range n {
		base -= []int{1, 2, 5, 6}[vsym.Choose(4)]
		m[uint16(base)] = glyph.ID(vsym.Uint16())
	}
	if vsym.Bool() {
		m[0xFFFF] = glyph.ID(vsym.Uint16())
	}
	enc4(base, 0xFFFF-base+1, m)
}

// H_Enc4Low has codes at the start of the BMP and elsewhere.
//
//gosym: quick=10 thorough=60 steps=400000000
func H_Enc4Low() {
	m := cmap.Format4{}
	base := []int{0, 0x41, 0x7FFE}[vsym.Choose(3)]
	n := 4
	for i := range n {
		m[uint16(base+i)] = glyph.ID(vsym.Uint16())
	}
	enc4(base, n, m)
}

// H_Enc4Many has more segments than a format 4 subtable can hold.
//
//gosym: quick=30 thorough=60 steps=2000000000
func H_Enc4Many() {
	n := []int{8189, 8300}[vsym.Choose(2)]
	m := cmap.Format4{}
	for i := range n {
		m[uint16(7*i)] = glyph.ID(1 + i)
	}
	m[uint16(7*vsym.Choose(2))] = glyph.ID(vsym.Uint16())
	var b []byte
	func() {
		defer func() {
			if recover() != nil {
				vsym.Reach("refused")
			}
		}()
		b = m.Encode(0)
	}()
	if b != nil {
		vsym.Assert(hx.U16(b, 2) == len(b), "format 4: wrong length for many segments")
		vsym.Reach("encoded")
	}
}

// H_Dec4 decodes arbitrary two- and three-segment subtables.
//
//gosym: quick=20 thorough=120
func H_Dec4() {
	n := 1 + vsym.Choose(2)
	vals := vsym.Choose(3)
	if vsym.Thorough() {
		n = 1 + vsym.Choose(3)
		vals = vsym.Choose(4)
	}
	L := 16 + 8*n + 2*vals
	b := make([]byte, L)
	put := func(i, v int) { b[i], b[i+1] = byte(v>>8), byte(v) }
	put(0, 4)
	put(2, L)
	put(6, 2*n)
	for i := 8; i < 14; i++ {
		b[i] = vsym.Byte()
	}
	put(14+2*n, int(vsym.Uint16()))
	var start, end []int
	prev := -1
	base := vsym.Int(0, 0xFFE0)
	for i := range n {
		var s, e int
		if i == n-1 {
			s, e = 0xFFFF, 0xFFFF
		} else {
			s = prev + vsym.Int(1, 3)
			if i == 0 {
				s = base
			}
			e = s + vsym.Choose(3)
			vsym.Assume(e < 0xFFFF)
		}
		prev = e
		start = append(start, s)
		end = append(end, e)
		put(14+2*i, e)
		put(16+2*n+2*i, s)
		put(16+4*n+2*i, int(vsym.Uint16()))
		ro := 0
		if i < n-1 && vals > 0 && vsym.Bool() {
			first := vsym.Choose(vals)
			ro = 2 * (n - i + first)
			vsym.Assume(first+e-s < vals)
		}
		put(16+6*n+2*i, ro)
	}
	for i := range vals {
		put(16+8*n+2*i, int(vsym.Uint16()))
	}
	key := cmap.Key{PlatformID: 0, EncodingID: 3}
	sub, err := cmap.Table{key: b}.Get(key)
	vsym.Assert(err == nil, "format 4: valid subtable rejected")
	c := vsym.Int(0, 0xFFFF)
	in := false
	for i := range n {
		in = vsym.Or(in, vsym.And(c >= start[i], c <= end[i]))
	}
	if !in {
		vsym.Assert(sub.Lookup(rune(c)) == 0, "format 4: unmapped code has a glyph")
		return
	}
	vsym.Reach("mapped")
	vsym.Assert(int(sub.Lookup(rune(c))) == spec4(b, c), "format 4: decoded mapping differs from the specification")
}

// H_Dec6 decodes trimmed tables.
//
//gosym: quick=8 thorough=30
func H_Dec6() {
	n := vsym.Choose(4)
	b := vsym.Bytes(10 + 2*n)
	b[0], b[1] = 0, 6
	b[2], b[3] = 0, byte(len(b))
	b[8], b[9] = 0, byte(n)
	first := hx.U16(b, 6)
	key := cmap.Key{PlatformID: 3, EncodingID: 1}
	sub, err := cmap.Table{key: b}.Get(key)
	vsym.Assert(err == nil, "format 6: valid subtable rejected")
	c := vsym.Int(0, 0x1FFFF)
	want := 0
	vsym.Assume(first+n <= 0x10000)
	for i := range n {
		want = vsym.IteInt(c == first+i, hx.U16(b, 10+2*i), want)
	}
	vsym.Assert(int(sub.Lookup(rune(c))) == want, "format 6: wrong glyph")
}

// macRoman are the runes of the codes 128 to 255 of the Mac OS Roman
// encoding.
var macRoman = []rune("ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨≠ÆØ∞±≤≥¥µ∂∑∏π∫ªºΩæø" +
	"¿¡¬√ƒ≈∆«»…\u00A0ÀÃÕŒœ–—“”‘’÷◊ÿŸ⁄€‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ\uF8FFÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ")

func specMac(code int) rune {
	if code < 128 {
		return rune(code)
	}
	return macRoman[code-128]
}

// H_Dec0 decodes byte encoding tables, for Unicode and Mac Roman.
//
//gosym: quick=10 thorough=30
func H_Dec0() {
	b := make([]byte, 6+256)
	b[2], b[3] = 1, 6
	b[4], b[5] = vsym.Byte(), vsym.Byte()
	window := []int{0, 0x41, 0x7E, 0x9F, 0xFC}[vsym.Choose(5)]
	for i := range 256 {
		b[6+i] = byte(i*7 + 3)
		if i >= window && i < window+4 {
			b[6+i] = vsym.Byte()
		}
	}
	key := cmap.Key{PlatformID: 3, EncodingID: 1}
	mac := vsym.Bool()
	if mac {
		key = cmap.Key{PlatformID: 1, EncodingID: 0}
	}
	sub, err := cmap.Table{key: b}.Get(key)
	vsym.Assert(err == nil, "format 0: valid subtable rejected")
	for code := range 256 {
		r := rune(code)
		if mac {
			r = specMac(code)
		}
		vsym.Assert(sub.Lookup(r) == glyph.ID(b[6+code]), "format 0: wrong glyph")
	}
	for _, r := range []rune{-1, 256, 0x100 + 'A', 0x2000, 0x10041} {
		vsym.Assert(sub.Lookup(r) == 0, "format 0: unmapped code has a glyph")
	}
	if mac {
		vsym.Assert(sub.Lookup(0x80) == 0, "format 0: a Mac Roman code is used as a code point")
	}
	if !mac {
		vsym.Assert(string(sub.Encode(uint16(hx.U16(b, 4)))) == string(b), "format 0: wrong encoding")
	}
}

// H_Mac decodes formats 4 and 6 in Mac Roman subtables.
//
//gosym: quick=10 thorough=30
func H_Mac() {
	first := []int{0x20, 0x7E, 0x80, 0xFD, 0x17F}[vsym.Choose(5)]
	n := 4
	var b []byte
	if vsym.Bool() {
		b = vsym.Bytes(10 + 2*n)
		b[0], b[1], b[2], b[3] = 0, 6, 0, byte(len(b))
		b[6], b[7] = byte(first>>8), byte(first)
		b[8], b[9] = 0, byte(n)
	} else {
		m := cmap.Format4{}
		for i := range n {
			m[uint16(first+i)] = glyph.ID(0x1234 + 7*i)
		}
		b = m.Encode(0)
	}
	key := cmap.Key{PlatformID: 1, EncodingID: 0}
	sub, err := cmap.Table{key: b}.Get(key)
	vsym.Assert(err == nil, "mac: valid subtable rejected")
	for code := range 256 {
		want := 0
		if code >= first && code < first+n {
			if b[1] == 6 {
				want = hx.U16(b, 10+2*(code-first))
			} else {
				want = 0x1234 + 7*(code-first)
			}
		}
		vsym.Assert(int(sub.Lookup(specMac(code))) == want, "mac: wrong glyph")
	}
}

// H_Enc12 encodes mappings in format 12.
//
//gosym: quick=20 thorough=120
func H_Enc12() {
	n := 4
	if vsym.Thorough() {
		n = 6
	}
	m := cmap.Format12{}
	codes := make([]uint32, n)
	c := uint32(vsym.Int(0, 0x10FF00))
	for i := range n {
		codes[i] = c
		c += uint32([]int{1, 2, 0x1FF}[vsym.Choose(3)])
	}
	want := make([]glyph.ID, n)
	for i, c := range codes {
		want[i] = glyph.ID(vsym.Uint16())
		m[c] = want[i]
	}
	lang := vsym.Uint16()
	b := m.Encode(lang)
	vsym.Assert(len(b) >= 16 && (len(b)-16)%12 == 0, "format 12: impossible length")
	vsym.Assert(hx.U32(b, 0) == 12<<16 && int(hx.U32(b, 4)) == len(b) && hx.U32(b, 8) == uint32(lang), "format 12: wrong header")
	g := (len(b) - 16) / 12
	vsym.Assert(int(hx.U32(b, 12)) == g, "format 12: wrong number of groups")
	key := cmap.Key{PlatformID: 3, EncodingID: 10}
	sub, err := cmap.Table{key: b}.Get(key)
	vsym.Assert(err == nil, "format 12: the library rejects its own subtable")
	spec := func(c uint32) int {
		res := 0
		for i := range g {
			s, e, gid := hx.U32(b, 16+12*i), hx.U32(b, 20+12*i), hx.U32(b, 24+12*i)
			res = vsym.IteInt(vsym.And(s <= c, c <= e), int(gid)+int(c)-int(s), res)
		}
		return res
	}
	for i := range g {
		s, e := hx.U32(b, 16+12*i), hx.U32(b, 20+12*i)
		vsym.Assert(s <= e, "format 12: empty group")
		if i > 0 {
			vsym.Assert(s > hx.U32(b, 20+12*(i-1)), "format 12: groups not sorted")
		}
	}
	for i, c := range codes {
		vsym.Assert(spec(c) == int(want[i]), "format 12: a specification-conforming decoder finds another glyph")
		vsym.Assert(sub.Lookup(rune(c)) == want[i], "format 12: the library finds another glyph")
		next := i+1 < n && codes[i+1] == c+1
		if !next {
			vsym.Assert(spec(c+1) == 0, "format 12: unmapped code has a glyph")
			vsym.Assert(sub.Lookup(rune(c+1)) == 0, "format 12: unmapped code has a glyph in the library")
		}
	}
	lo, hi := sub.CodeRange()
	vsym.Assert(uint32(lo) == codes[0] && uint32(hi) == codes[n-1], "format 12: wrong code range")
}

// H_Dec12 decodes groups.
//
//gosym: quick=15 thorough=60
func H_Dec12() {
	g := vsym.Choose(3)
	if vsym.Thorough() {
		g = vsym.Choose(4)
	}
	b := make([]byte, 16+12*g)
	put := func(i int, v uint32) {
		b[i], b[i+1], b[i+2], b[i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	put(0, 12<<16)
	put(4, uint32(len(b)))
	put(8, vsym.Uint32())
	put(12, uint32(g))
	prev := uint32(vsym.Int(0, 0x10FF00))
	q := vsym.Int(0, 0x10FFFF)
	want := 0
	over := false
	for i := range g {
		s := prev + uint32(vsym.Int(0, 0x20))
		e := s + uint32(vsym.Choose(3))
		gid := uint32(vsym.Int(0, 0x1FFFF))
		put(16+12*i, s)
		put(20+12*i, e)
		put(24+12*i, gid)
		prev = e + 1
		want = vsym.IteInt(vsym.And(q >= int(s), q <= int(e)), int(gid)+q-int(s), want)
		vsym.Assume(q < int(s) || q > int(e) || q == int(s)+vsym.Choose(3))
		over = vsym.Or(over, int(gid)+int(e-s) > 0xFFFF)
	}
	key := cmap.Key{PlatformID: 0, EncodingID: 4}
	sub, err := cmap.Table{key: b}.Get(key)
	if over {
		vsym.Reach("glyph ids too large")
		if err == nil {
			// glyphs which cannot exist must not turn into others
			vsym.Assert(vsym.Or(want > 0xFFFF, int(sub.Lookup(rune(q))) == want), "format 12: wrong glyph")
			vsym.Assert(vsym.Or(want <= 0xFFFF, sub.Lookup(rune(q)) == 0), "format 12: glyph id truncated")
		}
		return
	}
	vsym.Assert(err == nil, "format 12: valid subtable rejected")
	vsym.Assert(int(sub.Lookup(rune(q))) == want, "format 12: wrong glyph")
}

// mkSub makes some format 0, 4, 6, 12 subtable.
func mkSub(kind int, lang uint16) []byte {
	gid := vsym.Uint16()
	switch kind {
	case 0:
		return cmap.Format4{0xFFFC: glyph.ID(gid)}.Encode(lang)
	case 1:
		return cmap.Format12{0x10300: glyph.ID(gid)}.Encode(lang)
	case 2:
		return []byte{0, 6, 0, 12, byte(lang >> 8), byte(lang), 0, 65, 0, 1, byte(gid >> 8), byte(gid)}
	case 3: // an unsupported format is kept, too
		return []byte{0, 2, 0, 12, byte(lang >> 8), byte(lang), 0, 65, 0, 1, byte(gid >> 8), byte(gid)}
	case 4:
		return []byte{0, 10, 0, 0, 0, 0, 0, 22, 0, 0, byte(lang >> 8), byte(lang), 0, 0, 0, 65, 0, 0, 0, 1, byte(gid >> 8), byte(gid)}
	default:
		return []byte{0, 14, 0, 0, 0, 10, 0, 0, 0, 0}
	}
}

// H_Table writes and reads cmap tables.
//
//gosym: quick=20 thorough=90
func H_Table() {
	n := vsym.Choose(3)
	if vsym.Thorough() {
		n = vsym.Choose(4)
	}
	tab := cmap.Table{}
	var keys []cmap.Key
	var data [][]byte
	for i := range n {
		p := vsym.Int(0, 4)
		e := uint16(vsym.Int(0, 12))
		if vsym.Thorough() {
			e = vsym.Uint16()
		}
		var lang uint16
		if p == 1 {
			lang = vsym.Uint16()
		}
		kind := vsym.Choose(6)
		if kind == 5 {
			vsym.Assume(lang == 0)
		}
		d := mkSub(kind, lang)
		if i > 0 && vsym.Bool() {
			d = hx.Clone(data[0]) // shared subtable
			vsym.Assume(lang == keys[0].Language)
		}
		k := cmap.Key{PlatformID: uint16(p), EncodingID: e, Language: lang}
		for _, k2 := range keys {
			vsym.Assume(k != k2)
		}
		tab[k] = d
		keys = append(keys, k)
		data = append(data, d)
	}
	b := tab.Encode()
	vsym.Assert(hx.U16(b, 0) == 0 && hx.U16(b, 2) == n, "table: wrong header")
	total := 4 + 8*n
	for i, d := range data {
		first := true
		for j := range i {
			if string(data[j]) == string(d) {
				first = false
			}
		}
		if first {
			total += len(d)
		}
	}
	vsym.Assert(len(b) == total, "table: identical subtables are not shared")
	prev := -1
	for i := range n {
		r := b[4+8*i:]
		o := vsym.Concrete(int(hx.U32(r, 4)))
		k := hx.U16(r, 0)<<16 | hx.U16(r, 2)
		vsym.Assert(k >= prev, "table: records not sorted")
		prev = k
		vsym.Assert(o >= 4+8*n && o+4 <= len(b), "table: wrong offset")
	}
	tab2, err := cmap.Decode(b)
	vsym.Assert(err == nil, "table: cannot read back the table")
	vsym.Assert(len(tab2) == n, "table: wrong number of subtables")
	for i, k := range keys {
		vsym.Assert(string(tab2[k]) == string(data[i]), "table: subtable changed")
	}
	vsym.Assert(string(tab2.Encode()) == string(b), "table: second encoding differs")
}

// H_Best checks the choice of subtable.
//
//gosym: quick=20 thorough=60
func H_Best() {
	cand := []cmap.Key{
		{PlatformID: 3, EncodingID: 10},
		{PlatformID: 0, EncodingID: 4},
		{PlatformID: 3, EncodingID: 1},
		{PlatformID: 0, EncodingID: 3},
		{PlatformID: 1, EncodingID: 0},
	}
	// preference class: full Unicode, BMP, legacy
	class := []int{0, 0, 1, 1, 2}
	tab := cmap.Table{}
	best := 3
	have := [5]bool{}
	for i, k := range cand {
		switch vsym.Choose(3) {
		case 1: // usable
			tab[k] = []byte{0, 6, 0, 12, 0, 0, 0, 65, 0, 1, 0, byte(i + 1)}
			have[i] = true
			best = min(best, class[i])
		case 2: // not usable
			tab[k] = []byte{0, 14, 0, 0, 0, 10, 0, 0, 0, 0}
		}
	}
	if vsym.Bool() {
		tab[cmap.Key{PlatformID: 3, EncodingID: vsym.Uint16()}] = []byte{0, 14, 0, 0, 0, 10, 0, 0, 0, 0}
		vsym.Assume(len(tab) >= 1)
		return
	}
	sub, err := tab.GetBest()
	if best == 3 {
		vsym.Assert(err != nil, "best: subtable from nowhere")
		return
	}
	vsym.Assert(err == nil, "best: no subtable found")
	got := int(sub.Lookup('A')) - 1
	vsym.Assert(got >= 0 && got < 5 && have[got], "best: wrong subtable")
	vsym.Assert(class[got] == best, "best: a better subtable is not used")
}

// H_Install checks the table made by InstallCMap.
//
//gosym: quick=8 thorough=20
func H_Install() {
	f := &sfnt.Font{}
	c := vsym.Uint32()
	gid := glyph.ID(vsym.Uint16())
	vsym.Assume(vsym.And(c <= 0x10FFFF, gid != 0))
	var s cmap.Subtable
	full := false
	c2 := c
	gid2 := gid
	switch vsym.Choose(3) {
	case 0:
		s = cmap.Format12{c: gid}
		full = c > 0xFFFF
	case 1: // two codes, on the same or on different planes
		c2 = vsym.Uint32()
		gid2 = glyph.ID(vsym.Uint16())
		vsym.Assume(vsym.And(c2 <= 0x10FFFF, c2 != c, gid2 != 0))
		s = cmap.Format12{c: gid, c2: gid2}
		full = c > 0xFFFF || c2 > 0xFFFF
	default:
		c = 0xFFF0 + c%16
		c = uint32(vsym.Concrete(int(c)))
		c2 = c
		s = cmap.Format4{uint16(c): gid}
	}
	f.InstallCMap(s)
	b := f.CMapTable.Encode()
	tab, err := cmap.Decode(b)
	vsym.Assert(err == nil, "install: cannot read back")
	for k := range tab {
		if full {
			vsym.Assert(k == cmap.Key{PlatformID: 3, EncodingID: 10} || k == cmap.Key{PlatformID: 0, EncodingID: 4}, "install: full Unicode table under a BMP key")
		} else {
			vsym.Assert(k == cmap.Key{PlatformID: 3, EncodingID: 1} || k == cmap.Key{PlatformID: 0, EncodingID: 3}, "install: wrong key")
		}
	}
	vsym.Assert(len(tab) > 0, "install: no subtables")
	sub, err := tab.GetBest()
	vsym.Assert(err == nil, "install: no best subtable")
	vsym.Assert(sub.Lookup(rune(c)) == gid, "install: wrong glyph")
	vsym.Assert(sub.Lookup(rune(c2)) == gid2, "install: wrong second glyph")
	o := vsym.Uint32()
	vsym.Assume(vsym.And(o <= 0x10FFFF, o != c, o != c2))
	vsym.Assert(sub.Lookup(rune(o)) == 0, "install: unmapped code has a glyph")
}
