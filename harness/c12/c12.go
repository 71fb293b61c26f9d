// Package c12 checks the metrics and header tables.
package c12

import (
	"bytes"
	"math"
	"time"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/post"
)

func i16(b []byte, i int) int { return int(int16(uint16(b[i])<<8 | uint16(b[i+1]))) }

func fi() funit.Int16 { return funit.Int16(vsym.Int16()) }

// small is an Int16 for which differences do not overflow.
func small() funit.Int16 {
	x := vsym.Int16()
	vsym.Assume(vsym.And(x >= -16000, x <= 16000))
	return funit.Int16(x)
}

func box16() funit.Rect16 {
	r := funit.Rect16{LLx: small(), LLy: small(), URx: small(), URy: small()}
	vsym.Assume(vsym.And(r.LLx <= r.URx, r.LLy <= r.URy))
	return r
}

func empty(r funit.Rect16) bool {
	return vsym.And(vsym.And(r.LLx == 0, r.LLy == 0), vsym.And(r.URx == 0, r.URy == 0))
}

// mm accumulates a minimum or maximum over the non-empty glyphs.
type mm struct {
	have bool
	v    int
}

func (a *mm) min(use bool, x int) {
	take := vsym.And(use, vsym.Or(!a.have, x < a.v))
	a.v = vsym.IteInt(take, x, a.v)
	a.have = vsym.Or(a.have, use)
}

func (a *mm) max(use bool, x int) {
	take := vsym.And(use, vsym.Or(!a.have, x > a.v))
	a.v = vsym.IteInt(take, x, a.v)
	a.have = vsym.Or(a.have, use)
}

// checkHhea recomputes the derived fields of hhea.
func checkHhea(hhea []byte, widths []funit.Int16, lsb []funit.Int16, ext []funit.Rect16) {
	vsym.Assert(len(hhea) == 36, "hhea: wrong length")
	vsym.Assert(hx.U32(hhea, 0) == 0x00010000, "hhea: wrong version")
	for i := 24; i < 34; i++ {
		vsym.Assert(hhea[i] == 0, "hhea: reserved fields not zero")
	}
	maxW := 0
	for _, w := range widths {
		maxW = vsym.IteInt(int(w) > maxW, int(w), maxW)
	}
	vsym.Assert(i16(hhea, 10) == maxW, "hhea: wrong advanceWidthMax")
	if ext == nil {
		return
	}
	var minL, minR, maxX mm
	for i, e := range ext {
		use := !empty(e)
		minL.min(use, int(lsb[i]))
		minR.min(use, int(widths[i])-(int(lsb[i])+int(e.URx)-int(e.LLx)))
		maxX.max(use, int(lsb[i])+int(e.URx)-int(e.LLx))
	}
	vsym.Assert(i16(hhea, 12) == minL.v, "hhea: wrong minLeftSideBearing")
	vsym.Assert(i16(hhea, 14) == minR.v, "hhea: wrong minRightSideBearing")
	vsym.Assert(i16(hhea, 16) == maxX.v, "hhea: wrong xMaxExtent")
}

// checkHmtx compares an hmtx table with the widths and bearings.
func checkHmtx(hhea, data []byte, widths []funit.Int16, lsb []funit.Int16) {
	n := len(widths)
	numLong := vsym.Concrete(hx.U16(hhea, 34))
	vsym.Assert(numLong <= n && (numLong > 0 || n == 0), "hhea: impossible numberOfHMetrics")
	vsym.Assert(len(data) == 4*numLong+2*(n-numLong), "hmtx: wrong length")
	for i := range n {
		if i < numLong {
			vsym.Assert(i16(data, 4*i) == int(widths[i]), "hmtx: wrong advance width")
			vsym.Assert(i16(data, 4*i+2) == int(lsb[i]), "hmtx: wrong left side bearing")
		} else {
			vsym.Assert(i16(data, 4*(numLong-1)) == int(widths[i]), "hmtx: wrong advance width in the tail")
			vsym.Assert(i16(data, 4*numLong+2*(i-numLong)) == int(lsb[i]), "hmtx: wrong left side bearing in the tail")
		}
	}
}

func hmtxInfo(n int, withLSB, withExt bool) (*hmtx.Info, []funit.Int16) {
	info := &hmtx.Info{
		Widths:      make([]funit.Int16, n),
		Ascent:      fi(),
		Descent:     fi(),
		LineGap:     fi(),
		CaretOffset: fi(),
	}
	lsb := make([]funit.Int16, n)
	if withExt {
		info.GlyphExtents = make([]funit.Rect16, n)
	}
	for i := range n {
		w := small()
		vsym.Assume(w >= 0)
		info.Widths[i] = w
		if withExt {
			info.GlyphExtents[i] = box16()
			lsb[i] = info.GlyphExtents[i].LLx
		}
		if withLSB {
			lsb[i] = small()
		}
		if withExt {
			e := info.GlyphExtents[i]
			x := int(lsb[i]) + int(e.URx) - int(e.LLx)
			vsym.Assume(vsym.And(x <= 32767, vsym.And(int(w)-x >= -32768, int(w)-x <= 32767)))
		}
	}
	if withLSB {
		info.LSB = lsb
	}
	return info, lsb
}

func hmtxRoundTrip(info *hmtx.Info, lsb []funit.Int16) {
	hhea, data := info.Encode()
	n := len(info.Widths)
	checkHhea(hhea, info.Widths, lsb, info.GlyphExtents)
	checkHmtx(hhea, data, info.Widths, lsb)
	vsym.Assert(i16(hhea, 4) == int(info.Ascent) && i16(hhea, 6) == int(info.Descent) && i16(hhea, 8) == int(info.LineGap), "hhea: wrong ascent, descent or line gap")
	vsym.Assert(i16(hhea, 22) == int(info.CaretOffset), "hhea: wrong caret offset")

	back, err := hmtx.Decode(hhea, data)
	vsym.Assert(err == nil, "hmtx.Decode fails")
	vsym.Assert(len(back.Widths) == n && len(back.LSB) == n, "hmtx.Decode: wrong number of glyphs")
	for i := range n {
		vsym.Assert(back.Widths[i] == info.Widths[i], "width changed")
		vsym.Assert(back.LSB[i] == lsb[i], "left side bearing changed")
	}
	vsym.Assert(back.Ascent == info.Ascent && back.Descent == info.Descent && back.LineGap == info.LineGap, "vertical metrics changed")
	vsym.Assert(back.CaretOffset == info.CaretOffset, "caret offset changed")
	vsym.Observe(uint64(len(data)))
	vsym.ObserveBytes(hhea)
	vsym.ObserveBytes(data)
}

// H_Hmtx: 1..4 glyphs with symbolic widths (0..16000) and boxes; bearings
// symbolic or derived from the boxes.
//
//gosym: quick=10 thorough=300
func H_Hmtx() {
	n := 1 + vsym.Choose(3)
	if vsym.Thorough() {
		n = 1 + vsym.Choose(4)
	}
	mode := vsym.Choose(3)
	info, lsb := hmtxInfo(n, mode != 0, mode != 1)
	hmtxRoundTrip(info, lsb)
}

// H_HmtxTail: up to 9 glyphs whose widths take symbolic values; the tail
// compression is decided by the widths alone.
//
//gosym: quick=6 thorough=120
func H_HmtxTail() {
	n := 5 + vsym.Choose(5)
	info := &hmtx.Info{Widths: make([]funit.Int16, n), LSB: make([]funit.Int16, n)}
	for i := range n {
		w := vsym.Int16()
		vsym.Assume(w >= 0)
		info.Widths[i] = funit.Int16(w)
		info.LSB[i] = fi()
	}
	hmtxRoundTrip(info, info.LSB)
}

// H_HmtxRead: an arbitrary hmtx table with an arbitrary numberOfHMetrics is
// decoded as the specification says, or rejected; decoding the re-encoded
// tables gives the same values.
//
//gosym: quick=6 thorough=120
func H_HmtxRead() {
	l := vsym.Choose(12)
	if vsym.Thorough() {
		l = vsym.Choose(20)
	}
	data := vsym.Bytes(l)
	hhea := make([]byte, 36)
	hhea[1] = 1
	hhea[19] = 1
	copy(hhea[4:10], vsym.Bytes(6))
	copy(hhea[22:24], vsym.Bytes(2))
	k := int(vsym.Uint16())
	hhea[34], hhea[35] = byte(k>>8), byte(k)
	info, err := hmtx.Decode(hhea, data)
	k = vsym.IteInt(k > 12, 12, k) // more than there can be
	k = vsym.Concrete(k)
	ok := 4*k <= l && (l-4*k)%2 == 0
	if !ok {
		vsym.Assert(err != nil, "a malformed hmtx table is accepted")
		vsym.Reach("malformed")
		return
	}
	n := k + (l-4*k)/2
	if k == 0 && n > 0 {
		return // not specified
	}
	vsym.Assert(err == nil, "a well-formed hmtx table is rejected")
	vsym.Assert(len(info.Widths) == n && len(info.LSB) == n, "wrong number of glyphs")
	checkHmtx(hhea, data, info.Widths, info.LSB)
	vsym.Assert(i16(hhea, 4) == int(info.Ascent) && i16(hhea, 6) == int(info.Descent) && i16(hhea, 8) == int(info.LineGap) && i16(hhea, 22) == int(info.CaretOffset), "hhea fields decoded wrongly")
	if n == 0 {
		return
	}
	h2, d2 := info.Encode()
	back, err := hmtx.Decode(h2, d2)
	vsym.Assert(err == nil && len(back.Widths) == n && len(back.LSB) == n, "re-encoded hmtx cannot be read")
	for i := range n {
		vsym.Assert(vsym.And(back.Widths[i] == info.Widths[i], back.LSB[i] == info.LSB[i]), "hmtx values changed by re-encoding")
	}
}

var carets = [][2]int16{{1, 0}, {5, 1}, {1000, 213}, {-1, 0}, {2048, 361}, {32767, 32766}, {100, -17}, {-7, 3}, {1, 32767}, {0, 1}, {0, -1}, {32767, 1}, {31, 32000}, {-1, 32767}}

// H_Caret: the caret slope is recovered up to a common factor (slopes
// from a list: the trigonometry is executed concretely).
//
//gosym: quick=10 thorough=40
func H_Caret() {
	k := vsym.Choose(5)
	if vsym.Thorough() {
		k = vsym.Choose(len(carets))
	}
	rise, run := carets[k][0], carets[k][1]
	hhea := make([]byte, 36)
	hhea[1] = 1
	hhea[18], hhea[19] = byte(rise>>8), byte(rise)
	hhea[20], hhea[21] = byte(run>>8), byte(run)
	info, err := hmtx.Decode(hhea, nil)
	vsym.Assert(err == nil, "hhea rejected")
	want := math.Atan2(float64(-run), float64(rise))
	d := math.Abs(info.CaretAngle - want)
	vsym.Assert(d < 1e-9 || math.Abs(d-2*math.Pi) < 1e-9, "wrong caret angle")
	h2, _ := info.Encode()
	r2, u2 := i16(h2, 18), i16(h2, 20)
	vsym.Assert(int(rise)*u2 == int(run)*r2 && (r2 != 0 || u2 != 0), "caret slope changed")
	vsym.Assert(int(rise)*r2+int(run)*u2 > 0, "caret slope reversed")
}

// zero is the first instant of 1904 in Unix time, from the definition.
func zero() int64 { return time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Unix() }

// H_Head: every field of the head table symbolic.
//
//gosym: quick=4 thorough=60
func H_Head() {
	tc := vsym.Int64()
	tm := vsym.Int64()
	ok := func(t int64) bool {
		// 1 AD .. 9999 AD, the two excluded instants have no encoding
		return vsym.And(vsym.And(t > -62135596800, t < 253402300800), t != zero())
	}
	vsym.Assume(vsym.And(ok(tc), ok(tm)))
	info := &head.Info{
		FontRevision:  head.Version(vsym.Uint32()),
		HasYBaseAt0:   vsym.Bool(),
		HasXBaseAt0:   vsym.Bool(),
		IsNonlinear:   vsym.Bool(),
		UnitsPerEm:    vsym.Uint16(),
		Created:       time.Unix(tc, 0),
		Modified:      time.Unix(tm, 0),
		FontBBox:      funit.Rect16{LLx: fi(), LLy: fi(), URx: fi(), URy: fi()},
		IsBold:        vsym.Bool(),
		IsItalic:      vsym.Bool(),
		HasShadow:     vsym.Bool(),
		IsCondensed:   vsym.Bool(),
		IsExtended:    vsym.Bool(),
		LowestRecPPEM: vsym.Uint16(),
		LocaFormat:    int16(vsym.Uint16()),
	}
	noC := vsym.Choose(3)
	if noC >= 1 {
		info.Created = time.Time{}
	}
	if noC == 2 {
		info.Modified = time.Time{}
	}
	b := info.Encode()
	vsym.Assert(len(b) == 54, "head: wrong length")
	vsym.Assert(hx.U32(b, 0) == 0x00010000 && hx.U32(b, 12) == 0x5F0F3CF5, "head: wrong version or magic number")
	vsym.Assert(hx.U32(b, 4) == uint32(info.FontRevision), "head: wrong revision")
	flags := b[17]
	vsym.Assert(flags&1 != 0 == info.HasYBaseAt0, "head: wrong flag bit 0")
	vsym.Assert(flags&2 != 0 == info.HasXBaseAt0, "head: wrong flag bit 1")
	vsym.Assert((flags&4 != 0 || flags&16 != 0) == info.IsNonlinear, "head: wrong flag bits 2/4")
	vsym.Assert(hx.U16(b, 18) == int(info.UnitsPerEm), "head: wrong unitsPerEm")
	enc := func(none bool, t int64) int64 {
		if none {
			return 0
		}
		return t - zero()
	}
	i64 := func(i int) int64 { return int64(uint64(hx.U32(b, i))<<32 | uint64(hx.U32(b, i+4))) }
	vsym.Assert(i64(20) == enc(noC >= 1, tc), "head: wrong creation time")
	vsym.Assert(i64(28) == enc(noC == 2, tm), "head: wrong modification time")
	bb := info.FontBBox
	vsym.Assert(i16(b, 36) == int(bb.LLx) && i16(b, 38) == int(bb.LLy) && i16(b, 40) == int(bb.URx) && i16(b, 42) == int(bb.URy), "head: wrong bounding box")
	st := b[45]
	vsym.Assert(b[44] == 0 && st&1 != 0 == info.IsBold && st&2 != 0 == info.IsItalic && st&16 != 0 == info.HasShadow && st&32 != 0 == info.IsCondensed && st&64 != 0 == info.IsExtended, "head: wrong macStyle")
	vsym.Assert(hx.U16(b, 46) == int(info.LowestRecPPEM), "head: wrong lowestRecPPEM")
	vsym.Assert(i16(b, 50) == int(info.LocaFormat), "head: wrong indexToLocFormat")

	back, err := head.Read(bytes.NewReader(b))
	vsym.Assert(err == nil, "head.Read fails")
	vsym.Assert(back.Created.Equal(info.Created) && back.Created.IsZero() == info.Created.IsZero(), "creation time changed")
	vsym.Assert(back.Modified.Equal(info.Modified) && back.Modified.IsZero() == info.Modified.IsZero(), "modification time changed")
	vsym.Assert(back.FontRevision == info.FontRevision && back.UnitsPerEm == info.UnitsPerEm && back.FontBBox == info.FontBBox, "head data changed")
	vsym.Assert(back.HasYBaseAt0 == info.HasYBaseAt0 && back.HasXBaseAt0 == info.HasXBaseAt0 && back.IsNonlinear == info.IsNonlinear, "head flags changed")
	vsym.Assert(back.IsBold == info.IsBold && back.IsItalic == info.IsItalic && back.HasShadow == info.HasShadow && back.IsCondensed == info.IsCondensed && back.IsExtended == info.IsExtended, "head style changed")
	vsym.Assert(back.LowestRecPPEM == info.LowestRecPPEM && back.LocaFormat == info.LocaFormat, "head data changed")
	vsym.ObserveBytes(b)
}

// H_HeadRead: 54 arbitrary bytes (with valid version and magic number) are
// decoded field by field as specified, and survive a second cycle.
//
//gosym: quick=4 thorough=60
func H_HeadRead() {
	b := vsym.Bytes(54)
	b[0], b[1], b[2], b[3] = 0, 1, 0, 0
	b[12], b[13], b[14], b[15] = 0x5F, 0x0F, 0x3C, 0xF5
	t0 := int64(uint64(hx.U32(b, 20))<<32 | uint64(hx.U32(b, 24)))
	t1 := int64(uint64(hx.U32(b, 28))<<32 | uint64(hx.U32(b, 32)))
	vsym.Assume(vsym.And(vsym.And(t0 > -60000000000, t0 < 253402300800), vsym.And(t1 > -60000000000, t1 < 253402300800)))
	info, err := head.Read(bytes.NewReader(b))
	vsym.Assert(err == nil, "head.Read fails")
	vsym.Assert(uint32(info.FontRevision) == hx.U32(b, 4) && int(info.UnitsPerEm) == hx.U16(b, 18), "head decoded wrongly")
	vsym.Assert((t0 == 0) == info.Created.IsZero(), "zero creation time")
	if !info.Created.IsZero() {
		vsym.Assert(info.Created.Unix() == t0+zero(), "creation time decoded wrongly")
	}
	if !info.Modified.IsZero() {
		vsym.Assert(info.Modified.Unix() == t1+zero(), "modification time decoded wrongly")
	}
	flags, st := b[17], b[45]
	vsym.Assert(info.HasYBaseAt0 == (flags&1 != 0) && info.HasXBaseAt0 == (flags&2 != 0) && info.IsNonlinear == (flags&20 != 0), "head flags decoded wrongly")
	vsym.Assert(st&1 != 0 == info.IsBold && st&2 != 0 == info.IsItalic && st&16 != 0 == info.HasShadow && st&32 != 0 == info.IsCondensed && st&64 != 0 == info.IsExtended, "macStyle decoded wrongly")
	vsym.Assert(i16(b, 50) == int(info.LocaFormat) && hx.U16(b, 46) == int(info.LowestRecPPEM), "head decoded wrongly")
	bb := info.FontBBox
	vsym.Assert(i16(b, 36) == int(bb.LLx) && i16(b, 38) == int(bb.LLy) && i16(b, 40) == int(bb.URx) && i16(b, 42) == int(bb.URy), "bounding box decoded wrongly")
	c := info.Encode()
	vsym.Assert(vsym.EqBytes(c[18:44], b[18:44]) && vsym.EqBytes(c[4:8], b[4:8]), "head not reproduced")
}

// H_Maxp: all fields symbolic, with and without the TrueType part.
//
//gosym: quick=3 thorough=30
func H_Maxp() {
	info := &maxp.Info{NumGlyphs: vsym.Int(1, 65535)}
	if vsym.Choose(2) == 1 {
		info.TTF = &maxp.TTFInfo{
			MaxPoints: vsym.Uint16(), MaxContours: vsym.Uint16(), MaxCompositePoints: vsym.Uint16(),
			MaxCompositeContours: vsym.Uint16(), MaxZones: vsym.Uint16(), MaxTwilightPoints: vsym.Uint16(),
			MaxStorage: vsym.Uint16(), MaxFunctionDefs: vsym.Uint16(), MaxInstructionDefs: vsym.Uint16(),
			MaxStackElements: vsym.Uint16(), MaxSizeOfInstructions: vsym.Uint16(),
			MaxComponentElements: vsym.Uint16(), MaxComponentDepth: vsym.Uint16(),
		}
	}
	b := info.Encode()
	vsym.Assert(hx.U16(b, 4) == info.NumGlyphs, "maxp: wrong numGlyphs")
	back, err := maxp.Read(bytes.NewReader(b))
	vsym.Assert(err == nil, "maxp.Read fails")
	vsym.Assert(back.NumGlyphs == info.NumGlyphs, "glyph count changed")
	if info.TTF == nil {
		vsym.Assert(len(b) == 6 && hx.U32(b, 0) == 0x5000, "maxp: wrong version 0.5 table")
		vsym.Assert(back.TTF == nil, "TTF data invented")
		return
	}
	vsym.Assert(len(b) == 32 && hx.U32(b, 0) == 0x10000, "maxp: wrong version 1.0 table")
	vsym.Assert(back.TTF != nil && *back.TTF == *info.TTF, "TrueType maxima changed")
	t := info.TTF
	for i, x := range []uint16{t.MaxPoints, t.MaxContours, t.MaxCompositePoints, t.MaxCompositeContours, t.MaxZones, t.MaxTwilightPoints, t.MaxStorage, t.MaxFunctionDefs, t.MaxInstructionDefs, t.MaxStackElements, t.MaxSizeOfInstructions, t.MaxComponentElements, t.MaxComponentDepth} {
		vsym.Assert(hx.U16(b, 6+2*i) == int(x), "maxp: field at the wrong place")
	}
	vsym.ObserveBytes(b)
}

func os2Info() *os2.Info {
	perms := []os2.Permissions{os2.PermInstall, os2.PermRestricted, os2.PermView, os2.PermEdit}
	info := &os2.Info{
		WeightClass: os2.Weight(vsym.Uint16()), WidthClass: os2.Width(vsym.Uint16()),
		IsBold: vsym.Bool(), IsItalic: vsym.Bool(), IsRegular: vsym.Bool(), IsOblique: vsym.Bool(),
		FirstCharIndex: vsym.Uint16(), LastCharIndex: vsym.Uint16(),
		Ascent: fi(), Descent: fi(), WinAscent: fi(), WinDescent: fi(), LineGap: fi(), CapHeight: fi(), XHeight: fi(),
		AvgGlyphWidth:  fi(),
		SubscriptXSize: fi(), SubscriptYSize: fi(), SubscriptXOffset: fi(), SubscriptYOffset: fi(),
		SuperscriptXSize: fi(), SuperscriptYSize: fi(), SuperscriptXOffset: fi(), SuperscriptYOffset: fi(),
		StrikeoutSize: fi(), StrikeoutPosition: fi(),
		FamilyClass: vsym.Int16(),
		Vendor:      string([]byte{vsym.Byte(), vsym.Byte(), vsym.Byte(), vsym.Byte()}),
		UnicodeRange: os2.UnicodeRange{vsym.Uint32(), vsym.Uint32(), vsym.Uint32(), vsym.Uint32()},
		CodePageRange:    os2.CodePageRange(vsym.Uint64()),
		PermUse:          perms[vsym.Choose(4)],
		PermNoSubsetting: vsym.Bool(), PermOnlyBitmap: vsym.Bool(),
	}
	copy(info.Panose[:], vsym.Bytes(10))
	// bold or italic fonts are not regular; heights are not negative
	vsym.Assume(vsym.Implies(info.IsRegular, vsym.And(!info.IsBold, !info.IsItalic)))
	vsym.Assume(vsym.And(info.XHeight >= 0, info.CapHeight >= 0))
	return info
}

// H_OS2: all fields symbolic.
//
//gosym: quick=6 thorough=60
func H_OS2() {
	info := os2Info()
	orig := *info
	b := info.Encode()
	vsym.Assert(*info == orig, "Encode modifies its argument")
	vsym.Assert(len(b) == 96 && hx.U16(b, 0) == 4, "OS/2: wrong version or length")
	pos := []int{int(info.AvgGlyphWidth), int(info.WeightClass), int(info.WidthClass)}
	for i, x := range pos {
		vsym.Assert(hx.U16(b, 2+2*i) == x&0xFFFF, "OS/2: wrong avg width, weight or width class")
	}
	fsType := hx.U16(b, 8)
	use := fsType & 15
	want := map[os2.Permissions]int{os2.PermInstall: 0, os2.PermRestricted: 2, os2.PermView: 4, os2.PermEdit: 8}
	vsym.Assert(use == want[info.PermUse], "OS/2: wrong usage permission")
	vsym.Assert(fsType&0x100 != 0 == info.PermNoSubsetting && fsType&0x200 != 0 == info.PermOnlyBitmap && fsType&^0x30F == 0, "OS/2: wrong fsType")
	for i, x := range []funit.Int16{info.SubscriptXSize, info.SubscriptYSize, info.SubscriptXOffset, info.SubscriptYOffset,
		info.SuperscriptXSize, info.SuperscriptYSize, info.SuperscriptXOffset, info.SuperscriptYOffset, info.StrikeoutSize, info.StrikeoutPosition, funit.Int16(info.FamilyClass)} {
		vsym.Assert(i16(b, 10+2*i) == int(x), "OS/2: subscript/superscript/strikeout field at the wrong place")
	}
	vsym.Assert(vsym.EqBytes(b[32:42], info.Panose[:]), "OS/2: wrong panose")
	vsym.Assert(vsym.EqBytes(b[58:62], []byte(info.Vendor)), "OS/2: wrong vendor")
	sel := hx.U16(b, 62)
	vsym.Assert(sel&1 != 0 == info.IsItalic && sel&0x20 != 0 == info.IsBold && sel&0x40 != 0 == info.IsRegular && sel&0x200 != 0 == info.IsOblique, "OS/2: wrong fsSelection")
	vsym.Assert(hx.U16(b, 64) == int(info.FirstCharIndex) && hx.U16(b, 66) == int(info.LastCharIndex), "OS/2: wrong first/last character")
	for i, x := range []funit.Int16{info.Ascent, info.Descent, info.LineGap, info.WinAscent, info.WinDescent} {
		vsym.Assert(i16(b, 68+2*i) == int(x), "OS/2: wrong vertical metrics")
	}
	vsym.Assert(hx.U32(b, 78) == uint32(info.CodePageRange) && hx.U32(b, 82) == uint32(info.CodePageRange>>32), "OS/2: wrong code page range")
	vsym.Assert(i16(b, 86) == int(info.XHeight) && i16(b, 88) == int(info.CapHeight), "OS/2: wrong x-height or cap height")
	ur := info.UnicodeRange
	for k := range 4 {
		x, y := hx.U32(b, 42+4*k), ur[k]
		if k == 1 {
			// bit 57 is derived from the last character
			vsym.Assert((x&(1<<25) != 0) == (info.LastCharIndex == 0xFFFF), "OS/2: wrong bit 57 of the Unicode range")
			x &^= 1 << 25
			y &^= 1 << 25
		}
		vsym.Assert(x == y, "OS/2: wrong Unicode range")
	}

	back, err := os2.Read(bytes.NewReader(b))
	vsym.Assert(err == nil, "os2.Read fails")
	cmp := *info
	cmp.UnicodeRange = os2.UnicodeRange{hx.U32(b, 42), hx.U32(b, 46), hx.U32(b, 50), hx.U32(b, 54)}
	vsym.Assert(back.UnicodeRange == cmp.UnicodeRange, "Unicode range changed")
	vsym.Assert(back.CodePageRange == cmp.CodePageRange, "code page range changed")
	vsym.Assert(back.PermUse == cmp.PermUse && back.PermNoSubsetting == cmp.PermNoSubsetting && back.PermOnlyBitmap == cmp.PermOnlyBitmap, "permissions changed")
	vsym.Assert(back.IsBold == cmp.IsBold && back.IsItalic == cmp.IsItalic && back.IsRegular == cmp.IsRegular && back.IsOblique == cmp.IsOblique, "style changed")
	vsym.Assert(back.XHeight == cmp.XHeight && back.CapHeight == cmp.CapHeight, "heights changed")
	vsym.Assert(*back == cmp, "OS/2 data changed")
	vsym.ObserveBytes(b)
}

// H_OS2Read: an arbitrary OS/2 table of every version is decoded as
// specified.
//
//gosym: quick=6 thorough=60
func H_OS2Read() {
	l := []int{68, 78, 86, 96, 100}[vsym.Choose(5)]
	b := vsym.Bytes(l)
	ver := vsym.Choose(6)
	b[0], b[1] = 0, byte(ver)
	info, err := os2.Read(bytes.NewReader(b))
	if l > 68 && ver >= 2 && l < 90 {
		vsym.Assert(err != nil, "a truncated OS/2 table is accepted")
		return
	}
	vsym.Assert(err == nil, "a complete OS/2 table is rejected")
	fsType := hx.U16(b, 8)
	if ver >= 3 {
		vsym.Assert(info.PermNoSubsetting == (fsType&0x100 != 0) && info.PermOnlyBitmap == (fsType&0x200 != 0), "wrong embedding bits")
	}
	// the least restrictive permission counts
	want := os2.PermInstall
	switch {
	case fsType&8 != 0:
		want = os2.PermEdit
	case fsType&4 != 0:
		want = os2.PermView
	case fsType&2 != 0:
		want = os2.PermRestricted
	}
	vsym.Assert(info.PermUse == want, "wrong permission")
	sel := hx.U16(b, 62)
	vsym.Assert(info.IsRegular == (sel&0x40 != 0), "wrong IsRegular")
	vsym.Assert(info.IsItalic == (sel&1 != 0 && sel&0x40 == 0) && info.IsBold == (sel&0x20 != 0 && sel&0x40 == 0), "wrong style bits")
	vsym.Assert(info.IsOblique == (ver >= 4 && sel&0x200 != 0), "wrong IsOblique")
	vsym.Assert(int(info.WeightClass) == hx.U16(b, 4) && int(info.WidthClass) == hx.U16(b, 6), "wrong weight or width class")
	vsym.Assert(info.Vendor == string(b[58:62]), "wrong vendor")
	if l >= 78 {
		vsym.Assert(int(info.Ascent) == i16(b, 68) && int(info.Descent) == i16(b, 70) && int(info.LineGap) == i16(b, 72) && int(info.WinAscent) == i16(b, 74) && int(info.WinDescent) == i16(b, 76), "wrong vertical metrics")
		vsym.Reach("v0ms")
	}
	if l >= 90 && ver >= 2 {
		vsym.Assert(uint64(info.CodePageRange) == uint64(hx.U32(b, 78))|uint64(hx.U32(b, 82))<<32, "wrong code page range")
		x := i16(b, 86)
		vsym.Assert(int(info.XHeight) == vsym.IteInt(x > 0, x, 0), "wrong x-height")
		vsym.Reach("v2")
	}
	// a second cycle changes nothing
	c := info.Encode()
	back, err := os2.Read(bytes.NewReader(c))
	vsym.Assert(err == nil, "re-encoded OS/2 rejected")
	vsym.Assert(*back == *info, "OS/2 data changed in the second cycle")
}

// H_Post: the numeric fields; the angle is any multiple of 1/65536 degree.
//
//gosym: quick=4 thorough=60
func H_Post() {
	a := vsym.Int32()
	info := &post.Info{
		ItalicAngle:        float64(a) / 65536,
		UnderlinePosition:  fi(),
		UnderlineThickness: fi(),
		IsFixedPitch:       vsym.Bool(),
	}
	switch vsym.Choose(3) {
	case 1:
		info.Names = []string{".notdef", "A", "foo"}
	case 2:
		info.Names = []string{}
	}
	b := info.Encode()
	vsym.Assert(len(b) >= 32, "post: wrong length")
	vsym.Assert(hx.U32(b, 4) == uint32(a), "post: wrong italic angle")
	vsym.Assert(i16(b, 8) == int(info.UnderlinePosition) && i16(b, 10) == int(info.UnderlineThickness), "post: wrong underline metrics")
	vsym.Assert(hx.U32(b, 12) != 0 == info.IsFixedPitch, "post: wrong isFixedPitch")
	back, err := post.Read(bytes.NewReader(b))
	vsym.Assert(err == nil, "post.Read fails")
	vsym.Assert(back.ItalicAngle == info.ItalicAngle, "italic angle changed")
	vsym.Assert(back.UnderlinePosition == info.UnderlinePosition && back.UnderlineThickness == info.UnderlineThickness && back.IsFixedPitch == info.IsFixedPitch, "post data changed")
	vsym.ObserveBytes(b)
}
