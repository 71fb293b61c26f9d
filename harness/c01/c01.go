// Package c01 checks that writing and reading a font is lossless, and that
// one write/read cycle of an accepted file is a fixed point.
package c01

import (
	"bytes"
	"math"
	"strings"
	"time"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
)

func write(f *sfnt.Font, msg string) []byte {
	w := &hx.Buf{}
	n, err := f.Write(w)
	vsym.Assert(err == nil, msg+": cannot write the font")
	vsym.Assert(int(n) == len(w.B), msg+": wrong length returned")
	return w.B
}

func scaler(f *sfnt.Font) uint32 {
	if f.IsGlyf() {
		return 0x00010000
	}
	return 0x4F54544F
}

// writeTwice writes a font twice, with different map iteration orders, and
// checks the container.
func writeTwice(f *sfnt.Font, msg string) []byte {
	b := write(f, msg)
	vsym.MapOrder(1)
	b2 := write(f, msg)
	vsym.MapOrder(0)
	for i := 1; i < vsym.Repeat(); i++ {
		vsym.Assert(vsym.EqBytes(b, write(f, msg)), msg+": output is not reproducible")
	}
	sameBytes(b, b2, msg+": output is not reproducible")
	return b
}

// sameBytes compares two files.  The checksums are compared last.
func sameBytes(a, b []byte, msg string) {
	vsym.Assert(len(a) == len(b), msg)
	n := hx.U16(a, 4)
	end := 12 + 16*n
	vsym.Assert(vsym.EqBytes(a[:12], b[:12]), msg)
	for i := range n {
		p := 12 + 16*i
		vsym.Assert(vsym.EqBytes(a[p:p+4], b[p:p+4]), msg)
		vsym.Assert(vsym.EqBytes(a[p+8:p+16], b[p+8:p+16]), msg)
		if string(a[p:p+4]) == "head" {
			q := vsym.Concrete(int(hx.U32(a, p+8)))
			vsym.Assert(vsym.EqBytes(a[end:q+8], b[end:q+8]), msg)
			end = q + 12
		}
	}
	vsym.Assert(vsym.EqBytes(a[end:], b[end:]), msg)
	for i := range n {
		p := 12 + 16*i
		vsym.Assert(vsym.EqBytes(a[p+4:p+8], b[p+4:p+8]), msg)
	}
	if end > 12+16*n && vsym.IsConcrete(a) {
		// This field is determined by the rest of the file, see C03.
		vsym.Assert(vsym.EqBytes(a[end-4:end], b[end-4:end]), msg)
	}
}

func read(b []byte, msg string) *sfnt.Font {
	f, err := sfnt.Read(bytes.NewReader(b))
	if err != nil {
		vsym.Fail(msg + ": the output cannot be read: " + err.Error())
	}
	return f
}

// flat returns the parts of the outlines which are functions.
func flat(o sfnt.Outlines) []int {
	c, ok := o.(*cff.Outlines)
	if !ok {
		return nil
	}
	var res []int
	for i := range c.Glyphs {
		res = append(res, c.FDSelect(glyph.ID(i)))
	}
	return res
}

// equal compares two fonts.
func equal(got, want *sfnt.Font, msg string) {
	vsym.Assert(got.CreationTime.Equal(want.CreationTime), msg+": creation time differs")
	vsym.Assert(got.ModificationTime.Equal(want.ModificationTime), msg+": modification time differs")
	g, w := got.Clone(), want.Clone()
	if g.Gsub != nil && w.Gsub != nil {
		vsym.AssertEqual(g.Gsub, w.Gsub, msg+": GSUB")
		g.Gsub, w.Gsub = nil, nil
	}
	if g.Gpos != nil && w.Gpos != nil {
		vsym.AssertEqual(g.Gpos, w.Gpos, msg+": GPOS")
		g.Gpos, w.Gpos = nil, nil
	}
	vsym.AssertEqual(flat(g.Outlines), flat(w.Outlines), msg+": FDSelect")
	vsym.AssertEqual(*g, *w, msg+": font")
}

// normal applies the documented conventions for redundant fields, without
// touching any of the data which the file format can represent.
func normal(f *sfnt.Font) *sfnt.Font {
	n := f.Clone()
	n.ItalicAngle = math.Round(f.ItalicAngle*65536) / 65536
	n.IsItalic = f.IsItalic || f.IsOblique || f.ItalicAngle != 0
	n.UnderlinePosition = funit.Float64(math.Round(float64(f.UnderlinePosition)))
	n.UnderlineThickness = funit.Float64(math.Round(float64(f.UnderlineThickness)))
	n.Version = f.Version.Round()
	if o, ok := f.Outlines.(*cff.Outlines); ok && !o.IsCIDKeyed() && o.Encoding == nil {
		o2 := *o
		o2.Encoding = cff.StandardEncoding(o.Glyphs)
		n.Outlines = &o2
	}
	return n
}

func roundtrip(f *sfnt.Font) *sfnt.Font {
	b := writeTwice(f, "first write")
	if vsym.IsConcrete(b) {
		hx.CheckContainer(b, scaler(f))
	}
	g := read(b, "first read")
	equal(g, normal(f), "round trip")
	fixed(g)
	return g
}

// fixed checks that a font which was read from a file is a fixed point.
func fixed(f1 *sfnt.Font) {
	b1 := writeTwice(f1, "second write")
	f2 := read(b1, "second read")
	equal(f2, f1, "fixed point")
	b2 := write(f2, "third write")
	sameBytes(b1, b2, "fixed point: the bytes differ")
	vsym.Reach("fixed")
}

const numFonts = 6

func font(i int) *sfnt.Font {
	if i == 5 {
		f := fx.Layout()
		for _, s := range f.Gpos.LookupList[1].Subtables {
			// both or neither of the value records are present
			if s, ok := s.(gtab.Gpos2_1); ok {
				for _, a := range s {
					if a.Second == nil {
						a.Second = &gtab.GposValueRecord{}
					}
				}
			}
		}
		return f
	}
	f := fx.Corpus(i)
	if o, ok := f.Outlines.(*cff.Outlines); ok {
		for _, g := range o.Glyphs {
			g.Width = math.Floor(g.Width)
		}
	}
	return f
}

// small is one of the smaller fonts.
func small() *sfnt.Font {
	return font([]int{1, 2, 3}[vsym.Choose(3)])
}

// ---------------------------------------------------------------------------

// H_Metrics has arbitrary values for all numbers.
//
//gosym: quick=10 thorough=60
func H_Metrics() {
	f := small()
	f.UnitsPerEm = 16 + vsym.Uint16()
	vsym.Assume(f.UnitsPerEm >= 16 && f.UnitsPerEm <= 16384)
	if f.IsGlyf() {
		f.UnitsPerEm = uint16(vsym.Concrete(int(f.UnitsPerEm)))
		q := 1 / float64(f.UnitsPerEm)
		f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
	}
	f.Ascent = funit.Int16(vsym.Int16())
	f.Descent = funit.Int16(vsym.Int16())
	f.LineGap = funit.Int16(vsym.Int16())
	f.CapHeight = funit.Int16(vsym.Int(1, 32767))
	f.XHeight = funit.Int16(vsym.Int(1, 32767))
	f.CodePageRange = os2.CodePageRange(vsym.Uint64())
	roundtrip(f)
	vsym.Reach("metrics")
}

// H_Style has all combinations of the style flags.
//
//gosym: quick=30 thorough=120
func H_Style() {
	f := small()
	switch vsym.Choose(3) {
	case 0:
		f.FamilyName = []string{"Bold Italic", "Semi Bold"}[vsym.Choose(2)]
		f.Weight = os2.Weight([]int{400, 700}[vsym.Choose(2)])
	case 2:
		f.Weight = os2.Weight([]int{0, 100, 400, 600, 625, 660, 700, 800, 900}[vsym.Choose(9)])
	case 1:
		f.IsSerif = vsym.Bool()
		f.IsScript = vsym.Bool()
		vsym.Assume(!(f.IsSerif && f.IsScript))
		f.Width = os2.Width([]int{0, 1, 5, 9}[vsym.Choose(4)])
		f.PermUse = []os2.Permissions{os2.PermInstall, os2.PermEdit, os2.PermView, os2.PermRestricted}[vsym.Choose(4)]
	}
	f.IsBold = vsym.Bool()
	f.IsOblique = vsym.Bool()
	f.IsItalic = vsym.Or(f.IsOblique, vsym.Bool())
	f.IsRegular = vsym.Bool()
	vsym.Assume(vsym.Implies(f.IsRegular, vsym.And(!f.IsBold, !f.IsItalic)))
	if f.IsItalic && vsym.Choose(2) == 1 {
		f.ItalicAngle = []float64{-12.5, 1e-6}[vsym.Choose(2)]
	}
	roundtrip(f)
	vsym.Reach("style")
}

// H_Numbers has values with fractional parts, versions and dates.
//
//gosym: quick=10 thorough=60
func H_Numbers() {
	f := small()
	switch vsym.Choose(5) {
	case 0:
		f.Version = head.Version([]uint32{0, 1, 0x00010000, 0x00010001, 0x0000FFFF, 0x00018000, 0x000A3333, 0x7FFFFFFF, 0xFFFF0000, 0x12345678}[vsym.Choose(10)])
	case 1:
		f.UnderlinePosition = funit.Float64([]float64{0, -100.5, 33.25, 32767, -32768}[vsym.Choose(5)])
		f.UnderlineThickness = funit.Float64([]float64{0, 49.75, 32767, -32768}[vsym.Choose(4)])
	case 2:
		f.UnderlinePosition = funit.Float64(vsym.Int16())
		f.UnderlineThickness = funit.Float64(vsym.Int16())
	case 3:
		// dates are stored as seconds since 1904
		f.CreationTime = date(vsym.Choose(6))
		f.ModificationTime = date(vsym.Choose(6))
		vsym.Assume(!f.CreationTime.IsZero() || !f.ModificationTime.IsZero())
	case 4:
		f.ItalicAngle = []float64{-12.5, 3, -7.1234567, 20 + 1.0/65536, 1e-6, -89, 179}[vsym.Choose(7)]
		f.IsItalic = true
		f.IsRegular = false
		if f.IsCFF() {
			f.FontMatrix = []matrix.Matrix{{0.001, 0, 0, 0.001, 0, 0}, {0.001, 0, 0.0002, 0.001, 0, 0}, {0.0005, 0, 0, 0.0005, 0.125, -3}}[vsym.Choose(3)]
		}
	}
	roundtrip(f)
	vsym.Reach("numbers")
}

func date(i int) time.Time {
	switch i {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(0, 0)
	case 2:
		return time.Unix(1700000000, 0).UTC()
	case 3: // before 1904
		return time.Unix(-2082844801, 0)
	case 4: // after 2040
		return time.Unix(2300000000, 0)
	default:
		return time.Date(2024, 2, 29, 23, 59, 59, 0, time.FixedZone("X", -3*3600))
	}
}

// H_Strings has all the strings.
//
//gosym: quick=10 thorough=60
func H_Strings() {
	f := small()
	ss := []string{"", "a", "Ünï ©", "日本語 \U0001F600", " x ", strings.Repeat("long ", 60)}
	k := vsym.Choose(len(ss))
	s := ss[k]
	if k == 1 {
		b := []byte{vsym.Byte(), vsym.Byte()}
		vsym.Assume(b[0] >= 0x20 && b[0] < 0x7f && b[1] >= 0x20 && b[1] < 0x7f)
		s = string(b)
	}
	for i, p := range []*string{&f.Description, &f.SampleText, &f.Copyright, &f.Trademark, &f.License, &f.LicenseURL} {
		*p = []string{"description", "sample", "copyright", "trademark", "license", "https://x"}[i]
	}
	switch vsym.Choose(8) {
	case 0:
		if s != "" && k != 5 {
			f.FamilyName = s
		}
	case 1:
		f.Description = s
	case 2:
		f.SampleText = s
	case 3:
		f.Copyright = s
	case 4:
		f.Trademark = s
	case 5:
		f.License = s
	case 6:
		f.LicenseURL = s
	case 7:
		f.Description, f.SampleText, f.Copyright, f.Trademark, f.License, f.LicenseURL = s, s, s, s, s, s
	}
	roundtrip(f)
	vsym.Reach("strings")
}

// H_Glyf has TrueType outlines of all kinds.
//
//gosym: quick=20 thorough=120
func H_Glyf() {
	n := 1 + vsym.Choose(5)
	var gg glyf.Glyphs
	var ww []funit.Int16
	for i := range n {
		switch k := vsym.Choose(5); {
		case k == 0:
			gg = append(gg, nil)
		case k == 1:
			c := fx.Comp(glyph.ID(vsym.Choose(n)), glyph.ID(vsym.Choose(n)), int8(vsym.Int(-128, 127)), -3)
			if vsym.Choose(2) == 0 {
				d := c.Data.(glyf.CompositeGlyph)
				d.Components[1].Flags |= glyf.FlagWeHaveInstructions
				d.Instructions = vsym.Bytes(1 + vsym.Choose(3))
				c.Data = d
			}
			gg = append(gg, c)
		default:
			g := fx.Tri(vsym.Int16(), vsym.Int16(), vsym.Int16(), vsym.Int16())
			if k == 2 { // data which is not a multiple of 4 bytes
				d := g.Data.(glyf.SimpleGlyph)
				d.Encoded = append([]byte{0, 2, 0, byte(i), 9, 9, 9, 9}[:4+i], d.Encoded[4:]...)
				g.Data = d
			}
			vsym.Assume(g.Rect16 != funit.Rect16{})
			gg = append(gg, g)
		}
		ww = append(ww, funit.Int16(vsym.Int(0, 32767)))
	}
	f := fx.Glyf(1000, gg, ww)
	o := f.Outlines.(*glyf.Outlines)
	switch vsym.Choose(3) {
	case 0:
		o.Tables = map[string][]byte{"cvt ": {0, 1}, "fpgm": vsym.Bytes(3), "prep": {7}, "gasp": {0, 1, 0, 1, 0xFF, 0xFF, 0, 3}}
	case 1:
		o.Names = []string{".notdef", "space", "A", "f_i", "x.alt"}[:n]
	}
	if vsym.Choose(2) == 0 {
		o.Maxp = &maxp.TTFInfo{
			MaxPoints: vsym.Uint16(), MaxContours: vsym.Uint16(), MaxCompositePoints: vsym.Uint16(), MaxCompositeContours: vsym.Uint16(),
			MaxZones: vsym.Uint16(), MaxTwilightPoints: vsym.Uint16(), MaxStorage: vsym.Uint16(), MaxFunctionDefs: vsym.Uint16(),
			MaxInstructionDefs: vsym.Uint16(), MaxStackElements: vsym.Uint16(), MaxSizeOfInstructions: vsym.Uint16(),
			MaxComponentElements: vsym.Uint16(), MaxComponentDepth: vsym.Uint16(),
		}
	}
	roundtrip(f)
	vsym.Reach("glyf")
}

// H_CFF has CFF outlines, simple or CID-keyed.
//
//gosym: quick=20 thorough=120
func H_CFF() {
	n := 1 + vsym.Choose(4)
	isCID := vsym.Choose(2) == 1
	shape := vsym.Choose(3)
	aspect := vsym.Choose(3)
	value := func(k, lo, hi int) float64 {
		if k != aspect {
			return float64(lo)
		}
		aspect = -1
		return float64(vsym.Int(lo, hi))
	}
	var gg []*cff.Glyph
	for i := range n {
		name := ""
		if !isCID {
			name = []string{".notdef", "A", "zzz", "f_i"}[i]
		}
		w := value(0, 400+i, 2000)
		g := cff.NewGlyph(name, w)
		switch (shape + i) % 3 {
		case 1:
			g = fx.Box(name, w, value(1, -200, 200), 10, 300, value(1, 400, 1500))
		case 2:
			g.MoveTo(10, 20)
			g.CurveTo(1.5, 2.25, 30, 40, value(1, 50, 60), 60)
			g.LineTo(100, 0)
			g.HStem = []float64{10, value(2, 11, 60)}
			g.VStem = []float64{0, 20, 30, 50}
		}
		gg = append(gg, g)
	}
	var f *sfnt.Font
	if !isCID {
		f = fx.CFF(1000, gg)
		o := f.Outlines.(*cff.Outlines)
		switch vsym.Choose(3) {
		case 0:
			o.Encoding = cff.StandardEncoding(gg)
		case 1:
			o.Encoding = make([]glyph.ID, 256)
			o.Encoding[vsym.Choose(3)*100] = glyph.ID(n - 1)
		case 2:
			// a font without a built-in encoding
			o.Encoding = make([]glyph.ID, 256)
		}
		o.Private[0].StdHW = float64(shape * 30)
		o.Private[0].BlueValues = []funit.Int16{-20, 0, 500, 510}
		o.Private[0].ForceBold = vsym.Bool()
	} else {
		cids := []cid.CID{0}
		fd := []int{0}
		gap := vsym.Choose(2) * 1000
		for i := 1; i < n; i++ {
			cids = append(cids, cids[i-1]+cid.CID(1+(i-1)*gap))
			fd = append(fd, (i+shape)%2)
		}
		f = fx.CID(1000, gg, cids, fd, []matrix.Matrix{matrix.Identity, {0.5, 0, 0, 0.5, 0, 0}})
		f.Outlines.(*cff.Outlines).ROS = &cid.SystemInfo{Registry: "Reg", Ordering: "Ord", Supplement: int32(shape * 7)}
	}
	roundtrip(f)
	vsym.Reach("cff")
}

// H_Map has character maps of all kinds.
//
//gosym: quick=10 thorough=60
func H_Map() {
	f := font(2)
	g := func() glyph.ID { return glyph.ID(vsym.Int(0, 3)) }
	f.CMapTable = cmap.Table{}
	switch vsym.Choose(4) {
	case 0:
		s := cmap.Format4{65: g(), 66: g(), 0x3b1: g(), 0xFFFF: 2}
		f.InstallCMap(s)
	case 1:
		s := cmap.Format12{65: g(), 0x10000: g(), 0x10FFFF: 1}
		f.InstallCMap(s)
	case 2:
		l := vsym.Uint16()
		f.CMapTable[cmap.Key{PlatformID: 1, EncodingID: 0, Language: l}] = append([]byte{0, 0, 1, 6, byte(l >> 8), byte(l)}, vsym.Bytes(256)...)
		f.CMapTable[cmap.Key{PlatformID: 0, EncodingID: 3}] = cmap.Format4{65: 1}.Encode(0)
		f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 1}] = cmap.Format4{65: 2}.Encode(0)
	case 3:
		// no subtables
	}
	roundtrip(f)
	vsym.Reach("map")
}

// H_Corpus writes complete fonts, with values taken from the whole range.
//
//gosym: quick=15 thorough=60
func H_Corpus() {
	f := font(vsym.Choose(numFonts))
	if f.Gpos != nil {
		for _, l := range f.Gpos.LookupList {
			for _, s := range l.Subtables {
				if s, ok := s.(gtab.Gpos2_1); ok {
					for _, a := range s {
						a.First.XAdvance = funit.Int16(vsym.Int16())
						vsym.Assume(a.First.XAdvance != 0)
					}
				}
			}
		}
	}
	roundtrip(f)
	vsym.Reach("corpus")
}

// H_Ligatures checks the ligatures which are added to fonts without GSUB.
//
//gosym: quick=10 thorough=30
func H_Ligatures() {
	f := font(2)
	f.Gsub = nil
	s := cmap.Format4{'f': 1, 'i': 2, 'l': 3}
	for _, c := range []uint16{0xFB00, 0xFB01, 0xFB03} {
		s[c] = glyph.ID(vsym.Int(0, 3))
	}
	f.InstallCMap(s)
	g := read(write(f, "first write"), "first read")
	fixed(g)
}

// H_Large has many glyphs.
//
//gosym: thorough=200 thoroughonly
func H_Large() {
	n := []int{255, 256, 257, 1000, 65535}[vsym.Choose(5)]
	var f *sfnt.Font
	if vsym.Choose(2) == 0 {
		gg := make(glyf.Glyphs, n)
		gg[n-1] = fx.Tri(1, 2, 3, 4)
		gg[0] = fx.Tri(1, 2, 3, 4)
		ww := make([]funit.Int16, n)
		ww[n/2] = funit.Int16(vsym.Int(0, 1000))
		f = fx.Glyf(1000, gg, ww)
	} else {
		var gg []*cff.Glyph
		for i := range n {
			gg = append(gg, cff.NewGlyph("", float64(i%3)))
		}
		cids := make([]cid.CID, n)
		fd := make([]int, n)
		for i := range cids {
			cids[i] = cid.CID(i)
			fd[i] = i * 2 / n
		}
		f = fx.CID(1000, gg, cids, fd, []matrix.Matrix{matrix.Identity, {0.5, 0, 0, 0.5, 0, 0}})
	}
	roundtrip(f)
	vsym.Reach("large")
}

// ---------------------------------------------------------------------------

func join(t map[string][]byte, isGlyf bool) []byte {
	s := uint32(0x4F54544F)
	if isGlyf {
		s = 0x00010000
	}
	w := &hx.Buf{}
	_, err := header.Write(w, s, t)
	vsym.Assert(err == nil, "cannot write the tables")
	return w.B
}

func accept(b []byte) {
	f, err := sfnt.Read(bytes.NewReader(b))
	if err != nil {
		return
	}
	fixed(f)
	vsym.Reach("accepted")
}

// H_Missing leaves out tables.
//
//gosym: quick=30 thorough=120
func H_Missing() {
	f := fx.Corpus(vsym.Choose(5))
	k := vsym.Choose(4)
	if o, ok := f.Outlines.(*cff.Outlines); ok {
		o.Glyphs[0].Width += []float64{0, 0.5, 40000, -40000}[k]
	}
	f.UnderlinePosition = -100.5
	f.ItalicAngle = []float64{0, 0.1, 1e6, 0}[k]
	t := hx.Tables(write(f, "first write"))
	for _, name := range [][]string{{"name"}, {"OS/2"}, {"post"}, {"head"}, {"hhea", "hmtx"}, {"cmap"}, {"maxp"}} {
		if vsym.Choose(2) == 1 {
			for _, s := range name {
				delete(t, s)
			}
		}
	}
	delete(t, "GSUB")
	accept(join(t, f.IsGlyf()))
}

// H_Fields has arbitrary values in the small tables.
//
//gosym: quick=60 thorough=300
func H_Fields() {
	f := fx.Corpus([]int{0, 2}[vsym.Choose(2)])
	f.Gsub, f.Gdef, f.Gpos = nil, nil, nil
	t := hx.Tables(write(f, "first write"))
	name := []string{"head", "OS/2", "hhea", "hmtx", "maxp", "post", "name", "cmap", "CFF ", "glyf", "loca"}[vsym.Choose(11)]
	b, ok := t[name]
	vsym.Assume(ok)
	b = hx.Clone(b)
	p := vsym.Choose((len(b) + 1) / 2)
	if name == "head" && p >= 10 && p < 18 || name == "hhea" && p >= 9 && p < 11 {
		// dates and caret slopes: concrete values
		for i := range 2 {
			b[2*p+i] = []byte{0, 0x80, 0xFF, 1}[vsym.Choose(4)]
		}
	} else {
		for i := 2 * p; i < 2*p+2 && i < len(b); i++ {
			b[i] = vsym.ByteD(b[i])
		}
	}
	t[name] = b
	accept(join(t, f.IsGlyf()))
}

// H_Kern reads the legacy kern table.
//
//gosym: quick=10 thorough=60
func H_Kern() {
	f := font([]int{0, 2}[vsym.Choose(2)])
	f.Gpos = nil
	t := hx.Tables(write(f, "first write"))
	n := vsym.Choose(3)
	k := []byte{0, 0, 0, 1, 0, 0, 0, byte(14 + 6*n), 0, 1, 0, byte(n), 0, 6, 0, 0, 0, 0}
	for range n {
		k = append(k, 0, byte(vsym.Int(0, 3)), 0, byte(vsym.Int(0, 3)), vsym.Byte(), vsym.Byte())
	}
	t["kern"] = k
	accept(join(t, f.IsGlyf()))
}

// H_Styles has style information which is not consistent.
//
//gosym: quick=30 thorough=120
func H_Styles() {
	f := font(1 + vsym.Choose(2))
	f.FamilyName = []string{"Test", "Bold"}[vsym.Choose(2)]
	f.IsRegular = vsym.Bool()
	f.IsOblique = vsym.Bool()
	t := hx.Tables(write(f, "first write"))
	w := hx.Clone(t["OS/2"])
	weight := []int{400, 600, 700}[vsym.Choose(3)]
	w[4], w[5] = byte(weight>>8), byte(weight)
	w[62], w[63] = vsym.Byte(), vsym.Byte() // fsSelection
	w[30] = byte(vsym.Int(0, 12))           // family class
	t["OS/2"] = w
	h := hx.Clone(t["head"])
	h[45] = vsym.Byte() // macStyle
	t["head"] = h
	g := small()
	g.FamilyName = "Other"
	switch vsym.Choose(5) {
	case 1:
		g.IsBold = true
	case 2:
		g.IsItalic = true
	case 3:
		g.Weight = 600
	case 4:
		g.Weight = 800
	}
	t["name"] = hx.Tables(write(g, "first write"))["name"]
	accept(join(t, f.IsGlyf()))
}

// H_Versions has unusual version strings.
//
//gosym: quick=10 thorough=30
func H_Versions() {
	f := font(2)
	t := hx.Tables(write(f, "first write"))
	n := hx.Clone(t["name"])
	// replace all copies of the string "Version 1.000"
	s := [][]byte{[]byte("Version 1.0005"), []byte("Version 1.2346"), []byte("Version 70001."), []byte("Version 0.0000"), []byte("Version xxxxxx"), []byte("9999999999.999")}[vsym.Choose(6)][:13]
	old := []byte("Version 1.000")
	w, ws := wide(old), wide(s)
	for i := 0; i+len(old) <= len(n); i++ {
		if string(n[i:i+len(old)]) == string(old) {
			copy(n[i:], s)
		}
		if i+len(w) <= len(n) && string(n[i:i+len(w)]) == string(w) {
			copy(n[i:], ws)
			vsym.Reach("version")
		}
	}
	t["name"] = n
	h := hx.Clone(t["head"])
	copy(h[4:8], []string{"\x00\x01\x00\x00", "\xff\xff\xff\xff", "\x80\x00\xff\x80", "\x00\x00\x00\x01", "\x12\x34\x56\x78"}[vsym.Choose(5)])
	t["head"] = h
	if vsym.Choose(2) == 1 {
		delete(t, "name")
	}
	accept(join(t, f.IsGlyf()))
}

func wide(s []byte) []byte {
	var res []byte
	for _, c := range s {
		res = append(res, 0, c)
	}
	return res
}
