// Package c02 checks that the decoders return normally for arbitrary bytes.
//
// Panics, excessive memory use and excessive run time are reported by the
// executor.  Every decoder is run on short inputs where all bytes are
// symbolic, and on valid data where a window of bytes is replaced by symbolic
// bytes, or which is truncated.
package c02

import (
	"bytes"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/parser"
	"seehuhn.de/go/sfnt/post"
)

// The inputs used are short (less than 10k bytes), so that the constant
// in the bounds dominates.
const (
	allocLimit = 1 << 28
	stepLimit  = 200_000_000
	ampLimit   = 1_000_000_000
)

// guard runs a decoder with limits.
func guard(f func()) { guardN(stepLimit, f) }

func guardN(steps int, f func()) { guardAlloc(allocLimit, steps, f) }

func guardAlloc(size, steps int, f func()) {
	vsym.AllocLimit(size)
	vsym.StepLimit(steps)
	f()
	vsym.StepCheck()
	vsym.AllocCheck()
}

// mutate returns a corrupted copy of valid data.
func mutate(valid []byte, window int) []byte {
	b := hx.Clone(valid)
	p := vsym.Choose(len(b))
	if vsym.Choose(8) == 7 {
		return b[:p]
	}
	if vsym.Thorough() {
		window *= 2
	}
	if p&1 == 1 && p+1 < len(b) {
		// most fields are 16 bits
		p--
	}
	for i := p; i < p+window && i < len(b); i++ {
		b[i] = vsym.ByteD(b[i])
	}
	if vsym.Thorough() && vsym.Choose(2) == 1 {
		q := vsym.Choose(len(b))
		b[q] = vsym.ByteD(b[q])
	}
	return b
}

// short returns a short string, where all the bytes are symbolic.
func short(prefix []byte, n int) []byte {
	if vsym.Thorough() {
		n += 8
	}
	return append(hx.Clone(prefix), vsym.Bytes(vsym.Choose(n+1))...)
}

// input combines the two.
func input(templates [][]byte, window int, prefixes [][]byte, n int) []byte {
	k := vsym.Choose(len(templates) + len(prefixes) + 1)
	if k < len(templates) {
		return mutate(templates[k], window)
	}
	k -= len(templates)
	if k < len(prefixes) {
		return short(prefixes[k], n)
	}
	return short(nil, n)
}

func be(xx ...int) []byte {
	var b []byte
	for _, x := range xx {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

func tables(f *sfnt.Font) map[string][]byte {
	w := &hx.Buf{}
	_, err := f.Write(w)
	vsym.Assert(err == nil, "cannot write the font")
	return hx.CheckContainer(w.B, hx.U32(w.B, 0))
}

// ---------------------------------------------------------------------------

//gosym: quick=8 thorough=60
func H_Header() {
	w := &hx.Buf{}
	_, err := header.Write(w, 0x00010000, map[string][]byte{"head": make([]byte, 54), "abcd": {1, 2, 3}})
	vsym.Assert(err == nil, "cannot write the tables")
	b := input([][]byte{w.B}, 4, [][]byte{be(1, 0, 2, 0, 0, 0), {'O', 'T', 'T', 'O', 0, 1, 0, 0, 0, 0, 0, 0}}, 17)
	guard(func() {
		info, err := header.Read(&hx.At{B: b})
		if err != nil {
			return
		}
		vsym.Reach("ok")
		for name := range info.Toc {
			r, err := info.TableReader(&hx.At{B: b}, name)
			if err == nil {
				buf := make([]byte, 10)
				r.Read(buf)
			}
			info.ReadTableBytes(&hx.At{B: b}, name)
		}
		info.Has("head", "abcd")
	})
}

func useSubtable(s cmap.Subtable) {
	for _, r := range []rune{-1, 0, 'A', 0xFFFF, 0x10000, 0x10FFFF, 0x7FFFFFFF} {
		s.Lookup(r)
	}
	s.Lookup(rune(vsym.Int32D(66)))
	s.CodeRange()
}

//gosym: quick=12 thorough=150
func H_Cmap() {
	prefix := [][]byte{be(0, 1, 3, 1, 0, 12), be(0, 1, 1, 0, 0, 12), be(0, 1, 0, 4, 0, 12), be(0, 2)}
	for _, f := range []int{4, 6, 12} {
		prefix = append(prefix, be(0, 1, 3, 1, 0, 12, f))
	}
	b := input(fx.CmapTables(), 4, prefix, 16)
	guard(func() {
		table, err := cmap.Decode(b)
		if err != nil {
			return
		}
		vsym.Reach("ok")
		for key := range table {
			s, err := table.Get(key)
			if err == nil {
				vsym.Reach("subtable")
				useSubtable(s)
			}
			s, err = table.GetNoLang(key.PlatformID, key.EncodingID)
			if err == nil {
				useSubtable(s)
				s.Encode(0)
			}
		}
		s, err := table.GetBest()
		if err == nil {
			useSubtable(s)
		}
		table.Encode()
	})
}

// H_CmapSubtable has arbitrary subtable contents.
//
//gosym: quick=10 thorough=100
func H_CmapSubtable() {
	var sub []byte
	switch vsym.Choose(4) {
	case 0: // format 4, two segments
		sub = append(be(4, 40, 0, 4, 0, 0, 0), vsym.Bytes(26)...)
		sub[15] = 5
		sub[14] = 0
	case 1: // format 12, two groups
		sub = append(be(12, 0, 0, 40, 0, 0, 0, 2), vsym.Bytes(24)...)
	case 2:
		sub = append(be(6, 14), vsym.Bytes(10)...)
	case 3: // format 4, one segment
		sub = append(be(4, 30, 0), vsym.Bytes(24)...)
	}
	key := cmap.Key{PlatformID: []uint16{0, 1, 3}[vsym.Choose(3)]}
	guard(func() {
		s, err := cmap.Table{key: sub}.Get(key)
		if err == nil {
			vsym.Reach("ok")
			useSubtable(s)
		}
	})
}

// ---------------------------------------------------------------------------

func useGlyphs(gg glyf.Glyphs) {
	for _, g := range gg {
		if g == nil {
			continue
		}
		g.Components()
		if s, ok := g.Data.(glyf.SimpleGlyph); ok {
			d, err := s.Decode()
			if err == nil {
				vsym.Reach("simple")
				_ = d
			}
		}
	}
}

//gosym: quick=10 thorough=150
func H_Glyf() {
	enc := glyf.Glyphs{fx.Tri(10, 0, 500, 700), nil, fx.Comp(0, 2, 5, -6)}.Encode()
	k := vsym.Choose(4)
	switch k {
	case 0:
		enc.GlyfData = mutate(enc.GlyfData, 4)
	case 1:
		enc.LocaData = mutate(enc.LocaData, 4)
	case 2: // arbitrary glyph data
		prefix := [][]byte{be(1, 0, 0, 0, 0), be(0xFFFF, 0, 0, 0, 0), be(0, 0, 0, 0, 0), be(2, 0, 0, 0, 0, 0, 1)}
		enc.GlyfData = input(nil, 0, prefix, 12)
		n := len(enc.GlyfData)
		enc.LocaData = be(0, 0, 0, n)
		enc.LocaFormat = 1
	case 3:
		enc.LocaData = vsym.Bytes(vsym.Choose(9))
		enc.LocaFormat = int16(vsym.Choose(3))
	}
	guard(func() {
		gg, err := glyf.Decode(enc)
		if err != nil {
			return
		}
		vsym.Reach("ok")
		useGlyphs(gg)
		gg.Encode()
	})
}

// H_SimpleGlyph decodes the points of arbitrary simple glyphs.
//
//gosym: quick=8 thorough=120
func H_SimpleGlyph() {
	g := glyf.SimpleGlyph{NumContours: int16(vsym.Choose(4)), Encoded: short(nil, 16)}
	guard(func() {
		d, err := g.Decode()
		if err == nil {
			vsym.Reach("ok")
			_ = d
		}
	})
}

// ---------------------------------------------------------------------------

func useGtab(b []byte, tp gtab.Type) {
	guard(func() {
		info, err := gtab.Read(bytes.NewReader(b), tp)
		if err != nil {
			return
		}
		vsym.Reach("ok")
		info.FindLookups(language.German, map[string]bool{"test": true})
		info.Encode()
	})
}

//gosym: quick=20 thorough=300
func H_Gsub() {
	useGtab(mutate(pick(fx.GsubTables()), 2), gtab.TypeGsub)
}

//gosym: quick=20 thorough=300
func H_Gpos() {
	useGtab(mutate(pick(fx.GposTables()), 2), gtab.TypeGpos)
}

func pick(x [][]byte) []byte { return x[vsym.Choose(len(x))] }

// H_GtabShort reads short tables and tables with a single, arbitrary
// subtable.
//
//gosym: quick=15 thorough=300
func H_GtabShort() {
	tp := []gtab.Type{gtab.TypeGsub, gtab.TypeGpos}[vsym.Choose(2)]
	var b []byte
	switch vsym.Choose(4) {
	case 0:
		b = short(be(1, 0), 10)
	case 1:
		b = short(be(1, 0, 10, 12, 14, 0, 0, 1, 4, 1+vsym.Choose(9), 0, 1, 8), 12)
	case 2: // extension subtables
		t := 7
		if tp == gtab.TypeGpos {
			t = 9
		}
		b = short(be(1, 0, 10, 12, 14, 0, 0, 1, 4, t, 0, 1, 8, 1, 1+vsym.Choose(9), 0, 8), 10)
	case 3: // script and feature lists
		b = short(be(1, 0, 14, 10, 12, 0, 0), 14)
	}
	useGtab(b, tp)
}

//gosym: quick=15 thorough=150
func H_Gdef() {
	t := &gdef.Table{
		GlyphClass:      classdef.Table{1: 1, 2: 2, 3: 3, 4: 3},
		MarkAttachClass: classdef.Table{3: 1, 7: 2},
		MarkGlyphSets:   []coverage.Set{{3: true}, {4: true, 5: true}},
	}
	prefix := [][]byte{be(1, 0, 12, 0, 0, 12), be(1, 2, 0, 0, 0, 0, 14), be(1, 3, 0, 0, 0, 0, 18, 0, 0)}
	b := input([][]byte{t.Encode()}, 2, prefix, 14)
	guard(func() {
		t, err := gdef.Read(bytes.NewReader(b))
		if err != nil {
			return
		}
		vsym.Reach("ok")
		t.IsMark(3)
		t.Encode()
	})
}

//gosym: quick=10 thorough=100
func H_Coverage() {
	t := [][]byte{
		coverage.Table{1: 0, 3: 1, 7: 2}.Encode(),
		coverage.Table{1: 0, 2: 1, 3: 2, 4: 3, 5: 4, 6: 5, 9: 6, 10: 7, 11: 8, 12: 9}.Encode(),
	}
	b := input(t, 2, [][]byte{be(1), be(2), be(2, 2)}, 12)
	guard(func() {
		t, err := coverage.Read(parser.New(bytes.NewReader(b)), 0)
		if err == nil {
			vsym.Reach("table")
			t.Contains(3)
			t.Glyphs()
			t.Encode()
			t.ToSet()
			t.Prune(2)
			t.Encode()
		}
		s, err := coverage.ReadSet(parser.New(bytes.NewReader(b)), 0)
		if err == nil {
			vsym.Reach("set")
			s.ToTable().Encode()
		}
	})
}

//gosym: quick=10 thorough=100
func H_ClassDef() {
	t := [][]byte{
		classdef.Table{1: 1, 2: 2, 3: 1, 4: 2}.Append(nil),
		classdef.Table{1: 1, 2: 1, 3: 1, 400: 2}.Append(nil),
	}
	b := input(t, 2, [][]byte{be(1), be(2), be(2, 2)}, 12)
	guard(func() {
		t, err := classdef.Read(parser.New(bytes.NewReader(b)), 0)
		if err == nil {
			vsym.Reach("ok")
			t.NumClasses()
			t.Glyphs()
			x := t.Append(nil)
			vsym.Assert(len(x) == t.AppendLen(), "wrong length")
		}
	})
}

// ---------------------------------------------------------------------------

//gosym: quick=10 thorough=100
func H_Name() {
	t := &name.Info{
		Windows: name.Tables{"en-US": {Family: "A", Version: "é"}},
		Mac:     name.Tables{"en": {Family: "B"}},
	}
	b := input([][]byte{t.Encode(1)}, 3, [][]byte{be(0, 1, 18, 3, 1, 0x409), be(0, 1, 18, 1, 0, 0), be(1, 0, 8), be(0, 1)}, 14)
	guard(func() {
		t, err := name.Decode(b)
		if err != nil {
			return
		}
		vsym.Reach("ok")
		for _, t := range t.Windows {
			_ = t.Family
		}
		t.Encode(1)
	})
}

//gosym: quick=8 thorough=60
func H_Head() {
	b := tables(fx.Corpus(1))["head"]
	b = input([][]byte{b}, 4, [][]byte{b[:18]}, 10)
	guard(func() {
		h, err := head.Read(bytes.NewReader(b))
		if err == nil {
			vsym.Reach("ok")
			h.Encode()
			_ = h.FontRevision.String()
		}
	})
}

//gosym: quick=8 thorough=60
func H_Hmtx() {
	t := tables(fx.Corpus(0))
	hhea, mtx := t["hhea"], t["hmtx"]
	switch vsym.Choose(3) {
	case 0:
		hhea = mutate(hhea, 4)
	case 1:
		mtx = mutate(mtx, 2)
	case 2:
		hhea = append(hx.Clone(hhea[:len(hhea)-2]), vsym.Byte(), vsym.Byte())
		mtx = short(nil, 8)
	}
	guard(func() {
		h, err := hmtx.Decode(hhea, mtx)
		if err == nil {
			vsym.Reach("ok")
			h.Encode()
		}
	})
}

//gosym: quick=6 thorough=60
func H_Maxp() {
	b := input([][]byte{tables(fx.Corpus(0))["maxp"], tables(fx.Corpus(2))["maxp"]}, 4, [][]byte{be(0, 0x5000), be(1, 0)}, 8)
	guard(func() {
		h, err := maxp.Read(bytes.NewReader(b))
		if err == nil {
			vsym.Reach("ok")
			h.Encode()
		}
	})
}

//gosym: quick=8 thorough=60
func H_OS2() {
	b := tables(fx.Corpus(0))["OS/2"]
	b = input([][]byte{b}, 4, [][]byte{b[:68], b[:78]}, 20)
	guard(func() {
		h, err := os2.Read(bytes.NewReader(b))
		if err == nil {
			vsym.Reach("ok")
			h.Encode()
		}
	})
}

//gosym: quick=10 thorough=60
func H_Post() {
	t := tables(fx.Corpus(0))["post"]
	b := input([][]byte{t, tables(fx.Corpus(2))["post"]}, 4, [][]byte{t[:32], append(hx.Clone(t[:32]), 0, 2)}, 8)
	guard(func() {
		h, err := post.Read(bytes.NewReader(b))
		if err == nil {
			vsym.Reach("ok")
			h.Encode()
		}
	})
}

//gosym: quick=8 thorough=60
func H_Kern() {
	b := kern.Info{glyph.Pair{Left: 1, Right: 2}: 3, glyph.Pair{Left: 3, Right: 2}: -3}.Encode()
	b = input([][]byte{b}, 4, [][]byte{be(0, 1), be(0, 2, 0, 14, 1)}, 12)
	guard(func() {
		h, err := kern.Read(bytes.NewReader(b))
		if err == nil {
			vsym.Reach("ok")
			h.Encode()
		}
	})
}

// ---------------------------------------------------------------------------

func useCFF(f *cff.Font) {
	n := f.NumGlyphs()
	f.Widths()
	f.WidthsPDF()
	f.WidthsMapPDF()
	f.FontBBoxPDF()
	f.BBox()
	f.BuiltinEncoding()
	for i := range n {
		f.GlyphWidthPDF(glyph.ID(i))
		f.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i))
		f.Glyphs[i].Extent()
		f.FDSelect(glyph.ID(i))
	}
	f.Write(&hx.Buf{})
}

//gosym: quick=25 thorough=300
func H_CFF() {
	var f *sfnt.Font
	k := vsym.Choose(3)
	switch k {
	case 0:
		f = fx.Corpus(2)
	case 1:
		f = fx.Corpus(3)
	case 2:
		f = fx.Corpus(4)
	}
	w := &hx.Buf{}
	vsym.Assert(f.AsCFF().Write(w) == nil, "cannot write the font")
	b := mutate(w.B, 2)
	guard(func() {
		f, err := cff.Read(bytes.NewReader(b))
		if err != nil {
			return
		}
		vsym.Reach("ok")
		useCFF(f)
	})
}

func useFont(f *sfnt.Font) {
	n := f.NumGlyphs()
	f.Widths()
	f.WidthsPDF()
	f.WidthsMapPDF()
	f.FontBBox()
	f.FontBBoxPDF()
	f.GlyphBBoxes()
	f.IsFixedPitch()
	f.GetFontInfo()
	f.BuiltinEncoding()
	f.PostScriptName()
	f.FullName()
	f.Subfamily()
	f.Clone()
	for i := range n {
		f.GlyphWidth(glyph.ID(i))
		f.GlyphWidthPDF(glyph.ID(i))
		f.GlyphBBox(glyph.ID(i))
		f.GlyphName(glyph.ID(i))
	}
	for key := range f.CMapTable {
		s, err := f.CMapTable.Get(key)
		if err == nil {
			useSubtable(s)
		}
	}
	if s, err := f.CMapTable.GetBest(); err == nil {
		useSubtable(s)
	}
	if f.IsGlyf() {
		useGlyphs(f.Outlines.(*glyf.Outlines).Glyphs)
		f.WriteTrueTypePDF(&hx.Buf{})
	} else {
		f.AsCFF().Write(&hx.Buf{})
		f.WriteOpenTypeCFFPDF(&hx.Buf{})
	}
	f.Write(&hx.Buf{})
}

// H_Font reads complete fonts, with a few bytes changed.
//
//gosym: quick=45 thorough=600
func H_Font() {
	k := vsym.Choose(5)
	w := &hx.Buf{}
	_, err := fx.Corpus(k).Write(w)
	vsym.Assert(err == nil, "cannot write the font")
	b := mutate(w.B, 2)
	guard(func() {
		f, err := sfnt.Read(bytes.NewReader(b))
		if err != nil {
			return
		}
		vsym.Reach("ok")
		useFont(f)
	})
}

// H_FontTables combines tables from different fonts, so that the tables do
// not fit together.
//
//gosym: quick=20 thorough=300
func H_FontTables() {
	t := tables(fx.Corpus(vsym.Choose(5)))
	names := []string{"head", "hhea", "hmtx", "maxp", "OS/2", "post", "name", "cmap", "CFF ", "glyf", "loca", "GSUB", "GPOS", "GDEF"}
	k := vsym.Choose(len(names))
	other := tables(fx.Corpus(vsym.Choose(5)))[names[k]]
	if other != nil && vsym.Choose(4) > 0 {
		t[names[k]] = other
		if names[k] == "glyf" || names[k] == "CFF " {
			delete(t, "maxp")
		}
	} else {
		delete(t, names[k])
	}
	if h, ok := t["maxp"]; ok && vsym.Choose(2) == 1 {
		h = hx.Clone(h)
		h[4], h[5] = vsym.Byte(), vsym.ByteD(h[5])
		t["maxp"] = h
	}
	if h, ok := t["hhea"]; ok && len(h) == 36 && vsym.Choose(2) == 1 {
		h = hx.Clone(h)
		h[34], h[35] = vsym.Byte(), vsym.ByteD(h[35])
		t["hhea"] = h
	}
	scaler := uint32(0x00010000)
	if t["CFF "] != nil {
		scaler = 0x4F54544F
	}
	w := &hx.Buf{}
	_, err := header.Write(w, scaler, t)
	vsym.Assert(err == nil, "cannot write the tables")
	guard(func() {
		f, err := sfnt.Read(bytes.NewReader(w.B))
		if err != nil {
			return
		}
		vsym.Reach("ok")
		useFont(f)
	})
}
