// Package fx builds small fonts for the harnesses.
package fx

import (
	"strings"
	"time"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
)

// Base returns a font without outlines.
func Base(upem uint16) *sfnt.Font {
	q := 1 / float64(upem)
	return &sfnt.Font{
		FamilyName:         "Test",
		Width:              os2.WidthNormal,
		Weight:             os2.WeightNormal,
		IsRegular:          true,
		Version:            head.Version(0x00010000),
		CreationTime:       time.Unix(1600000000, 0),
		ModificationTime:   time.Unix(1700000000, 0),
		UnitsPerEm:         upem,
		FontMatrix:         matrix.Matrix{q, 0, 0, q, 0, 0},
		Ascent:             800,
		Descent:            -200,
		LineGap:            90,
		CapHeight:          700,
		XHeight:            450,
		UnderlinePosition:  -100,
		UnderlineThickness: 50,
	}
}

// Triangle is the data of a simple glyph with one contour.
func Triangle(x0, y0, x1, y1, x2, y2 int16) glyf.SimpleGlyph {
	b := []byte{0, 2, 0, 0, 1, 1, 1}
	for _, v := range []int16{x0, x1 - x0, x2 - x1, y0, y1 - y0, y2 - y1} {
		b = append(b, byte(v>>8), byte(v))
	}
	return glyf.SimpleGlyph{NumContours: 1, Encoded: b}
}

// Tri is a triangle glyph with a given bounding box.
func Tri(llx, lly, urx, ury int16) *glyf.Glyph {
	return &glyf.Glyph{
		Rect16: funit.Rect16{LLx: funit.Int16(llx), LLy: funit.Int16(lly), URx: funit.Int16(urx), URy: funit.Int16(ury)},
		Data:   Triangle(llx, lly, urx, lly, llx, ury),
	}
}

// Glyf makes a TrueType font.
func Glyf(upem uint16, glyphs glyf.Glyphs, widths []funit.Int16) *sfnt.Font {
	f := Base(upem)
	f.Outlines = &glyf.Outlines{
		Glyphs: glyphs,
		Widths: widths,
		Tables: map[string][]byte{},
		Maxp:   &maxp.TTFInfo{MaxPoints: 3, MaxContours: 1, MaxZones: 2},
	}
	return f
}

// Private is a private dictionary with default values.
func Private() *type1.PrivateDict {
	return &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
}

// CFF makes a simple CFF font.
func CFF(upem uint16, glyphs []*cff.Glyph) *sfnt.Font {
	f := Base(upem)
	f.Outlines = &cff.Outlines{
		Glyphs:   glyphs,
		Private:  []*type1.PrivateDict{Private()},
		FDSelect: func(glyph.ID) int { return 0 },
	}
	return f
}

// CID makes a CID-keyed CFF font.
func CID(upem uint16, glyphs []*cff.Glyph, cids []cid.CID, fd []int, m []matrix.Matrix) *sfnt.Font {
	f := Base(upem)
	o := &cff.Outlines{
		Glyphs:       glyphs,
		FDSelect:     func(gid glyph.ID) int { return fd[gid] },
		ROS:          &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity", Supplement: 0},
		GIDToCID:     cids,
		FontMatrices: m,
	}
	for range m {
		o.Private = append(o.Private, Private())
	}
	f.Outlines = o
	return f
}

// Map4 makes a cmap table with one BMP subtable.
func Map4(m map[uint16]glyph.ID) cmap.Table {
	s := cmap.Format4{}
	for k, v := range m {
		s[k] = v
	}
	return cmap.Table{{PlatformID: 3, EncodingID: 1}: s.Encode(0)}
}

// Box is a rectangle as a CFF glyph.
func Box(name string, width float64, x0, y0, x1, y1 float64) *cff.Glyph {
	g := cff.NewGlyph(name, width)
	g.MoveTo(x0, y0)
	g.LineTo(x1, y0)
	g.LineTo(x1, y1)
	g.LineTo(x0, y1)
	return g
}

// Comp is a composite glyph made from two components, placed at offsets.
func Comp(a, b glyph.ID, dx, dy int8) *glyf.Glyph {
	return &glyf.Glyph{
		Rect16: funit.Rect16{LLx: -10, LLy: -20, URx: 600, URy: 700},
		Data: glyf.CompositeGlyph{Components: []glyf.GlyphComponent{
			{Flags: glyf.FlagArgsAreXYValues | glyf.FlagMoreComponents, GlyphIndex: a, Data: []byte{0, 0}},
			{Flags: glyf.FlagArgsAreXYValues, GlyphIndex: b, Data: []byte{byte(dx), byte(dy)}},
		}},
	}
}

// Liga is a GSUB table with one ligature.
func Liga(a, b, out glyph.ID) *gtab.Info {
	return &gtab.Info{
		ScriptList:  gtab.ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
		FeatureList: []*gtab.Feature{{Tag: "liga", Lookups: []gtab.LookupIndex{0}}},
		LookupList: []*gtab.LookupTable{{
			Meta:      &gtab.LookupMetaInfo{LookupType: 4},
			Subtables: []gtab.Subtable{&gtab.Gsub4_1{Cov: coverage.Table{a: 0}, Repl: [][]gtab.Ligature{{{In: []glyph.ID{b}, Out: out}}}}},
		}},
	}
}

// Kern is a GPOS table with one kerning pair.
func Kern(a, b glyph.ID, d funit.Int16) *gtab.Info {
	return &gtab.Info{
		ScriptList:  gtab.ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
		FeatureList: []*gtab.Feature{{Tag: "kern", Lookups: []gtab.LookupIndex{0}}},
		LookupList: []*gtab.LookupTable{{
			Meta:      &gtab.LookupMetaInfo{LookupType: 2},
			Subtables: []gtab.Subtable{gtab.Gpos2_1{glyph.Pair{Left: a, Right: b}: &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: d}}}},
		}},
	}
}

// NumCorpus is the number of fonts known to Corpus.
const NumCorpus = 6

// Corpus returns one of a few small complete fonts.
func Corpus(i int) *sfnt.Font {
	switch i {
	case 0: // TrueType, with everything
		f := Glyf(1000, glyf.Glyphs{
			Tri(10, 0, 500, 700), nil, Tri(0, 0, 400, 500), Tri(-5, -20, 300, 333), Comp(2, 3, 10, -7), Tri(1, 2, 3, 4),
		}, []funit.Int16{500, 250, 410, 320, 560, 100})
		o := f.Outlines.(*glyf.Outlines)
		o.Names = []string{".notdef", "space", "f", "i", "f_i", "x.alt"}
		o.Tables["cvt "] = []byte{0, 1, 0, 2, 0, 3}
		o.Tables["prep"] = []byte{1, 2, 3, 4, 5}
		o.Tables["fpgm"] = []byte{9}
		f.CMapTable = Map4(map[uint16]glyph.ID{32: 1, 'f': 2, 'i': 3, 'x': 5})
		f.Gsub = Liga(2, 3, 4)
		f.Gpos = Kern(2, 5, -30)
		f.Gdef = &gdef.Table{GlyphClass: classdef.Table{2: gdef.GlyphClassBase, 4: gdef.GlyphClassLigature}}
		f.Copyright = "(c) nobody"
		f.Description = "A test font"
		return f
	case 1: // TrueType, minimal
		return Glyf(2048, glyf.Glyphs{Tri(0, 0, 10, 10)}, []funit.Int16{600})
	case 2: // simple CFF
		f := CFF(1000, []*cff.Glyph{Box(".notdef", 500, 10, 0, 400, 700), Box("A", 600, 20, 0, 500, 710), Box("A.alt", 610, 5, -10, 512, 720), cff.NewGlyph("space", 250)})
		f.CMapTable = Map4(map[uint16]glyph.ID{32: 3, 'A': 1})
		f.Gpos = Kern(1, 1, -25)
		f.Trademark = "TM"
		return f
	case 3: // CID-keyed CFF
		f := CID(1000, []*cff.Glyph{Box("", 1000, 10, 0, 400, 700), Box("", 500, 20, 0, 450, 710), Box("", 1000, 5, -10, 512, 720), cff.NewGlyph("", 250), Box("", 333, 1, 1, 2, 2)},
			[]cid.CID{0, 1, 17, 18, 4000}, []int{0, 1, 1, 0, 1}, []matrix.Matrix{matrix.Identity, {0.5, 0, 0, 0.5, 0, 0}})
		s := cmap.Format12{0x20: 3, 0x4e00: 2, 0x20000: 4, 0x20001: 1}
		f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 10}: s.Encode(0)}
		return f
	}
	if i == 5 { // tables which are larger than the reader's buffer
		var gg []*cff.Glyph
		m := map[uint16]glyph.ID{}
		for j := 0; j < 30; j++ {
			g := Box("glyphname"+string(rune('a'+j)), float64(500+j), 0, 0, float64(100+7*j), float64(300+j))
			for k := 0; k < 12; k++ {
				g.LineTo(float64(1000+k*j), float64(2000-(k&1)*300))
			}
			gg = append(gg, g)
			m[uint16(65+j)] = glyph.ID(j)
		}
		gg[0].Name = ".notdef"
		f := CFF(1000, gg)
		f.CMapTable = Map4(m)
		pairs := gtab.Gpos2_1{}
		for j := 0; j < 25; j++ {
			for k := 0; k < 14; k++ {
				pairs[glyph.Pair{Left: glyph.ID(j), Right: glyph.ID(2 * k)}] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(j - k)}}
			}
		}
		f.Gpos = Kern(1, 2, 3)
		f.Gpos.LookupList[0].Subtables[0] = pairs
		f.Gsub = Liga(2, 3, 4)
		var ll []gtab.Ligature
		for j := 0; j < 120; j++ {
			ll = append(ll, gtab.Ligature{In: []glyph.ID{glyph.ID(j % 30), glyph.ID(j / 30)}, Out: 7})
		}
		f.Gsub.LookupList[0].Subtables = append(f.Gsub.LookupList[0].Subtables, &gtab.Gsub4_1{Cov: coverage.Table{5: 0}, Repl: [][]gtab.Ligature{ll}})
		f.License = strings.Repeat("All rights reserved. ", 60)
		return f
	}
	// simple CFF with a built-in encoding and subpixel widths
	f := CFF(2000, []*cff.Glyph{Box(".notdef", 500.5, 10, 0, 400, 700), Box("B", 600.25, 20, 0, 500, 710)})
	o := f.Outlines.(*cff.Outlines)
	o.Encoding = make([]glyph.ID, 256)
	o.Encoding[66] = 1
	o.Private[0].BlueValues = []funit.Int16{-15, 0, 700, 715}
	o.Private[0].StdVW = 80
	return f
}
