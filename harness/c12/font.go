package c12

import (
	"math"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/geom/rect"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
)

// checkBoxes compares the boxes of the font with those of the outlines.
func checkBoxes(f *sfnt.Font, ext []funit.Rect16) {
	var llx, lly, urx, ury mm
	all := f.GlyphBBoxes()
	vsym.Assert(len(all) == len(ext), "GlyphBBoxes: wrong length")
	for i, e := range ext {
		use := !empty(e)
		llx.min(use, int(e.LLx))
		lly.min(use, int(e.LLy))
		urx.max(use, int(e.URx))
		ury.max(use, int(e.URy))
		vsym.Assert(all[i] == e, "GlyphBBoxes: wrong box")
		vsym.Assert(f.GlyphBBox(glyph.ID(i)) == e, "GlyphBBox: wrong box")
	}
	bb := f.FontBBox()
	vsym.Assert(int(bb.LLx) == llx.v && int(bb.LLy) == lly.v && int(bb.URx) == urx.v && int(bb.URy) == ury.v, "FontBBox is not the union of the glyph boxes")
}

func near(a, b float64) bool {
	d := a - b
	return vsym.And(d <= 1.0/(1<<20), d >= -1.0/(1<<20))
}

func pdfScale(s float64, what int) float64 {
	if what == 2 {
		return s // exactly known
	}
	return s * 1000
}

// checkWidths compares the width queries with the given widths in design
// units; pdf selects which of the scaled queries are checked (the scale has to
// be a power of two times a constant for the query to be decidable).
func checkWidths(f *sfnt.Font, want []float64, scale []float64, what int) {
	n := len(want)
	vsym.Assert(f.NumGlyphs() == n, "NumGlyphs: wrong")
	ww := f.Widths()
	vsym.Assert(len(ww) == n, "Widths: wrong length")
	pdf := f.WidthsPDF()
	vsym.Assert(len(pdf) == n, "WidthsPDF: wrong length")
	fixed := true
	for i := range n {
		for j := range i {
			d := want[i] - want[j]
			fixed = vsym.And(fixed, vsym.Or(vsym.Or(want[i] == 0, want[j] == 0), vsym.And(d < 0.5, d > -0.5)))
		}
		vsym.Assert(ww[i] == want[i], "Widths: wrong width")
		vsym.Assert(f.GlyphWidth(glyph.ID(i)) == want[i], "GlyphWidth: wrong width")
		if what&1 != 0 {
			vsym.Assert(near(pdf[i], want[i]*scale[i]), "WidthsPDF: wrong width")
		}
		if what&2 != 0 {
			vsym.Assert(near(f.GlyphWidthPDF(glyph.ID(i)), want[i]*pdfScale(scale[i], what)), "GlyphWidthPDF: wrong width")
		}
	}
	if f.IsFixedPitch() {
		vsym.Reach("fixed")
		// pairwise within one unit, as all are close to the first one
		for i := range n {
			for j := range i {
				d := want[i] - want[j]
				vsym.Assert(vsym.Or(vsym.Or(want[i] == 0, want[j] == 0), vsym.And(d < 1, d > -1)), "IsFixedPitch: widths differ")
			}
		}
	} else {
		vsym.Assert(!fixed, "IsFixedPitch: false, but all widths are equal")
	}
}

func checkPDFBoxes(f *sfnt.Font, want []rect.Rect) {
	var all rect.Rect
	first := true
	for i, w := range want {
		b := f.Outlines.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i))
		vsym.Assert(near(b.LLx, w.LLx) && near(b.LLy, w.LLy) && near(b.URx, w.URx) && near(b.URy, w.URy), "GlyphBBoxPDF: wrong box")
		if w.LLx == 0 && w.LLy == 0 && w.URx == 0 && w.URy == 0 {
			continue
		}
		if first {
			all, first = w, false
		} else {
			all.LLx = min(all.LLx, w.LLx)
			all.LLy = min(all.LLy, w.LLy)
			all.URx = max(all.URx, w.URx)
			all.URy = max(all.URy, w.URy)
		}
	}
	b := f.FontBBoxPDF()
	vsym.Assert(near(b.LLx, all.LLx) && near(b.LLy, all.LLy) && near(b.URx, all.URx) && near(b.URy, all.URy), "FontBBoxPDF is not the union of the glyph boxes")
}

func glyfFont(n int) (*sfnt.Font, []float64, []funit.Rect16) {
	glyphs := make(glyf.Glyphs, n)
	widths := make([]funit.Int16, n)
	want := make([]float64, n)
	ext := make([]funit.Rect16, n)
	for i := range n {
		w := small()
		vsym.Assume(w >= 0)
		widths[i] = w
		want[i] = float64(w)
		if vsym.Choose(3) > 0 {
			ext[i] = rect16()
			glyphs[i] = &glyf.Glyph{Rect16: ext[i], Data: glyf.SimpleGlyph{Encoded: []byte{0, 0}}}
		}
	}
	f := fx.Glyf([]uint16{1024, 2048, 16}[vsym.Choose(3)], glyphs, widths)
	return f, want, ext
}

// rect16 is a box for which all side bearings can be represented.
func rect16() funit.Rect16 {
	r := box16()
	vsym.Assume(vsym.And(vsym.And(r.LLx >= -8000, r.URx <= 8000), vsym.And(r.LLy >= -8000, r.URy <= 8000)))
	return r
}

// H_QueriesGlyf: 1..3 glyphs, any widths and boxes.
//
//gosym: quick=8 thorough=120
func H_QueriesGlyf() {
	n := 1 + vsym.Choose(3)
	f, want, ext := glyfFont(n)
	scale := make([]float64, n)
	var boxes []rect.Rect
	q := 1 / float64(f.UnitsPerEm)
	for i := range scale {
		scale[i] = q
		e := ext[i]
		boxes = append(boxes, rect.Rect{LLx: float64(e.LLx) * (q * 1000), LLy: float64(e.LLy) * (q * 1000), URx: float64(e.URx) * (q * 1000), URy: float64(e.URy) * (q * 1000)})
	}
	if vsym.Choose(2) == 0 {
		checkBoxes(f, ext)
		checkPDFBoxes(f, boxes)
	} else {
		what := 1
		if vsym.Choose(2) == 1 {
			f.UnitsPerEm = []uint16{1000, 2000, 500, 1000 << 3}[vsym.Choose(4)]
			q := 1 / float64(f.UnitsPerEm)
			f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
			what = 2
			for i := range scale {
				scale[i] = 1000 / float64(f.UnitsPerEm)
			}
		}
		checkWidths(f, want, scale, what)
	}
}

// coord is a coordinate with one fractional bit.
func coord() float64 {
	x := vsym.Int16()
	vsym.Assume(vsym.And(x >= -2000, x <= 2000))
	return float64(x) / 2
}

// H_QueriesCFF: 1..2 CFF glyphs of up to two segments with coordinates in
// steps of 1/2; simple fonts and CID-keyed fonts with two FDs.
//
//gosym: quick=10 thorough=200
func H_QueriesCFF() {
	n := 1 + vsym.Choose(2)
	var gg []*cff.Glyph
	want := make([]float64, n)
	ext := make([]funit.Rect16, n)
	type box struct{ x0, y0, x1, y1 float64 }
	bb := make([]*box, n)
	kind := vsym.Choose(3)
	for i := range n {
		w := vsym.Int16()
		vsym.Assume(vsym.And(w >= 0, w < 4000))
		want[i] = float64(w) / 2
		g := cff.NewGlyph("g", want[i])
		g.Name = []string{".notdef", "A", "B"}[i]
		// the on-curve points determine the box
		add := func(x, y float64) {
			b := bb[i]
			if b == nil {
				bb[i] = &box{x, y, x, y}
				return
			}
			if x < b.x0 {
				b.x0 = x
			}
			if x > b.x1 {
				b.x1 = x
			}
			if y < b.y0 {
				b.y0 = y
			}
			if y > b.y1 {
				b.y1 = y
			}
		}
		switch vsym.Choose(3) {
		case 1:
			x, y := coord(), coord()
			g.MoveTo(x, y)
			add(x, y)
			x, y = coord(), coord()
			g.LineTo(x, y)
			add(x, y)
		case 2:
			x, y := coord(), coord()
			g.MoveTo(x, y)
			add(x, y)
			x, y = coord(), coord()
			g.CurveTo(x, y, x, y, x, y)
			add(x, y)
		}
		if b := bb[i]; b != nil {
			ext[i] = funit.Rect16{LLx: floor(b.x0), LLy: floor(b.y0), URx: ceil(b.x1), URy: ceil(b.y1)}
		}
		gg = append(gg, g)
	}
	var f *sfnt.Font
	scale := []float64{1.0 / 1024, 1.0 / 1024}
	if kind == 0 {
		f = fx.CFF(1024, gg)
	} else {
		m := []matrix.Matrix{matrix.Identity, {0.5, 0, 0, 2, 0, 0}}
		fd := []int{0, 1}
		scale[1] /= 2
		f = fx.CID(1024, gg, []cid.CID{0, 7}[:n], fd, m)
		if kind == 2 {
			// everything in the font DICTs
			f.FontMatrix = matrix.Identity
			f.Outlines.(*cff.Outlines).FontMatrices = []matrix.Matrix{{1.0 / 1024, 0, 0, 1.0 / 1024, 0, 0}, {1.0 / 2048, 0, 0, 1.0 / 512, 0, 0}}
		}
	}
	switch vsym.Choose(3) {
	case 0:
		checkBoxes(f, ext)
	case 1:
		checkWidths(f, want, scale, 3)
	case 2:
		boxes := make([]rect.Rect, n)
		for i, b := range bb {
			if b != nil {
				sx, sy := 1000*scale[i], 1000.0/1024
				if i == 1 && kind > 0 {
					sy *= 2
				}
				boxes[i] = rect.Rect{LLx: b.x0 * sx, LLy: b.y0 * sy, URx: b.x1 * sx, URy: b.y1 * sy}
			}
		}
		checkPDFBoxes(f, boxes)
	}
}

func floor(x float64) funit.Int16 { return funit.Int16(math.Floor(x)) }
func ceil(x float64) funit.Int16  { return funit.Int16(math.Ceil(x)) }

// checkTables checks the derived fields in a written font file.
func checkTables(f *sfnt.Font, want []float64, ext []funit.Rect16, low, high int) {
	n := len(want)
	w := &hx.Buf{}
	_, err := f.Write(w)
	vsym.Assert(err == nil, "Write fails")
	tab := hx.Tables(w.B)
	hhea, hm, hd, os, po, mx := tab["hhea"], tab["hmtx"], tab["head"], tab["OS/2"], tab["post"], tab["maxp"]
	vsym.Assert(len(hd) == 54 && len(os) >= 90 && len(po) >= 32 && len(mx) >= 6, "missing or short table")
	widths := make([]funit.Int16, n)
	lsb := make([]funit.Int16, n)
	sum, cnt := 0, 0
	var llx, lly, urx, ury mm
	for i := range n {
		widths[i] = funit.Int16(want[i])
		lsb[i] = ext[i].LLx
		x := int(want[i])
		sum += x
		cnt += vsym.IteInt(x > 0, 1, 0)
		use := !empty(ext[i])
		llx.min(use, int(ext[i].LLx))
		lly.min(use, int(ext[i].LLy))
		urx.max(use, int(ext[i].URx))
		ury.max(use, int(ext[i].URy))
	}
	checkHhea(hhea, widths, lsb, ext)
	checkHmtx(hhea, hm, widths, lsb)
	vsym.Assert(i16(hhea, 4) == int(f.Ascent) && i16(hhea, 6) == int(f.Descent) && i16(hhea, 8) == int(f.LineGap), "hhea: wrong vertical metrics")
	vsym.Assert(hx.U16(mx, 4) == n, "maxp: wrong number of glyphs")
	vsym.Assert(i16(hd, 36) == llx.v && i16(hd, 38) == lly.v && i16(hd, 40) == urx.v && i16(hd, 42) == ury.v, "head: wrong font bounding box")
	vsym.Assert(hx.U16(hd, 18) == int(f.UnitsPerEm), "head: wrong unitsPerEm")
	cnt = vsym.Concrete(cnt)
	avg := i16(os, 2)
	if cnt == 0 {
		vsym.Assert(avg == 0, "OS/2: wrong average width")
	} else {
		// avg is within 1/2 of sum/cnt
		d := 2 * (avg*cnt - sum)
		vsym.Assert(vsym.And(d <= cnt, d >= -cnt), "OS/2: wrong average width")
	}
	vsym.Assert(hx.U16(os, 64) == low && hx.U16(os, 66) == high, "OS/2: wrong first or last character")
	vsym.Assert(i16(os, 74) == ury.v && i16(os, 76) == -lly.v, "OS/2: wrong usWinAscent or usWinDescent")
	vsym.Assert(i16(os, 68) == int(f.Ascent) && i16(os, 70) == int(f.Descent) && i16(os, 72) == int(f.LineGap), "OS/2: wrong vertical metrics")
	vsym.Assert(i16(os, 86) == int(f.XHeight) && i16(os, 88) == int(f.CapHeight), "OS/2: wrong heights")
	vsym.Assert(i16(po, 8) == int(f.UnderlinePosition) && i16(po, 10) == int(f.UnderlineThickness), "post: wrong underline metrics")
	vsym.Assert((hx.U32(po, 12) != 0) == f.IsFixedPitch(), "post: wrong isFixedPitch")
	vsym.ObserveBytes(w.B)
}

// H_WriteGlyf: the tables of a complete TrueType file.
//
//gosym: quick=12 thorough=200
func H_WriteGlyf() {
	n := 1 + vsym.Choose(2)
	if vsym.Thorough() {
		n = 1 + vsym.Choose(3)
	}
	f, want, ext := glyfFont(n)
	f.Ascent, f.Descent, f.LineGap = fi(), fi(), fi()
	f.XHeight, f.CapHeight = small(), small()
	low, high := 0, 0
	switch vsym.Choose(3) {
	case 1:
		f.CMapTable = fx.Map4(map[uint16]glyph.ID{0x41: 1, 0x61: 1, 0x3b1: 1})
		low, high = 0x41, 0x3b1
	case 2:
		f.InstallCMap(cmap.Format12{0x1F600: 1, 0x61: 1})
		low, high = 0x61, 0xFFFF
	}
	checkTables(f, want, ext, low, high)
}

// H_WriteCFF: the tables of a complete OpenType/CFF file, widths and
// coordinates are integers.
//
//gosym: quick=10 thorough=200
func H_WriteCFF() {
	n := 2
	var gg []*cff.Glyph
	want := make([]float64, n)
	ext := make([]funit.Rect16, n)
	for i := range n {
		w := vsym.Int16()
		vsym.Assume(vsym.And(w >= 0, w < 2000))
		want[i] = float64(w)
		g := cff.NewGlyph([]string{".notdef", "A"}[i], want[i])
		if i == 1 && vsym.Choose(2) == 1 {
			x, y := vsym.Int16(), vsym.Int16()
			vsym.Assume(vsym.And(vsym.And(x >= -500, x <= 500), vsym.And(y >= -500, y <= 500)))
			g.MoveTo(float64(x), float64(y))
			g.LineTo(float64(x), float64(y)+100)
			g.LineTo(float64(x)+50, float64(y)+100)
			ext[i] = funit.Rect16{LLx: funit.Int16(x), LLy: funit.Int16(y), URx: funit.Int16(x) + 50, URy: funit.Int16(y) + 100}
		}
		gg = append(gg, g)
	}
	f := fx.CFF(1024, gg)
	checkTables(f, want, ext, 0, 0)
}
