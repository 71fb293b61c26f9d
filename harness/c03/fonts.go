package c03

import (
	"math"
	"sort"

	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/geom/matrix"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/verifh/rx"
	"seehuhn.de/go/sfnt/internal/vsym"
)

func near(a, b float64) bool {
	d := a - b
	return vsym.And(d <= 1.0/65536, d >= -1.0/65536)
}

var kinds = map[cff.GlyphOpType]byte{cff.OpMoveTo: 'm', cff.OpLineTo: 'l', cff.OpCurveTo: 'c', cff.OpHintMask: 'h', cff.OpCntrMask: 'k'}

// whole writes a font and compares what an independent reader finds in the
// file with the font.  The character map want is checked for all its codes
// and for a few others.  Since the checksum code sees arbitrary bytes in the
// other harnesses, the (expensive) verification of the checksums is optional
// here.
func whole(f *sfnt.Font, sums bool, want map[int]int, probes ...int) *rx.Font {
	w := &hx.Buf{}
	n, err := f.Write(w)
	vsym.Assert(err == nil, "cannot write the font")
	vsym.Assert(int(n) == len(w.B), "wrong length returned")
	scaler := uint32(0x4F54544F)
	if f.IsGlyf() {
		scaler = 0x00010000
	}
	g := rx.Read(w.B, scaler, sums)

	// the container, as seen by the library
	info, err := header.Read(&hx.At{B: w.B})
	vsym.Assert(err == nil, "header.Read rejects the file")
	vsym.Assert(len(info.Toc) == len(g.Tables) && info.ScalerType == scaler, "header.Read finds other tables")
	for tag, data := range g.Tables {
		b, err := info.ReadTableBytes(&hx.At{B: w.B}, tag)
		vsym.Assert(err == nil && vsym.EqBytes(b, data), "table contents changed")
	}

	vsym.Assert(g.UnitsPerEm == int(f.UnitsPerEm), "unitsPerEm")
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		vsym.Assert(g.NumGlyphs == len(o.Glyphs), "number of glyphs")
		for i, w := range o.Widths {
			vsym.Assert(g.Widths[i] == int(uint16(w)), "advance width")
		}
		vsym.Assert((g.Names == nil) == (o.Names == nil), "glyph names appear or disappear")
		for i, s := range o.Names {
			vsym.Assert(g.Names[i] == s, "glyph name")
		}
		for i, gl := range o.Glyphs {
			outline(&g.Glyf[i], gl)
		}
		for tag, b := range o.Tables {
			vsym.Assert(vsym.EqBytes(g.Tables[tag], b), "table "+tag)
		}
	case *cff.Outlines:
		vsym.Assert(g.NumGlyphs == len(o.Glyphs), "number of glyphs")
		for i, gl := range o.Glyphs {
			vsym.Assert(math.Abs(float64(g.Widths[i])-gl.Width) <= 0.5, "advance width")
			if o.ROS == nil {
				vsym.Assert(g.Names[i] == gl.Name, "glyph name")
			} else if o.GIDToCID != nil {
				vsym.Assert(g.CFF.Charset[i] == int(o.GIDToCID[i]), "CID")
			}
			cs := g.CharString(i)
			vsym.Assert(near(cs.Width, gl.Width), "CFF advance width")
			vsym.Assert(len(cs.Ops) == len(gl.Cmds), "number of path elements")
			for j, cmd := range gl.Cmds {
				op := cs.Ops[j]
				vsym.Assert(op.Kind == kinds[cmd.Op] && len(op.Args) == len(cmd.Args), "kind of path element")
				for k, a := range cmd.Args {
					vsym.Assert(near(op.Args[k], a), "coordinate")
				}
			}
		}
	}

	for i, k := range []cmap.Key{{PlatformID: 3, EncodingID: 1}, {PlatformID: 3, EncodingID: 10}} {
		sub := g.Subtable(int(k.PlatformID), int(k.EncodingID))
		_, ok := f.CMapTable[k]
		vsym.Assert((sub != nil) == ok, "cmap subtable appears or disappears")
		if sub == nil {
			continue
		}
		var codes []int
		for c := range want {
			codes = append(codes, c)
		}
		sort.Ints(codes)
		for _, c := range codes {
			vsym.Assert(rx.Map(sub, c) == want[c], "character map")
			vsym.Reach("mapped")
		}
		for _, c := range probes {
			exp := 0
			for _, d := range codes {
				exp = vsym.IteInt(c == d, want[d], exp)
			}
			vsym.Assert(rx.Map(sub, c) == exp, "character map: other codes")
		}
		_ = i
	}
	vsym.Observe(uint64(len(w.B)))
	return g
}

// outline compares a glyph from the file with the original.
func outline(got *rx.Outline, g *glyf.Glyph) {
	if g == nil {
		vsym.Assert(len(got.Contours) == 0 && len(got.Parts) == 0, "blank glyph has an outline")
		return
	}
	box := [4]int{int(g.LLx), int(g.LLy), int(g.URx), int(g.URy)}
	for i := range box {
		vsym.Assert(got.Box[i] == box[i], "bounding box")
	}
	switch d := g.Data.(type) {
	case glyf.SimpleGlyph:
		info, err := d.Decode()
		vsym.Assert(err == nil, "cannot decode the glyph")
		vsym.Assert(len(got.Contours) == len(info.Contours) && len(got.Parts) == 0, "number of contours")
		for i, c := range info.Contours {
			vsym.Assert(len(c) == len(got.Contours[i]), "number of points")
			for j, p := range c {
				q := got.Contours[i][j]
				vsym.Assert(vsym.And(q.X == int(p.X), vsym.And(q.Y == int(p.Y), q.On == p.OnCurve)), "point")
			}
		}
		vsym.Assert(vsym.EqBytes(got.Code, info.Instructions), "instructions")
	case glyf.CompositeGlyph:
		vsym.Assert(len(got.Parts) == len(d.Components) && len(got.Contours) == 0, "number of components")
		for i, c := range d.Components {
			p := got.Parts[i]
			vsym.Assert(p.Glyph == int(c.GlyphIndex) && p.Flags == int(c.Flags), "component")
			var data []byte
			put := func(v int) { data = append(data, byte(v>>8), byte(v)) }
			if p.Flags&1 != 0 {
				put(p.X)
				put(p.Y)
			} else {
				data = append(data, byte(p.X), byte(p.Y))
			}
			for _, m := range p.Matrix {
				put(m)
			}
			vsym.Assert(vsym.EqBytes(data, c.Data), "placement of a component")
		}
		vsym.Assert(vsym.EqBytes(got.Code, d.Instructions), "instructions")
	}
}

// simple is a glyph with arbitrary coordinates.
func simple() *glyf.Glyph {
	var v [6]int16
	for i := range v {
		v[i] = int16(vsym.Int(-16000, 16000))
	}
	return &glyf.Glyph{
		Rect16: funit.Rect16{LLx: funit.Int16(vsym.Int16()), LLy: funit.Int16(vsym.Int16()), URx: funit.Int16(vsym.Int16()), URy: funit.Int16(vsym.Int16())},
		Data:   fx.Triangle(v[0], v[1], v[2], v[3], v[4], v[5]),
	}
}

func trueType() *sfnt.Font {
	var gg glyf.Glyphs
	var ww []funit.Int16
	n := 2 + vsym.Choose(3)
	if vsym.Thorough() {
		n = 1 + vsym.Choose(6)
	}
	for i := range n {
		var g *glyf.Glyph
		switch k := vsym.Choose(4); {
		case k == 1:
			g = simple()
		case k == 2 && i > 1:
			g = fx.Comp(glyph.ID(vsym.Int(0, i-1)), 0, int8(vsym.Int(-128, 127)), -3)
		case k == 3:
			g = fx.Tri(0, -10, 300, 32757)
		}
		gg = append(gg, g)
		ww = append(ww, funit.Int16(vsym.Int(0, 32767)))
	}
	f := fx.Glyf(1000, gg, ww)
	f.UnitsPerEm = uint16(vsym.Int(16, 16384))
	return f
}

// H_TrueType: outlines, widths, unitsPerEm of TrueType fonts.
//
//gosym: quick=15 thorough=120
func H_TrueType() {
	whole(trueType(), false, nil)
	vsym.Reach("truetype")
}

// H_Tables: TrueType fonts with instruction tables of any length.
//
//gosym: quick=8 thorough=60
func H_Tables() {
	f := fx.Glyf(1000, glyf.Glyphs{fx.Tri(0, 0, 10, 10)}, []funit.Int16{600})
	o := f.Outlines.(*glyf.Outlines)
	for _, tag := range []string{"cvt ", "fpgm", "prep", "gasp"} {
		if l := vsym.Choose(5); l > 0 {
			o.Tables[tag] = vsym.Bytes(l)
		}
	}
	whole(f, vsym.Thorough(), nil)
	vsym.Reach("tables")
}

// H_Names: the names of the glyphs of a TrueType font.
//
//gosym: quick=10 thorough=80
func H_Names() {
	n := 1 + vsym.Choose(2)
	if vsym.Thorough() {
		n = 1 + vsym.Choose(4)
	}
	f := fx.Glyf(1000, make(glyf.Glyphs, n), make([]funit.Int16, n))
	o := f.Outlines.(*glyf.Outlines)
	for i := range n {
		o.Widths[i] = 500
		s := rx.MacNames[vsym.Choose(3)*128]
		switch vsym.Choose(3) {
		case 1:
			s = string(vsym.Bytes(1 + vsym.Choose(2)))
		case 2:
			if i > 0 {
				s = o.Names[i-1] + ".x"
			}
		}
		o.Names = append(o.Names, s)
	}
	whole(f, vsym.Thorough(), nil)
	vsym.Reach("names")
}

// H_MacNames: a font with the standard glyph order.
//
//gosym: quick=4 thorough=20
func H_MacNames() {
	n := 257 + vsym.Choose(3)
	f := fx.Glyf(1000, make(glyf.Glyphs, n), make([]funit.Int16, n))
	o := f.Outlines.(*glyf.Outlines)
	o.Names = append(o.Names, rx.MacNames[:min(n, 258)]...)
	if n > 258 {
		o.Names = append(o.Names, "extra")
	}
	switch vsym.Choose(3) {
	case 1:
		o.Names[n-1] = "other"
	case 2:
		o.Names[3], o.Names[n-1] = o.Names[n-1], o.Names[3]
	}
	f.UnitsPerEm = uint16(vsym.Int(16, 16384))
	whole(f, vsym.Thorough(), nil)
	vsym.Reach("macnames")
}

// H_CFF: outlines, widths and names of simple CFF fonts.
//
//gosym: quick=20 thorough=120
func H_CFF() {
	number := func(max int) float64 { return float64(vsym.Int(-max, max)) }
	width := func() float64 { return 600 }
	if vsym.Choose(2) == 0 {
		width = func() float64 { return float64(vsym.Int(0, 32767)) }
		number = func(int) float64 { return 17 }
	}
	gg := []*cff.Glyph{fx.Box(".notdef", 500, 10, 0, 400, 700)}
	n := 1 + vsym.Choose(2)
	for i := range n {
		name := []string{"A", "B.alt", "zero", "space"}[2*i+vsym.Choose(2)]
		var g *cff.Glyph
		switch vsym.Choose(3) {
		case 0:
			g = fx.Box(name, width(), number(2000), number(2000), 400, -300)
		case 1:
			g = cff.NewGlyph(name, width())
		case 2:
			g = cff.NewGlyph(name, 500)
			g.MoveTo(number(100), number(100))
			g.CurveTo(1, 2, number(100), 20, 300, number(100))
		}
		gg = append(gg, g)
	}
	f := fx.CFF(1000, gg)
	f.UnitsPerEm = uint16(vsym.Int(16, 16384))
	whole(f, vsym.Thorough(), nil)
	vsym.Reach("cff")
}

// H_CID: CID-keyed fonts.
//
//gosym: quick=15 thorough=120
func H_CID() {
	n := 2 + vsym.Choose(3)
	var gg []*cff.Glyph
	var cids []cid.CID
	var fd []int
	c := 0
	for i := range n {
		w := 500.0
		if i == 1 {
			w = float64(vsym.Int(0, 32767))
		}
		gg = append(gg, fx.Box("", w, 0, 10*float64(i), 400, 700))
		cids = append(cids, cid.CID(c))
		c += vsym.Int(1, 20000)
		fd = append(fd, vsym.Choose(2))
	}
	f := fx.CID(1000, gg, cids, fd, []matrix.Matrix{matrix.Identity, matrix.Identity})
	f.Outlines.(*cff.Outlines).Private[1].StdVW = 80
	g := whole(f, vsym.Thorough(), nil)
	for i := range n {
		vsym.Assert(len(g.CFF.FD) == 2 && g.CFF.Select[i] == fd[i], "FDSelect")
	}
	vsym.Reach("cid")
}

// H_Cmap: character maps, for codes which are arbitrary within a few blocks.
//
//gosym: quick=20 thorough=120
func H_Cmap() {
	n := 5
	f := fx.Glyf(1000, make(glyf.Glyphs, n), make([]funit.Int16, n))
	for i := range n {
		f.Outlines.(*glyf.Outlines).Widths[i] = funit.Int16(500 + 10*i)
	}
	want := map[int]int{}
	k := 1 + vsym.Choose(2)
	if vsym.Thorough() {
		k = 1 + vsym.Choose(4)
	}
	codes := make([]int, k)
	wide := vsym.Choose(2) == 1
	if wide {
		codes[0] = []int{0, 0xFFF0, 0x1F5F0}[vsym.Choose(3)] + vsym.Int(0, 31)
	} else {
		codes[0] = []int{0x20, 0x2F0, 0xFC00}[vsym.Choose(3)] + vsym.Int(0, 31)
	}
	for i := 1; i < k; i++ {
		codes[i] = codes[i-1] + []int{1, 2, 300}[vsym.Choose(3)]
	}
	m4, m12 := cmap.Format4{}, cmap.Format12{}
	for _, c := range codes {
		g := vsym.Int(1, n-1)
		want[c] = g
		if wide {
			m12[uint32(c)] = glyph.ID(g)
		} else {
			m4[uint16(c)] = glyph.ID(g)
		}
	}
	if wide {
		f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 10}: m12.Encode(0)}
	} else {
		f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: m4.Encode(0)}
	}
	whole(f, vsym.Thorough(), want, codes[0]+3, codes[k-1]+1)
	vsym.Reach("cmap")
}

// H_Corpus: all the example fonts, with arbitrary unitsPerEm.
//
//gosym: quick=8 thorough=30
func H_Corpus() {
	f := fx.Corpus(vsym.Choose(fx.NumCorpus))
	f.UnitsPerEm = uint16(vsym.Int(16, 16384))
	whole(f, vsym.Thorough(), nil)
	vsym.Reach("corpus")
}
