package c01

import (
	"bytes"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

// The following harnesses check the fixed point for single tables, using
// tables which were not written by the library: valid tables where some of
// the bytes are changed.

func mutate(valid []byte, window int) []byte {
	b := hx.Clone(valid)
	p := vsym.Choose((len(b)+1)/2) * 2
	if vsym.Thorough() {
		window *= 2
	}
	for i := p; i < p+window && i < len(b); i++ {
		b[i] = vsym.ByteD(b[i])
	}
	if vsym.Thorough() && vsym.Choose(2) == 1 {
		q := vsym.Choose(len(b))
		b[q] = vsym.ByteD(b[q])
	}
	return b
}

func pick(x [][]byte) []byte { return x[vsym.Choose(len(x))] }

func fixGtab(b []byte, tp gtab.Type) {
	info1, err := gtab.Read(bytes.NewReader(b), tp)
	if err != nil {
		return
	}
	b1 := info1.Encode()
	vsym.MapOrder(1)
	vsym.Assert(vsym.EqBytes(b1, info1.Encode()), "the output is not reproducible")
	vsym.MapOrder(0)
	info2, err := gtab.Read(bytes.NewReader(b1), tp)
	if err != nil {
		vsym.Fail("the output cannot be read: " + err.Error())
	}
	vsym.AssertEqual(info2, info1, "fixed point")
	vsym.Assert(vsym.EqBytes(info2.Encode(), b1), "fixed point: bytes differ")
	vsym.Reach("accepted")
}

//gosym: quick=30 thorough=300
func H_Gsub() { fixGtab(mutate(pick(fx.GsubTables()), 2), gtab.TypeGsub) }

//gosym: quick=30 thorough=300
func H_Gpos() { fixGtab(mutate(pick(fx.GposTables()), 2), gtab.TypeGpos) }

//gosym: quick=10 thorough=60
func H_Gdef() {
	t := &gdef.Table{
		GlyphClass:      classdef.Table{1: 1, 2: 2, 3: 3, 4: 3},
		MarkAttachClass: classdef.Table{3: 1, 7: 2},
		MarkGlyphSets:   []coverage.Set{{3: true}, {4: true, 5: true}},
	}
	t1, err := gdef.Read(bytes.NewReader(mutate(t.Encode(), 2)))
	if err != nil {
		return
	}
	b1 := t1.Encode()
	t2, err := gdef.Read(bytes.NewReader(b1))
	if err != nil {
		vsym.Fail("the output cannot be read: " + err.Error())
	}
	vsym.AssertEqual(t2, t1, "fixed point")
	vsym.Assert(vsym.EqBytes(t2.Encode(), b1), "fixed point: bytes differ")
	vsym.Reach("accepted")
}

//gosym: quick=10 thorough=60
func H_Cmap() {
	t1, err := cmap.Decode(mutate(pick(fx.CmapTables()), 2))
	if err != nil {
		return
	}
	b1 := t1.Encode()
	t2, err := cmap.Decode(b1)
	if err != nil {
		vsym.Fail("the output cannot be read: " + err.Error())
	}
	vsym.AssertEqual(t2, t1, "fixed point")
	vsym.Assert(vsym.EqBytes(t2.Encode(), b1), "fixed point: bytes differ")
	vsym.Reach("accepted")
}

//gosym: quick=20 thorough=120
func H_GlyfTable() {
	f := fx.Corpus(0)
	enc := f.Outlines.(*glyf.Outlines).Glyphs.Encode()
	if vsym.Choose(4) == 0 {
		enc.LocaData = mutate(enc.LocaData, 2)
	} else {
		enc.GlyfData = mutate(enc.GlyfData, 2)
	}
	g1, err := glyf.Decode(enc)
	if err != nil {
		return
	}
	e1 := g1.Encode()
	g2, err := glyf.Decode(e1)
	if err != nil {
		vsym.Fail("the output cannot be read: " + err.Error())
	}
	vsym.AssertEqual(g2, g1, "fixed point")
	vsym.AssertEqual(g2.Encode(), e1, "fixed point: encoded")
	vsym.Reach("accepted")
}

//gosym: quick=40 thorough=300
func H_CFFTable() {
	f := fx.Corpus(2 + vsym.Choose(3))
	w := &hx.Buf{}
	vsym.Assert(f.AsCFF().Write(w) == nil, "cannot write the font")
	f1, err := cff.Read(bytes.NewReader(mutate(w.B, 2)))
	if err != nil {
		return
	}
	w1 := &hx.Buf{}
	err = f1.Write(w1)
	if err != nil {
		vsym.Fail("cannot write the font: " + err.Error())
	}
	f2, err := cff.Read(bytes.NewReader(w1.B))
	if err != nil {
		vsym.Fail("the output cannot be read: " + err.Error())
	}
	for i := range f1.Glyphs {
		vsym.Assert(f1.FDSelect(glyph.ID(i)) == f2.FDSelect(glyph.ID(i)), "fixed point: FDSelect")
	}
	vsym.AssertEqual(f2, f1, "fixed point")
	w2 := &hx.Buf{}
	vsym.Assert(f2.Write(w2) == nil, "cannot write the font again")
	vsym.Assert(vsym.EqBytes(w1.B, w2.B), "fixed point: bytes differ")
	vsym.Reach("accepted")
}
