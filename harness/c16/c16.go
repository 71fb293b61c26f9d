// Package c16 checks that operations which only read a font do not write to
// memory they share, and that their results do not depend on other calls.
//
// No schedule is enumerated.  The claim checked for every path of every
// operation is that the operation never writes to memory which existed before
// the call (unless it holds a lock).  Operations with this property cannot
// race with each other, in any interleaving and for any number of
// goroutines, and their results only depend on memory which does not change.
// A write which is found is replayed by running the operation in two
// goroutines under the race detector.
package c16

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"golang.org/x/text/language"
	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"
)

// result collects everything an operation returns.
type result struct {
	data []byte
	text []string
}

func (r *result) bytes(b []byte) { r.data = append(r.data, b...) }

func (r *result) num(x uint64) {
	for i := range 8 {
		r.data = append(r.data, byte(x>>(8*i)))
	}
}

func (r *result) float(x float64) { r.num(math.Float64bits(x)) }
func (r *result) str(s string)    { r.text = append(r.text, s) }

func (r *result) err(err error) {
	if err != nil {
		r.str(err.Error())
	} else {
		r.str("ok")
	}
}

func (r *result) seq(seq []glyph.Info) {
	r.num(uint64(len(seq)))
	for _, g := range seq {
		for _, x := range []int{int(g.GID), int(g.XOffset), int(g.YOffset), int(g.Advance)} {
			r.bytes([]byte{byte(x >> 8), byte(x)})
		}
		for _, c := range g.Text {
			r.bytes([]byte{byte(c >> 16), byte(c >> 8), byte(c)})
		}
	}
}

func same(a, b *result, msg string) {
	vsym.Assert(len(a.data) == len(b.data) && len(a.text) == len(b.text), msg)
	vsym.Assert(vsym.EqBytes(a.data, b.data), msg)
	for i := range a.text {
		vsym.Assert(a.text[i] == b.text[i], msg)
	}
}

func (r *result) font(f *sfnt.Font) {
	r.num(uint64(f.NumGlyphs()))
	for i := range f.NumGlyphs() {
		r.float(f.GlyphWidth(glyph.ID(i)))
		r.str(f.GlyphName(glyph.ID(i)))
		b := f.GlyphBBox(glyph.ID(i))
		r.num(uint64(uint16(b.LLx)) | uint64(uint16(b.LLy))<<16 | uint64(uint16(b.URx))<<32 | uint64(uint16(b.URy))<<48)
	}
	var keys []string
	for k, d := range f.CMapTable {
		keys = append(keys, fmt.Sprint(k.PlatformID, k.EncodingID, k.Language, d))
	}
	sort.Strings(keys)
	for _, k := range keys {
		r.str(k)
	}
	if f.Gsub != nil {
		r.bytes(f.Gsub.Encode())
	}
	if f.Gpos != nil {
		r.bytes(f.Gpos.Encode())
	}
}

// args are the parameters of an operation.
type args struct {
	text   string
	seq    []glyph.ID
	glyphs []glyph.ID
	lang   language.Tag
}

// op is one operation on a font.
type op func(f *sfnt.Font, a *args, r *result)

func applyAll(info *gtab.Info, g *gdef.Table, a *args, r *result) {
	if info == nil {
		return
	}
	var ll []gtab.LookupIndex
	for i := range info.LookupList {
		ll = append(ll, gtab.LookupIndex(i))
	}
	ctx := gtab.NewContext(info.LookupList, g, ll)
	var seq []glyph.Info
	for _, x := range a.seq {
		seq = append(seq, glyph.Info{GID: x, Text: []rune{'x'}, Advance: 500})
	}
	r.seq(ctx.Apply(seq))
	// a context can be used again
	seq = nil
	for _, x := range a.seq {
		seq = append(seq, glyph.Info{GID: x, Text: []rune{'y'}, Advance: 500})
	}
	r.seq(ctx.Apply(seq))
}

var ops = []op{
	func(f *sfnt.Font, a *args, r *result) { // Write
		w := &hx.Buf{}
		n, err := f.Write(w)
		r.num(uint64(n))
		r.err(err)
		r.bytes(w.B)
	},
	func(f *sfnt.Font, a *args, r *result) { // output for PDF files
		w := &hx.Buf{}
		if f.IsGlyf() {
			_, err := f.WriteTrueTypePDF(w)
			r.err(err)
		} else {
			r.err(f.WriteOpenTypeCFFPDF(w))
		}
		r.bytes(w.B)
	},
	func(f *sfnt.Font, a *args, r *result) { // CFF
		if f.IsGlyf() {
			return
		}
		w := &hx.Buf{}
		r.err(f.AsCFF().Write(w))
		r.bytes(w.B)
	},
	func(f *sfnt.Font, a *args, r *result) { // Clone and changes of the copy
		g := f.Clone()
		g.FamilyName += "X"
		g.Weight++
		g.CMapTable = nil
		r.font(g)
	},
	func(f *sfnt.Font, a *args, r *result) { // metrics
		b := f.FontBBox()
		r.str(fmt.Sprint(b))
		q := f.FontBBoxPDF()
		r.float(q.LLx)
		r.float(q.URy)
		for _, w := range f.Widths() {
			r.float(w)
		}
		for _, w := range f.WidthsPDF() {
			r.float(w)
		}
		for i, b := range f.GlyphBBoxes() {
			r.str(fmt.Sprint(b, f.GlyphBBox(glyph.ID(i)), f.GlyphWidthPDF(glyph.ID(i))))
		}
		if o, ok := f.Outlines.(*cff.Outlines); ok {
			for i := range o.Glyphs {
				r.str(fmt.Sprint(o.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i))))
			}
		}
		r.str(fmt.Sprint(f.IsFixedPitch()))
	},
	func(f *sfnt.Font, a *args, r *result) { // names
		for _, s := range f.MakeGlyphNames() {
			r.str(s)
		}
		m := f.WidthsMapPDF()
		for i := range f.NumGlyphs() {
			r.float(m[f.GlyphName(glyph.ID(i))])
		}
		for _, s := range f.BuiltinEncoding() {
			r.str(s)
		}
		r.str(f.PostScriptName())
		r.str(f.FullName())
	},
	func(f *sfnt.Font, a *args, r *result) { // GetFontInfo
		i := f.GetFontInfo()
		r.str(fmt.Sprint(i.FontName, i.FullName, i.FamilyName, i.Weight, i.Version, i.Notice, i.Copyright, i.ItalicAngle, i.IsFixedPitch, i.UnderlinePosition, i.UnderlineThickness, i.FontMatrix))
	},
	func(f *sfnt.Font, a *args, r *result) { // layout
		l, err := f.NewLayouter(a.lang, nil, nil)
		r.err(err)
		if err == nil {
			r.seq(l.Layout(a.text))
			r.seq(l.Layout(a.text + "f"))
		}
	},
	func(f *sfnt.Font, a *args, r *result) { // GSUB
		applyAll(f.Gsub, f.Gdef, a, r)
	},
	func(f *sfnt.Font, a *args, r *result) { // GPOS
		applyAll(f.Gpos, f.Gdef, a, r)
	},
	func(f *sfnt.Font, a *args, r *result) { // explain
		if f.Gsub != nil && !hasGsub8(f) {
			r.str(builder.ExplainGsub(f))
		}
		if f.Gpos != nil {
			for _, s := range builder.ExplainGpos(f) {
				r.str(s)
			}
		}
	},
	func(f *sfnt.Font, a *args, r *result) { // Subset
		if f.Gdef != nil || !simpleLayout(f) {
			return
		}
		g := f.Subset(a.glyphs)
		r.font(g)
		w := &hx.Buf{}
		_, err := g.Write(w)
		r.err(err)
		r.bytes(w.B)
	},
	func(f *sfnt.Font, a *args, r *result) { // single tables
		if f.Gsub != nil {
			r.bytes(f.Gsub.Encode())
			for _, l := range f.Gsub.FindLookups(a.lang, gtab.GsubDefaultFeatures) {
				r.num(uint64(l))
			}
		}
		if f.Gpos != nil {
			r.bytes(f.Gpos.Encode())
			for _, l := range f.Gpos.FindLookups(a.lang, gtab.GposDefaultFeatures) {
				r.num(uint64(l))
			}
		}
		if f.Gdef != nil {
			r.bytes(f.Gdef.Encode())
		}
		if f.CMapTable != nil {
			r.bytes(f.CMapTable.Encode())
			sub, err := f.CMapTable.GetBest()
			r.err(err)
			if err == nil {
				r.bytes(sub.Encode(0))
			}
		}
		if o, ok := f.Outlines.(*cff.Outlines); ok {
			r.num(uint64(len(o.Subset(a.glyphs).Glyphs)))
		}
		if o, ok := f.Outlines.(*glyf.Outlines); ok {
			e := o.Glyphs.Encode()
			r.bytes(e.GlyfData)
			r.bytes(e.LocaData)
			for _, g := range o.Glyphs {
				if g == nil {
					continue
				}
				if s, ok := g.Data.(glyf.SimpleGlyph); ok {
					d, err := s.Decode()
					r.err(err)
					if err == nil {
						r.str(fmt.Sprint(d.Contours))
					}
				}
			}
		}
	},
}

const (
	opExplain = 10
	opSubset  = 11
)

func hasGsub8(f *sfnt.Font) bool {
	for _, l := range f.Gsub.LookupList {
		for _, s := range l.Subtables {
			if _, ok := s.(*gtab.Gsub8_1); ok {
				return true
			}
		}
	}
	return false
}

func simpleLayout(f *sfnt.Font) bool {
	for i, t := range []*gtab.Info{f.Gsub, f.Gpos} {
		if t == nil {
			continue
		}
		for _, l := range t.LookupList {
			for _, s := range l.Subtables {
				switch s.(type) {
				case *gtab.Gsub1_1, *gtab.Gsub4_1, gtab.Gpos2_1:
				default:
					return false
				}
			}
		}
		_ = i
	}
	return true
}

const numFonts = fx.NumCorpus + 2 + 5

// reread writes a font and reads it again.
func reread(f *sfnt.Font) *sfnt.Font {
	w := &hx.Buf{}
	_, err := f.Write(w)
	vsym.Assert(err == nil, "cannot write the font")
	g, err := sfnt.Read(bytes.NewReader(w.B))
	vsym.Assert(err == nil, "cannot read the font")
	return g
}

func font(i int) *sfnt.Font {
	switch i {
	case 0, 1, 2, 3, 4, 5:
		return fx.Corpus(i)
	case 6:
		return fx.Layout()
	case 8, 9, 10: // fonts which are read from files
		return reread(fx.Corpus([]int{0, 2, 4}[i-8]))
	case 11: // a CID-keyed font with ranges of glyphs for the font DICTs
		var gg []*cff.Glyph
		var cids []cid.CID
		var fd []int
		for i := range 24 {
			gg = append(gg, fx.Box("", float64(500+i), 10, 0, float64(400+i), 700))
			cids = append(cids, cid.CID(i+i/5))
			fd = append(fd, i/9%2)
		}
		f := fx.CID(1000, gg, cids, fd, []matrix.Matrix{matrix.Identity, {0.5, 0, 0, 0.5, 0, 0}})
		s := cmap.Format12{0x20: 3, 'f': 12, 0x20000: 4}
		f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 10}: s.Encode(0)}
		return reread(f)
	case 12:
		return reread(fx.Layout())
	}
	// a font for which names have to be made, and without GDEF
	f := fx.Corpus(0)
	f.Gdef = nil
	f.Outlines.(*glyf.Outlines).Names = nil
	f.CMapTable[cmap.Key{PlatformID: 1}] = (&cmap.Format0{}).Encode(0)
	return f
}

func makeArgs(f *sfnt.Font) *args {
	n := f.NumGlyphs()
	a := &args{
		text:   "fiA" + string([]byte{'@' + vsym.ByteD(1)%8, 'i'}) + " x",
		glyphs: append(make([]glyph.ID, 0, 16), 0),
		lang:   []language.Tag{language.English, language.MustParse("de-CH")}[vsym.Choose(2)],
	}
	for i := n - 1; i > 0 && i > n-4; i-- {
		a.glyphs = append(a.glyphs, glyph.ID(i))
	}
	for range 3 {
		a.seq = append(a.seq, glyph.ID(vsym.Int(0, min(n, 8)-1)))
	}
	return a
}

// alone runs every operation on its own.
func alone(f *sfnt.Font, a *args, k, l int) {
	vsym.Freeze("an operation writes to memory it shares")
	r0 := &result{}
	vsym.Parallel(func() { ops[k](f, a, r0) }, func() {
		r := &result{}
		ops[k](f, a, r)
	})
	vsym.Thaw()
	r1, r2 := &result{}, &result{}
	vsym.Parallel(func() { ops[l](f, a, r1) }, func() { ops[k](f, a, r2) })
	same(r0, r2, "the result depends on other calls")
	for range vsym.Repeat() {
		vsym.MapOrder(1)
		r3 := &result{}
		ops[k](f, a, r3)
		vsym.MapOrder(0)
		same(r0, r3, "the result is not deterministic")
	}
	vsym.Observe(uint64(len(r0.data) + len(r0.text)))
}

// H_Ops runs all operations on all fonts.
//
//gosym: quick=60 thorough=400 race
func H_Ops() {
	i := vsym.Choose(numFonts)
	k := vsym.Choose(len(ops))
	l := (k + 1) % len(ops)
	if vsym.Thorough() {
		l = vsym.Choose(len(ops))
	}
	f := font(i)
	alone(f, makeArgs(f), k, l)
}
