// Package c10 checks font subsetting.
package c10

import (
	"bytes"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/mac"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

const numGlyphs = 6

// rule is a substitution rule.
type rule struct {
	in  []glyph.ID
	out glyph.ID
}

// char is one entry of a character map, with the code used in the file.
type char struct {
	code uint32
	gid  glyph.ID
}

// input is a font together with the facts used by the checks.
type input struct {
	f     *sfnt.Font
	chars map[cmap.Key][]char
	rules []rule
}

func conc(n int) int { return vsym.Concrete(vsym.Int(0, n-1)) }

// list gives a list of k+1 different glyphs, starting with 0.
func list(k int) []glyph.ID {
	res := []glyph.ID{0}
	for len(res) <= k {
		g := glyph.ID(1 + conc(numGlyphs-1))
		for _, h := range res {
			vsym.Assume(g != h)
		}
		res = append(res, g)
	}
	return res
}

// TrueType makes a font with nested composite glyphs.
func trueType() *input {
	var gg glyf.Glyphs
	var ww []funit.Int16
	var nn []string
	for i := range numGlyphs {
		t := fx.Tri(int16(i), 0, int16(100*i+50), int16(700+i))
		d := t.Data.(glyf.SimpleGlyph)
		d.Encoded[len(d.Encoded)-1] = vsym.Byte()
		t.Data = d
		t.LLx = funit.Int16(vsym.Int16())
		gg = append(gg, t)
		ww = append(ww, funit.Int16(500+i))
		nn = append(nn, string([]byte{'n', byte('0' + i)}))
	}
	nn[0] = ".notdef"
	f := fx.Glyf(1000, gg, ww)
	f.Outlines.(*glyf.Outlines).Names = nn
	return &input{f: f, chars: map[cmap.Key][]char{}}
}

func (in *input) composite(gid, a, b glyph.ID) {
	in.f.Outlines.(*glyf.Outlines).Glyphs[gid] = fx.Comp(a, b, int8(vsym.Byte()), 7)
}

func simpleCFF() *input {
	var gg []*cff.Glyph
	for i := range numGlyphs {
		gg = append(gg, fx.Box(string([]byte{'n', byte('0' + i)}), float64(500+i), 0, float64(i), 400, 700))
	}
	gg[0].Name = ".notdef"
	return &input{f: fx.CFF(1000, gg), chars: map[cmap.Key][]char{}}
}

func cidCFF(fd []int) *input {
	var gg []*cff.Glyph
	var cc []cid.CID
	for i := range numGlyphs {
		gg = append(gg, fx.Box("", float64(500+i), 0, float64(i), 400, 700))
		if i == 0 {
			cc = append(cc, 0)
		} else { // different CIDs, in any order
			c := cid.CID(vsym.Uint16D(uint16(6 * i)))
			vsym.Assume(int(c)%6 == i-1)
			cc = append(cc, c)
		}
	}
	f := fx.CID(1000, gg, cc, fd, []matrix.Matrix{matrix.Identity, {0.5, 0, 0, 0.5, 0, 0}, {1, 0, 0.25, 1, 0, 0}})
	for i, p := range f.Outlines.(*cff.Outlines).Private {
		p.StdVW = float64(80 + i)
		p.BlueValues = []funit.Int16{-15, 0, funit.Int16(vsym.Int(600, 800)), 1000}
	}
	return &input{f: f, chars: map[cmap.Key][]char{}}
}

func (in *input) add(key cmap.Key, format int, cc []char) {
	if in.f.CMapTable == nil {
		in.f.CMapTable = cmap.Table{}
	}
	in.chars[key] = cc
	switch format {
	case 0:
		s := &cmap.Format0{}
		for _, c := range cc {
			s.Data[c.code] = byte(c.gid)
		}
		in.f.CMapTable[key] = s.Encode(key.Language)
	case 4:
		s := cmap.Format4{}
		for _, c := range cc {
			s[uint16(c.code)] = c.gid
		}
		in.f.CMapTable[key] = s.Encode(key.Language)
	case 6:
		b := []byte{0, 6, 0, byte(10 + 2*len(cc)), 0, 0, byte(cc[0].code >> 8), byte(cc[0].code), 0, byte(len(cc))}
		for _, c := range cc {
			b = append(b, byte(c.gid>>8), byte(c.gid))
		}
		in.f.CMapTable[key] = b
	case 12:
		s := cmap.Format12{}
		for _, c := range cc {
			s[c.code] = c.gid
		}
		in.f.CMapTable[key] = s.Encode(key.Language)
	}
}

func sameGlyf(a, b *glyf.Glyph, newGid map[glyph.ID]glyph.ID) {
	if a == nil || b == nil {
		vsym.Assert(a == nil && b == nil, "empty glyph changed")
		return
	}
	vsym.Assert(a.Rect16 == b.Rect16, "glyph bounding box changed")
	switch d := a.Data.(type) {
	case glyf.SimpleGlyph:
		e, ok := b.Data.(glyf.SimpleGlyph)
		vsym.Assert(ok && e.NumContours == d.NumContours && bytes.Equal(d.Encoded, e.Encoded), "simple glyph changed")
	case glyf.CompositeGlyph:
		e, ok := b.Data.(glyf.CompositeGlyph)
		vsym.Assert(ok && len(e.Components) == len(d.Components), "composite glyph changed")
		vsym.Assert(bytes.Equal(d.Instructions, e.Instructions), "glyph instructions changed")
		for i, c := range d.Components {
			x := e.Components[i]
			vsym.Assert(c.Flags == x.Flags && bytes.Equal(c.Data, x.Data), "composite glyph component changed")
			n, ok := newGid[c.GlyphIndex]
			vsym.Assert(ok, "component glyph missing")
			vsym.Assert(x.GlyphIndex == n, "composite glyph refers to the wrong component")
			vsym.Reach("component")
		}
	}
}

func sameCFF(a, b *cff.Glyph) {
	vsym.Assert(a.Name == b.Name, "glyph name changed")
	vsym.Assert(a.Width == b.Width, "glyph width changed")
	vsym.Assert(len(a.Cmds) == len(b.Cmds), "outline changed")
	for i, c := range a.Cmds {
		d := b.Cmds[i]
		vsym.Assert(c.Op == d.Op && len(c.Args) == len(d.Args), "outline changed")
		for j := range c.Args {
			vsym.Assert(c.Args[j] == d.Args[j], "outline changed")
		}
	}
}

// check compares the subset to the original font.  It returns the original
// glyph for each glyph of the subset.
func (in *input) check(gg []glyph.ID, g *sfnt.Font) []glyph.ID {
	f := in.f
	n := g.NumGlyphs()
	vsym.Assert(n >= len(gg), "glyphs are missing")

	// what has to be in the subset, and what can be
	must := map[glyph.ID]bool{}
	for _, x := range gg {
		must[x] = true
	}
	may := map[glyph.ID]bool{}
	closeRules := func(set map[glyph.ID]bool) bool {
		changed := false
		for again := true; again; {
			again = false
			for _, r := range in.rules {
				ok := !set[r.out]
				for _, x := range r.in {
					ok = ok && set[x]
				}
				if ok {
					set[r.out] = true
					again, changed = true, true
				}
			}
		}
		return changed
	}
	closeComp := func(set map[glyph.ID]bool) {
		o, ok := f.Outlines.(*glyf.Outlines)
		if !ok {
			return
		}
		for again := true; again; {
			again = false
			for i := range numGlyphs {
				if !set[glyph.ID(i)] {
					continue
				}
				for _, c := range o.Glyphs[i].Components() {
					if !set[c] {
						set[c] = true
						again = true
					}
				}
			}
		}
	}
	closeRules(must)
	closeComp(must)
	for x := range must {
		may[x] = true
	}
	for closeRules(may) {
		closeComp(may)
	}

	// identify the glyphs: the widths are unique
	old := make([]glyph.ID, n)
	newGid := map[glyph.ID]glyph.ID{}
	for i := range n {
		w := g.GlyphWidth(glyph.ID(i))
		x := glyph.ID(0xFFFF)
		for j := range numGlyphs {
			if f.GlyphWidth(glyph.ID(j)) == w {
				x = glyph.ID(j)
			}
		}
		vsym.Assert(x != 0xFFFF, "glyph width changed")
		if i < len(gg) {
			vsym.Assert(x == gg[i], "wrong glyph")
		} else {
			vsym.Assert(may[x], "unneeded glyph")
			vsym.Reach("extra")
		}
		_, dup := newGid[x]
		vsym.Assert(!dup, "duplicate glyph")
		old[i] = x
		newGid[x] = glyph.ID(i)
	}
	for x := range must {
		_, ok := newGid[x]
		vsym.Assert(ok, "needed glyph is missing")
	}

	// outlines
	switch a := f.Outlines.(type) {
	case *glyf.Outlines:
		b := g.Outlines.(*glyf.Outlines)
		vsym.Assert(len(b.Glyphs) == n && len(b.Widths) == n, "inconsistent outlines")
		for i, x := range old {
			sameGlyf(a.Glyphs[x], b.Glyphs[i], newGid)
			vsym.Assert(g.GlyphName(glyph.ID(i)) == f.GlyphName(x), "glyph name changed")
		}
	case *cff.Outlines:
		in.checkCFF(a, g.Outlines.(*cff.Outlines), old, newGid)
	}

	// the character map
	vsym.Assert(len(g.CMapTable) == len(in.chars), "wrong number of cmap subtables")
	for key, cc := range in.chars {
		sub, err := g.CMapTable.Get(key)
		vsym.Assert(err == nil, "cannot read the cmap subtable")
		want := map[uint32]glyph.ID{}
		for _, c := range cc {
			code := c.code
			if key.PlatformID == 1 {
				code = uint32(mac.DecodeOne(byte(code)))
			}
			if n := newGid[c.gid]; n != 0 {
				want[code] = n
			}
		}
		for code, n := range want {
			vsym.Assert(sub.Lookup(rune(code)) == n, "character mapped to the wrong glyph")
			vsym.Reach("mapped")
		}
		count := 0
		switch sub := sub.(type) {
		case cmap.Format4:
			for _, n := range sub {
				if n != 0 {
					count++
				}
			}
		case cmap.Format12:
			for _, n := range sub {
				if n != 0 {
					count++
				}
			}
		case *cmap.Format0:
			for _, n := range sub.Data {
				if n != 0 {
					count++
				}
			}
		}
		vsym.Assert(count == len(want), "wrong number of mapped characters")
	}
	return old
}

func (in *input) checkCFF(a, b *cff.Outlines, old []glyph.ID, newGid map[glyph.ID]glyph.ID) {
	n := len(old)
	vsym.Assert(len(b.Glyphs) == n, "inconsistent outlines")
	vsym.Assert(a.IsCIDKeyed() == b.IsCIDKeyed(), "kind of font changed")
	for i, x := range old {
		sameCFF(a.Glyphs[x], b.Glyphs[i])
		fa, fb := a.FDSelect(x), b.FDSelect(glyph.ID(i))
		vsym.Assert(fb >= 0 && fb < len(b.Private), "invalid private dictionary")
		p, q := a.Private[fa], b.Private[fb]
		vsym.Assert(p.StdVW == q.StdVW && p.StdHW == q.StdHW && len(p.BlueValues) == len(q.BlueValues), "private dictionary changed")
		for j := range p.BlueValues {
			vsym.Assert(p.BlueValues[j] == q.BlueValues[j], "private dictionary changed")
		}
	}
	if a.IsCIDKeyed() {
		vsym.Assert(len(b.GIDToCID) == n, "wrong number of CIDs")
		vsym.Assert(len(b.FontMatrices) == len(b.Private), "wrong number of font matrices")
		vsym.Assert(*a.ROS == *b.ROS, "ROS changed")
		for i, x := range old {
			vsym.Assert(a.GIDToCID[x] == b.GIDToCID[i], "CID changed")
			vsym.Assert(a.FontMatrices[a.FDSelect(x)] == b.FontMatrices[b.FDSelect(glyph.ID(i))], "font matrix changed")
		}
	}
	if a.Encoding != nil {
		vsym.Assert(len(b.Encoding) == 256, "encoding missing")
		for c, x := range a.Encoding {
			vsym.Assert(b.Encoding[c] == newGid[x], "encoding changed")
		}
	}
}

// readBack writes the subset and reads it again.
func readBack(g *sfnt.Font) *sfnt.Font {
	w := &hx.Buf{}
	_, err := g.Write(w)
	vsym.Assert(err == nil, "cannot write the subset")
	res, err := sfnt.Read(bytes.NewReader(w.B))
	vsym.Assert(err == nil, "cannot read the subset")
	return res
}

// run makes the subset, and checks it before and after writing.
func (in *input) run(gg []glyph.ID, write bool) {
	backing := append(append(make([]glyph.ID, 0, 20), gg...), 77)
	vsym.Freeze("font")
	g := in.f.Subset(backing[:len(gg)])
	vsym.Thaw()
	vsym.Assert(backing[:len(gg)+1][len(gg)] == 77, "memory of the caller overwritten")
	old := in.check(gg, g)
	in.layout(g, old)
	for range vsym.Repeat() {
		vsym.MapOrder(1)
		h := in.f.Subset(gg)
		vsym.MapOrder(0)
		n := h.NumGlyphs()
		vsym.Assert(n == len(old), "different subset for a second call")
		for i := range n {
			vsym.Assert(h.GlyphWidth(glyph.ID(i)) == in.f.GlyphWidth(old[i]), "different subset for a second call")
		}
		if !write {
			break
		}
	}
	if write {
		g = readBack(g)
		old = in.check(gg, g)
		in.layout(g, old)
	}
	vsym.Observe(uint64(len(old)))
}

// layout compares the effect of all features on a sequence of glyphs.
func (in *input) layout(g *sfnt.Font, old []glyph.ID) {
	if in.f.Gsub == nil && in.f.Gpos == nil {
		return
	}
	k := 3
	var sa, sb []glyph.Info
	newGid := map[glyph.ID]glyph.ID{}
	for i, x := range old {
		newGid[x] = glyph.ID(i)
	}
	for range k {
		i := conc(len(old))
		sa = append(sa, glyph.Info{GID: old[i], Advance: 100})
		sb = append(sb, glyph.Info{GID: glyph.ID(i), Advance: 100})
	}
	for t := range 2 {
		a, b := in.f.Gsub, g.Gsub
		if t == 1 {
			a, b = in.f.Gpos, g.Gpos
		}
		if a == nil {
			vsym.Assert(b == nil, "layout table appeared")
			continue
		}
		vsym.Assert(b != nil, "layout table is missing")
		vsym.Assert(len(a.ScriptList) == len(b.ScriptList) && len(a.FeatureList) == len(b.FeatureList), "scripts or features changed")
		for tag, x := range a.ScriptList {
			y := b.ScriptList[tag]
			vsym.Assert(y != nil && x.Required == y.Required && len(x.Optional) == len(y.Optional), "script list changed")
			for i := range x.Optional {
				vsym.Assert(x.Optional[i] == y.Optional[i], "script list changed")
			}
		}
		for i, x := range a.FeatureList {
			y := b.FeatureList[i]
			vsym.Assert(x.Tag == y.Tag, "feature tag changed")
			ra := gtab.NewContext(a.LookupList, nil, x.Lookups).Apply(append([]glyph.Info{}, sa...))
			rb := gtab.NewContext(b.LookupList, nil, y.Lookups).Apply(append([]glyph.Info{}, sb...))
			skip := false
			for _, r := range ra {
				if _, ok := newGid[r.GID]; !ok {
					skip = true // a rule outside the retained glyphs
				}
			}
			if skip {
				continue
			}
			vsym.Assert(len(ra) == len(rb), "layout changed")
			for j := range ra {
				vsym.Assert(newGid[ra[j].GID] == rb[j].GID, "substitution changed")
				vsym.Assert(ra[j].Advance == rb[j].Advance && ra[j].XOffset == rb[j].XOffset, "kerning changed")
			}
			if len(ra) < k {
				vsym.Reach("ligature")
			}
		}
	}
}

// H_Composite is about nested composite glyphs.
//
//gosym: quick=10 thorough=200
func H_Composite() {
	in := trueType()
	// composites refer to simple glyphs or to composites with larger index
	pick := func(lo int) glyph.ID {
		c := 1 + conc(numGlyphs-1)
		vsym.Assume(c <= 2 || c >= lo)
		return glyph.ID(c)
	}
	in.composite(3, pick(4), pick(4))
	in.composite(4, pick(5), 1)
	if vsym.Bool() {
		in.composite(5, 2, 2)
	}
	in.run(list(1+vsym.Choose(2)), false)
}

// H_CompositeFile also writes the subset.
//
//gosym: quick=10 thorough=200
func H_CompositeFile() {
	in := trueType()
	in.composite(3, 4, 1)
	in.composite(4, 5, 2)
	in.f.Outlines.(*glyf.Outlines).Glyphs[2] = nil
	in.add(cmap.Key{PlatformID: 3, EncodingID: 1}, 4, []char{{'A', 1}, {'B', 3}, {'C', 4}, {'D', 5}, {0x4E00, 2}})
	if vsym.Bool() {
		o := in.f.Outlines.(*glyf.Outlines)
		o.Names = nil
	}
	in.run(list(vsym.Choose(4)), true)
}

// H_CMap is about the formats of the character map.
//
//gosym: quick=10 thorough=200
func H_CMap() {
	in := trueType()
	in.composite(5, 4, 2)
	a := func() glyph.ID { return glyph.ID(conc(numGlyphs)) }
	switch vsym.Choose(6) {
	case 0:
		in.add(cmap.Key{PlatformID: 3, EncodingID: 1}, 4, []char{{32, a()}, {33, a()}, {0xFFF0, 5}})
		in.add(cmap.Key{PlatformID: 0, EncodingID: 3}, 4, []char{{'x', 4}})
	case 1:
		in.add(cmap.Key{PlatformID: 3, EncodingID: 10}, 12, []char{{0x20, a()}, {0x21, 1}, {0x22, a()}, {0x10FFF, 2}})
	case 2:
		in.add(cmap.Key{PlatformID: 1, EncodingID: 0}, 0, []char{{0x20, a()}, {0x80, a()}, {0xFF, 3}})
	case 3:
		in.add(cmap.Key{PlatformID: 1, EncodingID: 0, Language: 7}, 6, []char{{0x7F, a()}, {0x80, a()}, {0x81, 3}})
	case 4:
		in.add(cmap.Key{PlatformID: 3, EncodingID: 0}, 0, []char{{0x20, a()}, {0xFF, a()}, {0, 2}})
	case 5:
		in.add(cmap.Key{PlatformID: 0, EncodingID: 3}, 6, []char{{0x3FF, a()}, {0x400, a()}, {0x401, 3}})
	}
	in.run(list(2), false)
}

// H_CMapFile writes the subset as well.
//
//gosym: quick=8 thorough=200
func H_CMapFile() {
	in := simpleCFF()
	in.add(cmap.Key{PlatformID: 1, EncodingID: 0}, 0, []char{{0x20, 1}, {0x80, 3}, {0xFF, 3}, {0xCA, 4}})
	in.add(cmap.Key{PlatformID: 3, EncodingID: 1}, 4, []char{{0x20, 1}, {0xC4, 3}, {0xC5, 2}})
	in.add(cmap.Key{PlatformID: 3, EncodingID: 10}, 12, []char{{0x20, 1}, {0xC4, 3}, {0xC5, 2}, {0x20000, 5}})
	in.run(list(vsym.Choose(4)), true)
}

// H_Encoding is about simple CFF fonts with built-in encodings.
//
//gosym: quick=10 thorough=200
func H_Encoding() {
	in := simpleCFF()
	o := in.f.Outlines.(*cff.Outlines)
	switch vsym.Choose(3) {
	case 0:
		o.Encoding = make([]glyph.ID, 256)
		for _, c := range []int{0, 65, 66, 255} {
			o.Encoding[c] = glyph.ID(conc(numGlyphs))
		}
	case 1:
		for i, c := range []string{"A", "B", "space", "dotlessi"} {
			o.Glyphs[i+1].Name = c
		}
		o.Encoding = cff.StandardEncoding(o.Glyphs)
	case 2:
		o.Encoding = make([]glyph.ID, 256)
		for c := range 256 {
			o.Encoding[c] = glyph.ID(c % numGlyphs)
		}
	}
	gg := list(vsym.Choose(3))
	in.run(gg, false)

	sub := o.Subset(gg)
	newGid := map[glyph.ID]glyph.ID{}
	for i, x := range gg {
		newGid[x] = glyph.ID(i)
	}
	in.checkCFF(o, sub, gg, newGid)
}

// H_EncodingFile writes the subset as well.
//
//gosym: quick=10 thorough=200
func H_EncodingFile() {
	in := simpleCFF()
	o := in.f.Outlines.(*cff.Outlines)
	o.Encoding = make([]glyph.ID, 256)
	switch vsym.Choose(2) {
	case 0: // contiguous, as required for the original font
		for i, c := range []int{65, 66, 3, 255, 67} {
			o.Encoding[c] = glyph.ID(i + 1)
		}
	case 1: // not all glyphs are encoded, some have two codes
		for i, c := range []int{65, 66, 3, 255, 67} {
			o.Encoding[c] = glyph.ID(1 + i%3)
		}
	}
	in.run(list(vsym.Choose(5)), true)
}

// H_CID is about CID-keyed fonts with several font dictionaries.
//
//gosym: quick=10 thorough=200
func H_CID() {
	fd := make([]int, numGlyphs)
	for i := range fd {
		fd[i] = vsym.Choose(3)
	}
	in := cidCFF(fd)
	gg := list(2)
	in.run(gg, false)
	o := in.f.Outlines.(*cff.Outlines)
	in.checkCFF(o, o.Subset(gg), gg, nil)
}

// H_CIDFile writes the subset as well.
//
//gosym: quick=10 thorough=200
func H_CIDFile() {
	fd := []int{0, 1, 2, 1, 0, 2}
	if vsym.Choose(2) == 1 {
		fd = []int{2, 2, 0, 1, 1, 2}
	}
	in := cidCFF(fd)
	in.add(cmap.Key{PlatformID: 3, EncodingID: 10}, 12, []char{{0x20, 1}, {0x4E00, 2}, {0x20000, 5}})
	in.run(list(vsym.Choose(5)), true)
}

func info(feat [][]gtab.LookupIndex, ll ...*gtab.LookupTable) *gtab.Info {
	res := &gtab.Info{
		ScriptList: gtab.ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF}},
		LookupList: ll,
	}
	for i, l := range feat {
		res.FeatureList = append(res.FeatureList, &gtab.Feature{Tag: string([]byte{'t', 'e', 's', byte('a' + i)}), Lookups: l})
		for _, s := range res.ScriptList {
			s.Optional = append(s.Optional, gtab.FeatureIndex(i))
		}
	}
	return res
}

func lookup(t uint16, ss ...gtab.Subtable) *gtab.LookupTable {
	return &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: t}, Subtables: ss}
}

// subst1 makes a GSUB 1.1 subtable.
func (in *input) subst1(a, b glyph.ID, delta int) gtab.Subtable {
	d := glyph.ID(delta)
	in.rules = append(in.rules, rule{[]glyph.ID{a}, a + d}, rule{[]glyph.ID{b}, b + d})
	return &gtab.Gsub1_1{Cov: coverage.Set{a: true, b: true}, Delta: d}
}

// subst4 makes a GSUB 4.1 subtable.
func (in *input) subst4(rr ...rule) gtab.Subtable {
	res := &gtab.Gsub4_1{Cov: coverage.Table{}}
	for g := range glyph.ID(numGlyphs) {
		var ll []gtab.Ligature
		for _, r := range rr {
			if r.in[0] == g {
				ll = append(ll, gtab.Ligature{In: r.in[1:], Out: r.out})
			}
		}
		if ll != nil {
			res.Cov[g] = len(res.Repl)
			res.Repl = append(res.Repl, ll)
		}
	}
	in.rules = append(in.rules, rr...)
	return res
}

func (in *input) gsub() {
	g := func() glyph.ID { return glyph.ID(1 + conc(numGlyphs-1)) }
	type gs = []glyph.ID
	switch vsym.Choose(4) {
	case 0: // one ligature, anywhere
		s := in.subst4(rule{gs{g(), g()}, g()})
		in.f.Gsub = info([][]gtab.LookupIndex{{0}}, lookup(4, s))
	case 1: // several ligatures
		s := in.subst4(rule{gs{1, 2, 3}, 4}, rule{gs{1, 2}, g()}, rule{gs{2, g()}, 5}, rule{gs{4}, 5})
		t := in.subst4(rule{gs{2, 2}, 1})
		in.f.Gsub = info([][]gtab.LookupIndex{{0}}, lookup(4, s, t))
	case 2: // single substitution
		a, b := g(), g()
		vsym.Assume(a < b)
		d := conc(2*numGlyphs) - numGlyphs
		vsym.Assume(int(a)+d >= 0 && int(b)+d < numGlyphs)
		s := in.subst1(a, b, d)
		in.f.Gsub = info([][]gtab.LookupIndex{{0}}, lookup(1, s))
	case 3: // several lookups: removing one must not change the others
		s := in.subst4(rule{gs{1, 2}, 3})
		t := in.subst1(4, 5, -3)
		u := in.subst4(rule{gs{3, g()}, 5})
		in.f.Gsub = info([][]gtab.LookupIndex{{0}, {1}, {2}, {0, 1, 2}}, lookup(4, s), lookup(1, t), lookup(4, u))
	}
}

// H_Gsub is about substitution rules.
//
//gosym: quick=14 thorough=300
func H_Gsub() {
	in := trueType()
	if vsym.Choose(2) == 1 {
		in.composite(5, 3, 1)
	}
	in.gsub()
	in.run(list(1+vsym.Choose(3)), false)
}

// H_GsubFile writes the subset as well.
//
//gosym: quick=12 thorough=300
func H_GsubFile() {
	in := simpleCFF()
	in.add(cmap.Key{PlatformID: 3, EncodingID: 1}, 4, []char{{'f', 1}, {'i', 2}, {0xFB01, 3}})
	in.gsub()
	in.run(list(1+vsym.Choose(3)), true)
}

// H_Gpos is about kerning pairs.
//
//gosym: quick=12 thorough=300
func H_Gpos() {
	in := trueType()
	pairs := gtab.Gpos2_1{}
	for i := range 3 {
		a, b := glyph.ID(conc(numGlyphs)), glyph.ID(conc(numGlyphs))
		p := &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(vsym.Int16D(int16(10 * (i + 1))))}}
		if i == 2 {
			a, b = 2, 4
			p.Second = &gtab.GposValueRecord{XAdvance: 7}
		}
		pairs[glyph.Pair{Left: a, Right: b}] = p
	}
	more := gtab.Gpos2_1{glyph.Pair{Left: 5, Right: 4}: &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: -5}}}
	in.f.Gpos = info([][]gtab.LookupIndex{{1}, {0}}, lookup(2, more), lookup(2, pairs, more))
	in.run(list(1+vsym.Choose(2)), false)
}

// H_GposFile writes the subset as well.
//
//gosym: quick=10 thorough=300
func H_GposFile() {
	in := cidCFF(make([]int, numGlyphs))
	adj := func(x funit.Int16) *gtab.PairAdjust {
		return &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: x}}
	}
	pairs := gtab.Gpos2_1{{Left: 1, Right: 2}: adj(3), {Left: 1, Right: 3}: adj(4), {Left: 4, Right: 1}: adj(5), {Left: 0, Right: 5}: adj(6)}
	more := gtab.Gpos2_1{{Left: 5, Right: 4}: adj(7), {Left: 1, Right: 2}: adj(8)}
	in.f.Gpos = info([][]gtab.LookupIndex{{1}, {0}}, lookup(2, more), lookup(2, pairs, more))
	in.run(list(1+vsym.Choose(3)), true)
}
