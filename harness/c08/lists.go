package c08

import (
	"bytes"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/parser"

	"seehuhn.de/go/sfnt/internal/vsym"
)

// H_Lookups: several lookups and subtables.
//
//gosym: quick=10 thorough=60
func H_Lookups() {
	var ll gtab.LookupList
	n := vsym.Choose(4)
	gpos := vsym.Choose(2) == 1
	for i := range n {
		m := vsym.Choose(3)
		l := &gtab.LookupTable{}
		tp := uint16(1)
		for range m {
			if gpos {
				if i == 1 {
					tp = 8
					l.Subtables = append(l.Subtables, &gtab.SeqContext3{Input: sets(1, 1), Actions: acts(1)})
					tp = 7
				} else {
					l.Subtables = append(l.Subtables, &gtab.Gpos1_1{Cov: cov(1), Adjust: val(5)})
				}
			} else {
				if i == 1 {
					tp = 4
					l.Subtables = append(l.Subtables, &gtab.Gsub4_1{Cov: cov(1), Repl: [][]gtab.Ligature{{{In: gids(1), Out: gid()}}}})
				} else {
					l.Subtables = append(l.Subtables, &gtab.Gsub1_1{Cov: set(1), Delta: gid()})
				}
			}
		}
		l.Meta = meta(tp)
		ll = append(ll, l)
	}
	if ll == nil {
		ll = gtab.LookupList{}
	}
	t := gtab.Type(gtab.TypeGsub)
	if gpos {
		t = gtab.TypeGpos
	}
	checkLookups(ll, t)
}

var langs = []struct {
	tag          string
	script, lang string
}{
	{"und-Zzzz-x-dflt", "DFLT", ""},
	{"und-Latn-x-latn", "latn", ""},
	{"de-Latn-x-latn-deu", "latn", "DEU "},
	{"en-Latn-x-latn-eng", "latn", "ENG "},
	{"und-Laoo-x-lao", "lao ", ""},
	{"und-Arab-x-arab", "arab", ""},
	{"ur-Arab-x-arab-urd", "arab", "URD "},
	{"tr-Latn-x-latn-trk", "latn", "TRK "},
}

type langRec struct {
	script, lang string
	f            *gtab.Features
}

// scripts decodes a script list.
func (r *rd) scripts(pos int) []langRec {
	var res []langRec
	n := r.c(pos)
	prev := ""
	for i := range n {
		tag := string(vsym.ConcreteBytes(r.raw(pos+2+6*i, 4)))
		vsym.Assert(prev < tag, "script records not sorted")
		prev = tag
		p := pos + r.c(pos+6+6*i)
		if o := r.c(p); o != 0 {
			res = append(res, langRec{tag, "", r.langSys(p + o)})
		}
		m := r.c(p + 2)
		prevLang := ""
		for j := range m {
			lang := string(vsym.ConcreteBytes(r.raw(p+4+6*j, 4)))
			vsym.Assert(prevLang < lang, "language records not sorted")
			prevLang = lang
			res = append(res, langRec{tag, lang, r.langSys(p + r.c(p+8+6*j))})
		}
	}
	return res
}

func (r *rd) langSys(pos int) *gtab.Features {
	vsym.Assert(r.u(pos) == 0, "lookupOrder is not zero")
	f := &gtab.Features{Required: gtab.FeatureIndex(r.u(pos + 2))}
	n := r.c(pos + 4)
	for i := range n {
		f.Optional = append(f.Optional, gtab.FeatureIndex(r.u(pos+6+2*i)))
	}
	return f
}

func (r *rd) features(pos int) []int {
	n := r.c(pos)
	res := []int{n}
	for i := range n {
		tag := r.raw(pos+2+6*i, 4)
		p := pos + r.c(pos+6+6*i)
		vsym.Assert(r.u(p) == 0, "featureParams is not zero")
		m := r.c(p + 2)
		res = append(res, int(tag[0]), int(tag[1]), int(tag[2]), int(tag[3]), m)
		for j := range m {
			res = append(res, r.u(p+4+2*j))
		}
	}
	return res
}

func flatFeatures(ff gtab.FeatureListInfo) []int {
	res := []int{len(ff)}
	for _, f := range ff {
		vsym.Assert(len(f.Tag) == 4, "wrong feature tag length")
		res = append(res, int(f.Tag[0]), int(f.Tag[1]), int(f.Tag[2]), int(f.Tag[3]), len(f.Lookups))
		for _, l := range f.Lookups {
			res = append(res, int(l))
		}
	}
	return res
}

func flatLang(f *gtab.Features) []int {
	res := []int{int(f.Required), len(f.Optional)}
	for _, x := range f.Optional {
		res = append(res, int(x))
	}
	return res
}

// H_Scripts: script lists with several scripts and languages, feature lists
// with arbitrary tags, and all combinations of missing lists.
//
//gosym: quick=15 thorough=120
func H_Scripts() {
	vsym.MapOrder(vsym.Choose(2))
	info := &gtab.Info{}
	mode := vsym.Choose(8)
	var want []langRec
	if mode&1 != 0 {
		info.ScriptList = gtab.ScriptListInfo{}
		pick := vsym.Choose(7)
		for i, l := range langs {
			// 0: none, 1..6: various groups
			if pick == 0 || (pick < 6 && i%pick != 0) {
				continue
			}
			f := &gtab.Features{Required: gtab.FeatureIndex(vsym.Uint16())}
			for range i % 3 {
				x := vsym.Uint16()
				vsym.Assume(x != 0xFFFF)
				f.Optional = append(f.Optional, gtab.FeatureIndex(x))
			}
			info.ScriptList[language.MustParse(l.tag)] = f
			want = append(want, langRec{l.script, l.lang, f})
		}
	}
	if mode&2 != 0 {
		info.FeatureList = gtab.FeatureListInfo{}
		for i := range vsym.Choose(4) {
			f := &gtab.Feature{Tag: string(vsym.Bytes(4))}
			for range (i + 1) % 3 {
				f.Lookups = append(f.Lookups, gtab.LookupIndex(vsym.Uint16()))
			}
			info.FeatureList = append(info.FeatureList, f)
		}
	}
	if mode&4 != 0 {
		info.LookupList = gtab.LookupList{}
		if vsym.Choose(2) == 1 {
			st, tp := genGsub(0)
			info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: meta(tp), Subtables: []gtab.Subtable{st}})
		}
	}
	body := info.Encode()
	r := newRd(body)
	s, f, l := header(r)
	vsym.Assert((s != 0) == (mode&1 != 0), "script list missing or unexpected")
	vsym.Assert((f != 0) == (mode&2 != 0), "feature list missing or unexpected")
	vsym.Assert((l != 0) == (mode&4 != 0), "lookup list missing or unexpected")
	if s != 0 {
		got := r.scripts(s)
		vsym.Assert(len(got) == len(want), "wrong number of language systems")
		for _, w := range want {
			found := 0
			for _, g := range got {
				if g.script == w.script && g.lang == w.lang {
					found++
					same(flatLang(g.f), flatLang(w.f), "language system differs")
				}
			}
			vsym.Assert(found == 1, "language system not found")
		}
	}
	if f != 0 {
		same(r.features(f), flatFeatures(info.FeatureList), "feature list differs")
	}
	if l != 0 {
		same(r.lookups(l, false), flatLookups(info.LookupList), "lookup list differs")
	}
	r.done()

	info2, err := gtab.Read(bytes.NewReader(body), gtab.TypeGsub)
	vsym.Assert(err == nil, "encoded table cannot be read")
	vsym.Assert((info2.ScriptList == nil) == (info.ScriptList == nil), "read: script list nil-ness")
	vsym.Assert((info2.FeatureList == nil) == (info.FeatureList == nil), "read: feature list nil-ness")
	vsym.Assert((info2.LookupList == nil) == (info.LookupList == nil), "read: lookup list nil-ness")
	vsym.Assert(len(info2.ScriptList) == len(info.ScriptList), "read: number of language systems differs")
	for tag, f := range info.ScriptList {
		f2 := info2.ScriptList[tag]
		vsym.Assert(f2 != nil, "read: language system missing")
		same(flatLang(f2), flatLang(f), "read: language system differs")
	}
	same(flatFeatures(info2.FeatureList), flatFeatures(info.FeatureList), "read: feature list differs")
	same(flatLookups(info2.LookupList), flatLookups(info.LookupList), "read: lookup list differs")
	vsym.Assert(vsym.EqBytes(body, info2.Encode()), "encoding again gives different bytes")
}

// H_BadLists: lists which cannot be represented are refused.
//
//gosym: quick=10 thorough=60
func H_BadLists() {
	info := &gtab.Info{}
	ok := false
	n := 0
	switch k := vsym.Choose(8); k {
	case 0: // tags of wrong length
		n = vsym.Choose(6)
		info.FeatureList = gtab.FeatureListInfo{{Tag: string(vsym.Bytes(n))}}
		ok = n == 4
	case 1: // number of lookups in a feature
		n = 65534 + vsym.Choose(4)
		info.FeatureList = gtab.FeatureListInfo{{Tag: "test", Lookups: make([]gtab.LookupIndex, n)}}
		ok = n <= 65535
	case 2: // offset of the last feature
		n = 32756 + vsym.Choose(5)
		info.FeatureList = gtab.FeatureListInfo{{Tag: "test", Lookups: make([]gtab.LookupIndex, n)}, {Tag: "aaaa"}}
		ok = 14+4+2*n <= 65535
	case 3:
		info.ScriptList = gtab.ScriptListInfo{
			language.MustParse("und-Latn-x-latn"): {Required: 1, Optional: []gtab.FeatureIndex{1, 0xFFFF}},
		}
	case 4:
		n = 32750 + vsym.Choose(12)
		info.ScriptList = gtab.ScriptListInfo{
			language.MustParse("und-Latn-x-latn"): {Required: 1, Optional: make([]gtab.FeatureIndex, n)},
			language.MustParse("und-Zzzz-x-dflt"): {Required: 2},
		}
		ok = 2+2*6+2*4+2*6+2*n <= 65535
	case 5: // two tags for the same script
		info.ScriptList = gtab.ScriptListInfo{
			language.MustParse("und-Latn-x-latn"): {Required: 1},
			language.MustParse("und-Latn"):        {Required: 2},
		}
	case 6: // unknown script
		info.ScriptList = gtab.ScriptListInfo{language.MustParse("und-Zxxx"): {Required: 1}}
	case 7: // script list and feature list too large together
		n = 16000 + 381*vsym.Choose(5)
		info.ScriptList = gtab.ScriptListInfo{
			language.MustParse("und-Latn-x-latn"): {Required: 1, Optional: make([]gtab.FeatureIndex, n)},
		}
		info.FeatureList = gtab.FeatureListInfo{{Tag: "test", Lookups: make([]gtab.LookupIndex, n)}}
		info.LookupList = gtab.LookupList{}
		ok = 10+2+6+4+6+2*n+2+6+4+2*n <= 65535
	}
	body := encode(info)
	if body == nil {
		vsym.Assert(!ok, "valid lists are refused")
		vsym.Reach("refused")
		return
	}
	info2, err := gtab.Read(bytes.NewReader(body), gtab.TypeGsub)
	vsym.Assert(err == nil, "encoded lists cannot be read")
	vsym.Assert(len(info2.ScriptList) == len(info.ScriptList), "number of language systems differs")
	for tag, f := range info.ScriptList {
		f2 := info2.ScriptList[tag]
		vsym.Assert(f2 != nil, "language system missing")
		same(flatLang(f2), flatLang(f), "language system differs")
	}
	same(flatFeatures(info2.FeatureList), flatFeatures(info.FeatureList), "feature list differs")
	vsym.Assert((info2.LookupList == nil) == (info.LookupList == nil), "lookup list lost")
	vsym.Reach("written")
}

// H_Coverage: coverage tables.
//
//gosym: quick=10 thorough=120
func H_Coverage() {
	n := vsym.Choose(6)
	if vsym.Thorough() {
		n = vsym.Choose(10)
	}
	c := cov(n)
	body := c.Encode()
	vsym.Assert(len(body) == c.EncodeLen(), "EncodeLen differs from the emitted size")
	r := newRd(body)
	same(r.cov(0), fCov(c), "encoded coverage differs")
	r.done()
	pad := append([]byte{1, 2, 3}, body...)
	c2, err := coverage.Read(parser.New(bytes.NewReader(pad)), 3)
	vsym.Assert(err == nil, "coverage cannot be read")
	same(fCov(c2), fCov(c), "coverage read back differs")
	s2, err := coverage.ReadSet(parser.New(bytes.NewReader(pad)), 3)
	vsym.Assert(err == nil, "coverage set cannot be read")
	same(fSet(s2), fCov(c), "coverage set read back differs")
	vsym.Reach("checked")
}

// H_ClassDef: class definition tables.  The glyphs of each block are
// consecutive.
//
//gosym: quick=15 thorough=120
func H_ClassDef() {
	base := []int{0, 5, 65530}[vsym.Choose(3)]
	n := vsym.Choose(6)
	hole := vsym.Choose(3)
	zeros := vsym.Choose(2) == 1 // explicit entries for class 0
	c := classdef.Table{}
	for i := range n {
		g := base + i
		if hole == 1 && i >= n/2 {
			g++
		} else if hole == 2 && i >= n/2 {
			g = base ^ 0x4000 + i
		}
		if g > 0xFFFF {
			break
		}
		cl := vsym.Uint16D(uint16(1 + i/2))
		if cl != 0 || zeros {
			c[glyph.ID(g)] = cl
		}
	}
	body := c.Append(nil)
	vsym.Assert(len(body) == c.AppendLen(), "AppendLen differs from the emitted size")
	r := newRd(body)
	r.loose = zeros
	same(r.class(0), fClass(c), "encoded class definition differs")
	r.done()
	pad := append([]byte{1, 2, 3}, c.Append(nil)...)
	c2, err := classdef.Read(parser.New(bytes.NewReader(pad)), 3)
	vsym.Assert(err == nil, "class definition cannot be read")
	same(fClass(c2), fClass(c), "class definition read back differs")
	num := 1
	for _, cl := range c {
		num = max(num, int(cl)+1)
	}
	vsym.Assert(c2.NumClasses() == num, "wrong number of classes")
	vsym.Reach("checked")
}

func flatGdef(t *gdef.Table) []int {
	return cat(fClass(t.GlyphClass), fClass(t.MarkAttachClass), fSets(t.MarkGlyphSets))
}

func checkGdef(t *gdef.Table, body []byte) {
	r := newRd(body)
	vsym.Assert(r.u(0) == 1, "GDEF: wrong version")
	minor := r.c(2)
	a, p, q, b := r.c(4), r.c(6), r.c(8), r.c(10)
	vsym.Assert(p == 0 && q == 0, "GDEF: unexpected parts")
	m := 0
	if minor >= 2 {
		m = r.c(12)
	}
	vsym.Assert(minor == 0 || minor == 2, "GDEF: wrong minor version")
	x, y, z := []int{0}, []int{0}, []int{0}
	vsym.Assert((a != 0) == (t.GlyphClass != nil), "GDEF: glyph classes lost")
	vsym.Assert((b != 0) == (t.MarkAttachClass != nil), "GDEF: mark attachment classes lost")
	vsym.Assert((m != 0) == (t.MarkGlyphSets != nil), "GDEF: mark glyph sets lost")
	if a != 0 {
		x = r.class(a)
	}
	if b != 0 {
		y = r.class(b)
	}
	if m != 0 {
		vsym.Assert(r.u(m) == 1, "GDEF: wrong format")
		n := r.c(m + 2)
		z = []int{n}
		for i := range n {
			z = append(z, r.cov(m+r.c(m+4+4*i)<<16+r.c(m+6+4*i))...)
		}
	}
	r.done()
	same(cat(x, y, z), flatGdef(t), "encoded GDEF differs")

	t2, err := gdef.Read(bytes.NewReader(body))
	vsym.Assert(err == nil, "GDEF cannot be read")
	vsym.Assert((t2.GlyphClass != nil) == (t.GlyphClass != nil), "GDEF: glyph classes lost")
	vsym.Assert((t2.MarkAttachClass != nil) == (t.MarkAttachClass != nil), "GDEF: mark attachment classes lost")
	vsym.Assert((t2.MarkGlyphSets != nil) == (t.MarkGlyphSets != nil), "GDEF: mark glyph sets lost")
	same(flatGdef(t2), flatGdef(t), "GDEF read back differs")
	vsym.Assert(vsym.EqBytes(t2.Encode(), body), "encoding GDEF again gives different bytes")
}

// H_Gdef: GDEF tables.
//
//gosym: quick=10 thorough=60
func H_Gdef() {
	t := &gdef.Table{}
	mode := vsym.Choose(8)
	if mode&1 != 0 {
		t.GlyphClass = class(5, vsym.Choose(4), 5)
	}
	if mode&2 != 0 {
		t.MarkAttachClass = class(7, vsym.Choose(3), 300)
	}
	if mode&4 != 0 {
		t.MarkGlyphSets = []coverage.Set{}
		for i := range vsym.Choose(3) {
			t.MarkGlyphSets = append(t.MarkGlyphSets, set(i+1))
		}
	}
	checkGdef(t, t.Encode())
	vsym.Reach("checked")
}

// evens is the class definition giving n even glyphs class c.
func evens(n int, c uint16) classdef.Table {
	res := classdef.Table{}
	for i := range n {
		res[glyph.ID(6*i)] = c
	}
	return res
}

// H_GdefBig: GDEF tables where the parts exceed the range of 16-bit offsets.
//
//gosym: quick=10 thorough=60 steps=400000000
func H_GdefBig() {
	sizes := [][3]int{{10000, 100, 100}, {100, 10000, 100}, {5000, 5000, 6000}, {10800, 100, 0}, {5459, 5459, 20000}, {5460, 5461, 20000}, {6000, 6000, 6000}}[vsym.Choose(7)]
	t := &gdef.Table{GlyphClass: evens(sizes[0], 1), MarkAttachClass: evens(sizes[1], 2)}
	l := []int{4 + 6*sizes[0], 4 + 6*sizes[1], 0}
	if sizes[2] > 0 {
		s := coverage.Set{}
		for i := range sizes[2] {
			s[glyph.ID(3*i)] = true
		}
		t.MarkGlyphSets = []coverage.Set{s}
		l[2] = 4 + 4 + 4 + 2*sizes[2]
	}
	small := l[0] + l[1] + l[2] - max(l[0], l[1], l[2])
	var body []byte
	func() {
		defer func() { recover() }()
		body = t.Encode()
	}()
	if body == nil {
		vsym.Assert(14+small > 65535, "valid GDEF table is refused")
		vsym.Reach("refused")
		return
	}
	checkGdef(t, body)
	vsym.Reach("written")
}
