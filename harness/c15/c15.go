// Package c15 checks the composition of character map, feature selection,
// widths and kerning in the layout of strings.
package c15

import (
	"bytes"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

type gs = []glyph.ID

// item is what the reference model keeps for each glyph.
type item struct {
	gid  glyph.ID
	text []rune
	adv  funit.Int16
	x, y funit.Int16
}

func compare(got []glyph.Info, want []item, msg string) {
	vsym.Assert(len(got) == len(want), msg+": wrong number of glyphs")
	for i := range want {
		vsym.Assert(got[i].GID == want[i].gid, msg+": wrong glyph")
		vsym.Assert(len(got[i].Text) == len(want[i].text), msg+": wrong text")
		for j, c := range want[i].text {
			vsym.Assert(got[i].Text[j] == c, msg+": wrong text")
		}
		vsym.Assert(got[i].Advance == want[i].adv, msg+": wrong advance")
		vsym.Assert(got[i].XOffset == want[i].x && got[i].YOffset == want[i].y, msg+": wrong offset")
	}
}

func boxes(widths []funit.Int16) []*cff.Glyph {
	var gg []*cff.Glyph
	for i, w := range widths {
		name := ".notdef"
		if i > 0 {
			name = string([]byte{byte('A' + i - 1)})
		}
		gg = append(gg, fx.Box(name, float64(w), 0, 0, 100, 100))
	}
	return gg
}

func newFont(glyfs bool, widths []funit.Int16) *sfnt.Font {
	if !glyfs {
		return fx.CFF(1000, boxes(widths))
	}
	var gg glyf.Glyphs
	for range widths {
		gg = append(gg, fx.Tri(0, 0, 100, 100))
	}
	return fx.Glyf(1000, gg, widths)
}

func symWidths(n int) []funit.Int16 {
	ww := make([]funit.Int16, n)
	for i := range ww {
		ww[i] = funit.Int16(vsym.Int16D(int16(300 + 7*i)))
		vsym.Assume(ww[i] >= 0)
	}
	return ww
}

// H_Plain lays out text without any rules.
//
//gosym: quick=15 thorough=120
func H_Plain() {
	const n = 5
	ww := symWidths(n)
	f := newFont(vsym.Choose(2) == 1, ww)
	marks := [n]bool{}
	switch vsym.Choose(3) {
	case 1:
		f.Gdef = &gdef.Table{}
	case 2:
		f.Gdef = &gdef.Table{GlyphClass: classdef.Table{}}
		for i := range n {
			c := vsym.Uint16D(uint16(i))
			vsym.Assume(c <= 4)
			if c != 0 {
				f.Gdef.GlyphClass[glyph.ID(i)] = c
			}
			marks[i] = c == gdef.GlyphClassMark
		}
	}
	if vsym.Bool() {
		f.Gsub = &gtab.Info{}
		f.Gpos = &gtab.Info{}
	}

	// The subtables are listed in order of decreasing priority.
	keys := []cmap.Key{{PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 4}, {PlatformID: 3, EncodingID: 1}, {PlatformID: 0, EncodingID: 3}}
	chars := []rune{'A', 'é', 0x4e00, 'z'}
	if vsym.Bool() {
		chars[2] = 0x1f600
	}
	var best []glyph.ID
	f.CMapTable = cmap.Table{}
	for i, k := range keys {
		if vsym.Choose(2) == 0 {
			continue
		}
		m := make([]glyph.ID, len(chars)-1)
		for j := range m {
			m[j] = glyph.ID(vsym.Int(0, n-1))
		}
		if k.EncodingID == 10 || k.EncodingID == 4 {
			s := cmap.Format12{}
			for j, g := range m {
				s[uint32(chars[j])] = g
			}
			f.CMapTable[k] = s.Encode(0)
		} else {
			s := cmap.Format4{}
			for j, g := range m {
				if chars[j] < 0x10000 {
					s[uint16(chars[j])] = g
				} else {
					m[j] = 0
				}
			}
			f.CMapTable[k] = s.Encode(0)
		}
		if best == nil {
			best = m
		}
		_ = i
	}
	l, err := f.NewLayouter(language.English, nil, nil)
	if best == nil {
		vsym.Assert(err != nil, "layout without a character map")
		return
	}
	vsym.Assert(err == nil, "NewLayouter fails")
	for rep := range 2 {
		var s string
		var want []item
		for range 2 + rep {
			j := vsym.Choose(len(chars))
			s += string(chars[j])
			it := item{text: []rune{chars[j]}}
			if j < len(best) {
				it.gid = best[j]
			}
			if !marks[it.gid] {
				it.adv = ww[it.gid]
			}
			want = append(want, it)
		}
		compare(l.Layout(s), want, "plain text")
	}
	vsym.Assert(len(l.Layout("")) == 0, "empty string gives glyphs")
}

// H_FindLookups checks the selection of lookups.
//
//gosym: quick=15 thorough=150
func H_FindLookups() {
	all := []string{"und-Zzzz-x-dflt", "und-Latn-x-latn", "de-Latn-x-latn-deu", "tr-Latn-x-latn-trk", "und-Cyrl-x-cyrl", "sr-Cyrl-x-cyrl-srb"}
	tags := []string{"liga", "kern", "mark"}
	const numFeatures = 3
	const numLookups = 6
	info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
	for i := range numLookups {
		info.LookupList = append(info.LookupList, &gtab.LookupTable{
			Meta:      &gtab.LookupMetaInfo{LookupType: 1},
			Subtables: []gtab.Subtable{&gtab.Gsub1_1{Cov: coverage.Set{glyph.ID(i): true}, Delta: 1}},
		})
	}
	var lookups [numFeatures][2]uint16
	for i := range numFeatures {
		ft := &gtab.Feature{Tag: tags[i]}
		if i == 2 && vsym.Bool() {
			ft.Tag = tags[0]
			tags[2] = tags[0]
		}
		for j := range 2 {
			x := vsym.Uint16D(uint16(2*i + 1 - j))
			lookups[i][j] = x
			ft.Lookups = append(ft.Lookups, gtab.LookupIndex(x))
		}
		info.FeatureList = append(info.FeatureList, ft)
	}
	type langSys struct{ req, opt0, opt1 uint16 }
	systems := map[string]langSys{}
	count := vsym.Choose(4)
	first := vsym.Choose(len(all))
	for k := range count {
		t := all[(first+k*k)%len(all)]
		if _, ok := systems[t]; ok {
			continue
		}
		s := langSys{vsym.Uint16D(0xFFFF), vsym.Uint16D(0), vsym.Uint16D(1)}
		systems[t] = s
		info.ScriptList[language.MustParse(t)] = &gtab.Features{
			Required: gtab.FeatureIndex(s.req),
			Optional: []gtab.FeatureIndex{gtab.FeatureIndex(s.opt0), gtab.FeatureIndex(s.opt1)},
		}
	}

	// languages, with the language systems which can be used for them
	req := []struct {
		lang string
		pref []string
	}{
		{"de", []string{"de-Latn-x-latn-deu", "und-Latn-x-latn", "und-Zzzz-x-dflt"}},
		{"de-CH", []string{"de-Latn-x-latn-deu", "und-Latn-x-latn", "und-Zzzz-x-dflt"}},
		{"tr", []string{"tr-Latn-x-latn-trk", "und-Latn-x-latn", "und-Zzzz-x-dflt"}},
		{"sr-Cyrl", []string{"sr-Cyrl-x-cyrl-srb", "und-Cyrl-x-cyrl", "und-Zzzz-x-dflt"}},
		{"und", nil},
	}[vsym.Choose(5)]

	var sw map[string]bool
	switch vsym.Choose(3) {
	case 1:
		sw = map[string]bool{}
	case 2:
		sw = map[string]bool{"liga": vsym.Bool(), "kern": vsym.Bool(), "mark": vsym.Bool(), "none": true}
	}

	got := info.FindLookups(language.MustParse(req.lang), sw)
	// in range, ascending, without duplicates
	var have [numLookups]bool
	prev := -1
	for _, l := range got {
		vsym.Assert(int(l) > prev, "lookups are not in ascending order")
		vsym.Assert(int(l) < numLookups, "lookup index is out of range")
		prev = int(l)
		have[l] = true
	}
	// matches returns true, if the lookups are the correct ones for s
	matches := func(s langSys) bool {
		var on [numFeatures]bool
		for i := range numFeatures {
			on[i] = vsym.Or(int(s.req) == i, vsym.And(sw[tags[i]], vsym.Or(int(s.opt0) == i, int(s.opt1) == i)))
		}
		ok := true
		for l := range numLookups {
			want := false
			for i := range numFeatures {
				want = vsym.Or(want, vsym.And(on[i], vsym.Or(int(lookups[i][0]) == l, int(lookups[i][1]) == l)))
			}
			ok = vsym.And(ok, have[l] == want)
		}
		return ok
	}
	if len(systems) == 0 {
		vsym.Assert(len(got) == 0, "lookups without language systems")
	} else {
		// The language system of the language must be used if there is
		// one.  Otherwise, one of the existing ones must be used.
		s, ok := langSys{}, false
		for i, t := range req.pref {
			if i > 0 {
				break
			}
			s, ok = systems[t]
		}
		if ok {
			vsym.Reach("exact")
			vsym.Assert(matches(s), "wrong lookups for the language system")
		} else {
			one := false
			for _, t := range all {
				if s, ok := systems[t]; ok {
					one = vsym.Or(one, matches(s))
				}
			}
			vsym.Assert(one, "lookups do not belong to a language system")
			if s, ok := systems["und-Zzzz-x-dflt"]; ok && len(systems) == 1 {
				vsym.Assert(matches(s), "the default language system is not used")
			}
		}
	}
	// the same on every call
	for range vsym.Repeat() {
		vsym.MapOrder(1)
		again := info.FindLookups(language.MustParse(req.lang), sw)
		vsym.MapOrder(2)
		again2 := info.FindLookups(language.MustParse(req.lang), sw)
		vsym.MapOrder(0)
		vsym.Assert(len(again) == len(got) && len(again2) == len(got), "feature selection is not deterministic")
		for i := range got {
			vsym.Assert(again[i] == got[i] && again2[i] == got[i], "feature selection is not deterministic")
		}
	}
}

// H_ManySystems checks the selection of lookups in a long script list.
//
//gosym: quick=10 thorough=60
func H_ManySystems() {
	langs := []string{"de", "tr", "fr", "nl", "pl", "es", "it", "cs", "sv", "da", "fi", "hu", "ro", "pt"}
	scripts := []string{"Zzzz-x-dflt", "Latn-x-latn", "Cyrl-x-cyrl", "Grek-x-grek", "Arab-x-arab", "Hebr-x-hebr"}
	info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
	var want []uint16
	all := len(langs) + len(scripts)
	for i := range all {
		info.FeatureList = append(info.FeatureList, &gtab.Feature{Tag: "ft" + string([]byte{byte('a' + i), 'x'}), Lookups: []gtab.LookupIndex{gtab.LookupIndex(i)}})
		info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1}})
		tag := ""
		if i < len(langs) {
			tag = langs[i] + "-Latn-x-latn-" + langs[i] + "0"
		} else {
			tag = "und-" + scripts[i-len(langs)]
		}
		r := vsym.Uint16D(uint16(i))
		vsym.Assume(int(r) < all)
		want = append(want, r)
		info.ScriptList[language.MustParse(tag)] = &gtab.Features{Required: gtab.FeatureIndex(r)}
	}
	k := vsym.Choose(len(langs))
	tag := langs[k] + []string{"", "-Latn"}[vsym.Choose(2)]
	got := info.FindLookups(language.MustParse(tag), nil)
	vsym.Assert(len(got) == 1, "required feature is missing")
	vsym.Assert(uint16(got[0]) == want[k], "wrong required feature")
	for range vsym.Repeat() {
		vsym.MapOrder(vsym.Choose(3))
		got = info.FindLookups(language.MustParse(tag), map[string]bool{"none": true})
		vsym.MapOrder(0)
		vsym.Assert(len(got) == 1 && uint16(got[0]) == want[k], "feature selection is not deterministic")
	}
}

// rule is a lookup of the pipeline test: all lookups either replace a by b
// or combine a pair to a new glyph.
type rule struct {
	a, b, c glyph.ID // b == 0: replace a by c, otherwise ligature (a, b) -> c
	flags   gtab.LookupFlags
}

// H_Pipeline combines all the stages.
//
//gosym: quick=30 thorough=300
func H_Pipeline() {
	const n = 7
	ww := symWidths(n)
	f := newFont(false, ww)
	m := cmap.Format4{}
	var char [4]glyph.ID
	for i := range char {
		char[i] = glyph.ID(vsym.Int(0, 3))
		m[uint16('a'+i)] = char[i]
	}
	f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: m.Encode(0)}
	isMark := map[glyph.ID]bool{}
	if vsym.Choose(2) == 1 {
		f.Gdef = &gdef.Table{GlyphClass: classdef.Table{1: gdef.GlyphClassBase, 4: gdef.GlyphClassLigature}}
		for _, g := range (gs{3, 6}) {
			if vsym.Bool() {
				f.Gdef.GlyphClass[g] = gdef.GlyphClassMark
				isMark[g] = true
			}
		}
	}

	// GSUB
	rules := []rule{
		{a: 1, c: 2},
		{a: 2, b: 2, c: 4},
		{a: 2, c: 5},
		{a: 5, b: 3, c: 6},
	}
	if vsym.Bool() {
		rules[0], rules[2] = rules[2], rules[0]
	}
	f.Gsub = &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
	for _, r := range rules {
		lt := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1, LookupFlags: r.flags}}
		if r.b == 0 {
			lt.Subtables = []gtab.Subtable{&gtab.Gsub1_1{Cov: coverage.Set{r.a: true}, Delta: r.c - r.a}}
		} else {
			lt.Meta.LookupType = 4
			lt.Subtables = []gtab.Subtable{&gtab.Gsub4_1{Cov: coverage.Table{r.a: 0}, Repl: [][]gtab.Ligature{{{In: gs{r.b}, Out: r.c}}}}}
		}
		f.Gsub.LookupList = append(f.Gsub.LookupList, lt)
	}
	f.Gsub.FeatureList = []*gtab.Feature{
		{Tag: "smcp", Lookups: []gtab.LookupIndex{3, 1}},
		{Tag: "liga", Lookups: []gtab.LookupIndex{2, 0, 1}},
		{Tag: "ccmp", Lookups: []gtab.LookupIndex{0}},
	}
	sys := language.MustParse("und-Latn-x-latn")
	required := vsym.Choose(2) == 1
	gsubSys := &gtab.Features{Required: 0xFFFF, Optional: []gtab.FeatureIndex{2, 1, 0}}
	if required {
		gsubSys.Required = 0
	}
	f.Gsub.ScriptList[sys] = gsubSys
	var gsubSw map[string]bool
	onGsub := map[string]bool{"liga": true, "ccmp": true}
	if vsym.Choose(2) == 1 {
		gsubSw = map[string]bool{"liga": vsym.Bool(), "smcp": vsym.Bool()}
		onGsub = gsubSw
	}
	var useRule [4]bool
	for i, ft := range f.Gsub.FeatureList {
		if onGsub[ft.Tag] || required && i == 0 {
			for _, l := range ft.Lookups {
				useRule[l] = true
			}
		}
	}

	// GPOS
	k := [2]funit.Int16{funit.Int16(vsym.Int16D(-30)), funit.Int16(vsym.Int16D(11))}
	f.Gpos = &gtab.Info{
		ScriptList: gtab.ScriptListInfo{sys: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0, 1, 2}}},
		FeatureList: []*gtab.Feature{
			{Tag: "cpsp", Lookups: []gtab.LookupIndex{1}},
			{Tag: "kern", Lookups: []gtab.LookupIndex{0}},
			{Tag: "mark", Lookups: []gtab.LookupIndex{2}},
		},
		LookupList: []*gtab.LookupTable{
			{Meta: &gtab.LookupMetaInfo{LookupType: 2}, Subtables: []gtab.Subtable{gtab.Gpos2_1{
				{Left: 2, Right: 2}: {First: &gtab.GposValueRecord{XAdvance: k[0]}},
				{Left: 4, Right: 3}: {First: &gtab.GposValueRecord{XAdvance: k[1]}},
				{Left: 2, Right: 5}: {First: &gtab.GposValueRecord{XAdvance: k[1]}},
			}}},
			{Meta: &gtab.LookupMetaInfo{LookupType: 1}, Subtables: []gtab.Subtable{&gtab.Gpos1_1{Cov: coverage.Table{2: 0, 5: 1}, Adjust: &gtab.GposValueRecord{XAdvance: 100, YPlacement: 3}}}},
			{Meta: &gtab.LookupMetaInfo{LookupType: 4}, Subtables: []gtab.Subtable{&gtab.Gpos4_1{
				MarkCov: coverage.Table{6: 0}, BaseCov: coverage.Table{1: 0, 4: 1},
				MarkArray: []markarray.Record{{Class: 0, Table: anchor.Table{X: 10, Y: 20}}},
				BaseArray: [][]anchor.Table{{{X: 50, Y: 60}}, {{X: 70, Y: 80}}},
			}}},
		},
	}
	var gposSw map[string]bool
	onGpos := map[string]bool{"kern": true, "mark": true, "mkmk": true}
	if vsym.Choose(2) == 1 {
		gposSw = map[string]bool{"cpsp": vsym.Bool(), "kern": vsym.Bool()}
		onGpos = gposSw
	}

	l, err := f.NewLayouter(language.English, gsubSw, gposSw)
	vsym.Assert(err == nil, "NewLayouter fails")
	N := 3
	if vsym.Thorough() {
		N = vsym.Int(2, 4)
	}
	b := make([]byte, N)
	var seq []item
	for i := range b {
		j := vsym.Int(0, 3)
		b[i] = byte('a' + j)
		seq = append(seq, item{gid: char[j], text: []rune{rune('a' + j)}})
	}

	// reference model
	for i, r := range rules {
		if !useRule[i] {
			continue
		}
		for p := 0; p < len(seq); p++ {
			if seq[p].gid != r.a {
				continue
			}
			if r.b == 0 {
				seq[p].gid = r.c
			} else if p+1 < len(seq) && seq[p+1].gid == r.b {
				merged := item{gid: r.c, text: append(append([]rune{}, seq[p].text...), seq[p+1].text...)}
				seq = append(append(append([]item{}, seq[:p]...), merged), seq[p+2:]...)
			}
		}
	}
	for i := range seq {
		if !isMark[seq[i].gid] {
			seq[i].adv = ww[seq[i].gid]
		}
	}
	if onGpos["kern"] {
		for p := 0; p+1 < len(seq); p++ {
			switch (glyph.Pair{Left: seq[p].gid, Right: seq[p+1].gid}) {
			case glyph.Pair{Left: 2, Right: 2}:
				seq[p].adv += k[0]
			case glyph.Pair{Left: 4, Right: 3}, glyph.Pair{Left: 2, Right: 5}:
				seq[p].adv += k[1]
			}
		}
	}
	if onGpos["cpsp"] {
		for p := range seq {
			if seq[p].gid == 2 || seq[p].gid == 5 {
				seq[p].adv += 100
				seq[p].y += 3
			}
		}
	}
	if onGpos["mark"] {
		// Mark attachment itself is the subject of another property.  Here
		// we only use texts where it has no effect, or the mark directly
		// follows the base glyph.
		for p := range seq {
			if seq[p].gid != 6 {
				continue
			}
			vsym.Assume(isMark[6])
			vsym.Assume(p == 0 || !isMark[seq[p-1].gid])
			if p == 0 {
				continue
			}
			var x, y funit.Int16
			switch seq[p-1].gid {
			case 1:
				x, y = 40, 40
			case 4:
				x, y = 60, 60
			default:
				continue
			}
			seq[p].x = x - seq[p-1].adv
			seq[p].y = y
		}
	}
	compare(l.Layout(string(b)), seq, "pipeline")
	compare(l.Layout(string(b)), seq, "pipeline, second time")
}

// withTables replaces tables in a font file.
func withTables(f *sfnt.Font, drop []string, add map[string][]byte) []byte {
	w := &hx.Buf{}
	_, err := f.Write(w)
	vsym.Assert(err == nil, "cannot write the font")
	tables := hx.CheckContainer(w.B, hx.U32(w.B, 0))
	for _, name := range drop {
		delete(tables, name)
	}
	for name, data := range add {
		tables[name] = data
	}
	w2 := &hx.Buf{}
	_, err = header.Write(w2, hx.U32(w.B, 0), tables)
	vsym.Assert(err == nil, "cannot write the tables")
	return w2.B
}

func be(xx ...uint16) []byte {
	var b []byte
	for _, x := range xx {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

// kernTable makes a kern table with a number of pairs in one or two
// subtables, and returns the reference values for the pairs.
func kernTable(pairs []glyph.Pair) ([]byte, map[glyph.Pair]int) {
	want := map[glyph.Pair]int{}
	subtables := 1 + vsym.Choose(2)
	if vsym.Thorough() {
		subtables = vsym.Choose(4)
	}
	b := be(0, uint16(subtables))
	for i := range subtables {
		flags := uint16(vsym.ByteD(1))
		format := uint16(0)
		pp := pairs
		switch vsym.Choose(4) {
		case 1:
			pp = pairs[1:2]
		case 2:
			if i == 0 {
				format = 2
			}
		case 3:
			pp = pairs[:0]
		}
		horizontal := flags&1 != 0
		minimum := flags&2 != 0
		cross := flags&4 != 0
		override := flags&8 != 0
		// an override and a minimum at the same time makes no sense
		vsym.Assume(!(minimum && override))
		vsym.Assume(flags&0xF0 == 0)
		b = append(b, be(0, uint16(14+6*len(pp)), format<<8|flags, uint16(len(pp)), 6, 0, 0)...)
		for _, p := range pp {
			v := vsym.Int16D(int16(20 - 9*i))
			vsym.Assume(v >= -10000 && v <= 10000)
			b = append(b, be(uint16(p.Left), uint16(p.Right), uint16(v))...)
			if !horizontal || cross || format != 0 {
				continue
			}
			old := want[p]
			switch {
			case minimum:
				want[p] = vsym.IteInt(old < int(v), int(v), old)
			case override:
				want[p] = int(v)
			default:
				want[p] = old + int(v)
			}
		}
	}
	return b, want
}

// H_Kern reads a kern table.
//
//gosym: quick=15 thorough=120
func H_Kern() {
	pairs := []glyph.Pair{{Left: 1, Right: 2}, {Left: 2, Right: 0x1234}, {Left: 0xFFFF, Right: 1}}
	b, want := kernTable(pairs)
	b = append(b, 1, 2, 3)
	info, err := kern.Read(bytes.NewReader(b))
	vsym.Assert(err == nil, "cannot read the kern table")
	for _, p := range pairs {
		vsym.Assert(int(info[p]) == want[p], "wrong kerning value")
	}
	for p := range info {
		vsym.Assert(p == pairs[0] || p == pairs[1] || p == pairs[2], "invented a kerning pair")
	}
}

// H_KernFont lays out text using a font with a kern table.
//
//gosym: quick=30 thorough=200
func H_KernFont() {
	ww := []funit.Int16{500, 600, 650, 700}
	f := newFont(vsym.Choose(2) == 1, ww)
	m := cmap.Format4{}
	for i := range 3 {
		m[uint16('a'+i)] = glyph.ID(1 + i)
	}
	f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: m.Encode(0)}
	if vsym.Choose(2) == 1 {
		f.Gdef = &gdef.Table{GlyphClass: classdef.Table{1: gdef.GlyphClassBase, 2: gdef.GlyphClassLigature}}
	}
	pairs := []glyph.Pair{{Left: 1, Right: 1}, {Left: 1, Right: 2}, {Left: 3, Right: 1}}
	b, want := kernTable(pairs)
	file := withTables(f, nil, map[string][]byte{"kern": b})
	g, err := sfnt.Read(bytes.NewReader(file))
	vsym.Assert(err == nil, "cannot read the font")
	lang := []string{"en", "de-DE", "ru", "ar", "und"}[vsym.Choose(5)]
	l, err := g.NewLayouter(language.MustParse(lang), nil, nil)
	vsym.Assert(err == nil, "NewLayouter fails")
	s := make([]byte, 3)
	var seq []item
	for i := range s {
		j := vsym.Int(0, 2)
		s[i] = byte('a' + j)
		seq = append(seq, item{gid: glyph.ID(j + 1), text: []rune{rune(s[i])}, adv: ww[j+1]})
	}
	for i := range seq[1:] {
		seq[i].adv += funit.Int16(want[glyph.Pair{Left: seq[i].gid, Right: seq[i+1].gid}])
	}
	compare(l.Layout(string(s)), seq, "kern table")
}

// H_Ligatures checks the standard ligatures.
//
//gosym: quick=40 thorough=300
func H_Ligatures() {
	ligs := []struct {
		c    rune
		text string
	}{{0xFB03, "ffi"}, {0xFB04, "ffl"}, {0xFB00, "ff"}, {0xFB01, "fi"}, {0xFB02, "fl"}}
	fixed := vsym.Choose(4) == 3
	isGlyf := vsym.Choose(2) == 1
	kern := vsym.Choose(2) == 1
	ww := make([]funit.Int16, 9)
	for i := range ww {
		ww[i] = 500
		if !fixed {
			ww[i] = funit.Int16(400 + 31*i)
		}
	}
	f := newFont(isGlyf, ww)
	m := cmap.Format4{}
	char := map[rune]glyph.ID{}
	for i, c := range "fil" {
		if c == 'f' || vsym.Bool() {
			m[uint16(c)] = glyph.ID(8 - i)
			char[c] = glyph.ID(8 - i)
		}
	}
	have := map[string]glyph.ID{}
	for i, lig := range ligs {
		if vsym.Choose(2) == 1 {
			m[uint16(lig.c)] = glyph.ID(1 + i)
			char[lig.c] = glyph.ID(1 + i)
			have[lig.text] = glyph.ID(1 + i)
		}
	}
	f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: m.Encode(0)}
	if kern {
		f.Gpos = fx.Kern(8, 8, -10)
	}
	file := withTables(f, nil, nil)
	g, err := sfnt.Read(bytes.NewReader(file))
	vsym.Assert(err == nil, "cannot read the font")

	var sw map[string]bool
	on := true
	switch vsym.Choose(3) {
	case 1:
		sw = map[string]bool{}
		on = false
	case 2:
		on = vsym.Bool()
		sw = map[string]bool{"liga": on}
	}
	lang := []string{"en", "de-DE", "und", "ru"}[vsym.Choose(4)]
	l, err := g.NewLayouter(language.MustParse(lang), sw, nil)
	vsym.Assert(err == nil, "NewLayouter fails")
	N := 4
	s := make([]byte, N)
	for i := range s {
		s[i] = "filx"[vsym.Int(0, 3)]
	}
	var seq []item
	for p := 0; p < N; {
		n := 1
		gid := char[rune(s[p])]
		if on && !fixed {
			for k := 3; k >= 2; k-- {
				if p+k > N {
					continue
				}
				ok := true
				for _, c := range s[p : p+k] {
					// the components must have glyphs
					ok = ok && char[rune(c)] != 0
				}
				if lig, exists := have[string(s[p:p+k])]; ok && exists {
					n, gid = k, lig
					break
				}
			}
		}
		it := item{gid: gid, adv: ww[gid]}
		for _, c := range s[p : p+n] {
			it.text = append(it.text, rune(c))
		}
		seq = append(seq, it)
		p += n
	}
	if kern {
		for i := range seq[1:] {
			if seq[i].gid == 8 && seq[i+1].gid == 8 {
				seq[i].adv -= 10
			}
		}
	}
	compare(l.Layout(string(s)), seq, "ligatures")
}
