package fx

import (
	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// Layout returns a font which has lookups of all kinds.
func Layout() *sfnt.Font {
	var gg []*cff.Glyph
	m := map[uint16]glyph.ID{}
	for i := range 8 {
		name := string([]byte{byte('A' + i - 1)})
		if i == 0 {
			name = ".notdef"
		}
		gg = append(gg, Box(name, float64(500+i), 0, 0, 100, 100))
		if i > 0 {
			m[uint16('A'+i-1)] = glyph.ID(i)
		}
	}
	f := CFF(1000, gg)
	f.CMapTable = Map4(m)
	type gs = []glyph.ID
	tab := func(ll ...*gtab.LookupTable) *gtab.Info {
		info := &gtab.Info{
			ScriptList: gtab.ScriptListInfo{
				language.MustParse("und-Latn-x-latn"): {Required: 0, Optional: []gtab.FeatureIndex{1}},
				language.MustParse("und-Zzzz-x-dflt"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{1, 2, 0}},
			},
			LookupList: ll,
		}
		for i, tag := range []string{"liga", "kern", "mark"} {
			// not in order
			l := []gtab.LookupIndex{}
			for j := len(ll) - 1; j >= 0; j-- {
				if j%3 != i {
					l = append(l, gtab.LookupIndex(j))
				}
			}
			info.FeatureList = append(info.FeatureList, &gtab.Feature{Tag: tag, Lookups: l})
		}
		return info
	}
	lookup := func(t uint16, fl gtab.LookupFlags, ss ...gtab.Subtable) *gtab.LookupTable {
		return &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: t, LookupFlags: fl}, Subtables: ss}
	}
	cov := func(g ...glyph.ID) coverage.Table {
		t := coverage.Table{}
		for i, x := range g {
			t[x] = i
		}
		return t
	}
	set := func(g ...glyph.ID) coverage.Set {
		t := coverage.Set{}
		for _, x := range g {
			t[x] = true
		}
		return t
	}
	act := func(p, l int) []gtab.SeqLookup {
		return []gtab.SeqLookup{{SequenceIndex: uint16(p), LookupListIndex: gtab.LookupIndex(l)}}
	}
	f.Gsub = tab(
		lookup(1, 0, &gtab.Gsub1_1{Cov: set(1, 2), Delta: 1}, &gtab.Gsub1_2{Cov: cov(3, 4), SubstituteGlyphIDs: gs{7, 6}}),
		lookup(2, 0, &gtab.Gsub2_1{Cov: cov(5), Repl: []gs{{5, 6, 7}}}),
		lookup(3, 0, &gtab.Gsub3_1{Cov: cov(6, 7), Alternates: []gs{{1, 2}, {3}}}),
		lookup(4, gtab.IgnoreMarks, &gtab.Gsub4_1{Cov: cov(1, 2), Repl: [][]gtab.Ligature{{{In: gs{2, 3}, Out: 4}, {In: gs{2}, Out: 5}}, {{In: gs{2}, Out: 6}}}}),
		lookup(5, 0, &gtab.SeqContext1{Cov: cov(1), Rules: [][]*gtab.SeqRule{{{Input: gs{2}, Actions: act(1, 0)}}}},
			&gtab.SeqContext2{Cov: cov(2, 3), Input: classdef.Table{2: 1, 3: 2}, Rules: [][]*gtab.ClassSeqRule{nil, {{Input: []uint16{2}, Actions: act(0, 1)}}, {{Input: []uint16{0}, Actions: act(0, 3)}}}},
			&gtab.SeqContext3{Input: []coverage.Set{set(4, 5), set(5, 6)}, Actions: act(0, 2)}),
		lookup(6, 0, &gtab.ChainedSeqContext1{Cov: cov(1), Rules: [][]*gtab.ChainedSeqRule{{{Backtrack: gs{7}, Input: gs{2}, Lookahead: gs{3}, Actions: act(0, 0)}}}},
			&gtab.ChainedSeqContext2{Cov: cov(2, 3), Backtrack: classdef.Table{1: 1}, Input: classdef.Table{2: 1}, Lookahead: classdef.Table{4: 1}, Rules: [][]*gtab.ChainedClassSeqRule{nil, {{Backtrack: []uint16{1}, Lookahead: []uint16{0}, Actions: act(0, 0)}}}},
			&gtab.ChainedSeqContext3{Backtrack: []coverage.Set{set(1)}, Input: []coverage.Set{set(6)}, Lookahead: []coverage.Set{set(7)}, Actions: act(0, 2)}),
	)
	val := func(x int16) *gtab.GposValueRecord { return &gtab.GposValueRecord{XAdvance: funit.Int16(x), XPlacement: 3} }
	pair := func(x int16) *gtab.PairAdjust { return &gtab.PairAdjust{First: val(x)} }
	f.Gpos = tab(
		lookup(1, 0, &gtab.Gpos1_1{Cov: cov(1, 2), Adjust: val(3)}, &gtab.Gpos1_2{Cov: cov(3), Adjust: []*gtab.GposValueRecord{val(-2)}}),
		lookup(2, 0, gtab.Gpos2_1{{Left: 1, Right: 2}: pair(-20), {Left: 1, Right: 3}: {First: val(4), Second: val(5)}},
			&gtab.Gpos2_2{Cov: set(2, 4), Class1: classdef.Table{4: 1}, Class2: classdef.Table{5: 1}, Adjust: [][]*gtab.PairAdjust{{pair(1), pair(2)}, {pair(3), pair(4)}}}),
		lookup(3, 0, &gtab.Gpos3_1{Cov: cov(1, 2), Records: []gtab.EntryExitRecord{{Exit: anchor.Table{X: 10, Y: 20}}, {Entry: anchor.Table{X: 30, Y: 40}}}}),
		lookup(4, 0, &gtab.Gpos4_1{MarkCov: cov(6), BaseCov: cov(1, 3), MarkArray: []markarray.Record{{Class: 0, Table: anchor.Table{X: 1, Y: 2}}}, BaseArray: [][]anchor.Table{{{X: 100, Y: 200}}, {{X: 5, Y: 6}}}}),
		lookup(6, 0, &gtab.Gpos6_1{Mark1Cov: cov(6), Mark2Cov: cov(7), Mark1Array: []markarray.Record{{Class: 0, Table: anchor.Table{X: 1, Y: 2}}}, Mark2Array: [][]anchor.Table{{{X: 9, Y: 8}}}}),
		lookup(7, 0, &gtab.SeqContext3{Input: []coverage.Set{set(1, 2), set(1, 2)}, Actions: act(0, 0)}),
	)
	f.Gdef = &gdef.Table{GlyphClass: classdef.Table{6: gdef.GlyphClassMark, 7: gdef.GlyphClassMark, 5: gdef.GlyphClassLigature}}
	return f
}

