package fx

import (
	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

func be(xx ...int) []byte {
	var b []byte
	for _, x := range xx {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

// GsubTables returns tables with one lookup each, and a complete table.
func GsubTables() [][]byte {
	f := Layout()
	var res [][]byte
	one := func(t uint16, fl gtab.LookupFlags, ss ...gtab.Subtable) {
		l := &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
			FeatureList: []*gtab.Feature{{Tag: "test", Lookups: []gtab.LookupIndex{0}}},
			LookupList: []*gtab.LookupTable{{
				Meta:      &gtab.LookupMetaInfo{LookupType: t, LookupFlags: fl, MarkFilteringSet: 1},
				Subtables: ss,
			}},
		}
		res = append(res, l.Encode())
	}
	for _, l := range f.Gsub.LookupList {
		for _, s := range l.Subtables {
			one(l.Meta.LookupType, 0, s)
		}
	}
	one(8, gtab.UseMarkFilteringSet, &gtab.Gsub8_1{
		Input:              coverage.Table{1: 0, 2: 1},
		Backtrack:          []coverage.Table{{1: 0}},
		Lookahead:          []coverage.Table{{3: 0, 4: 1}, {1: 0}},
		SubstituteGlyphIDs: []glyph.ID{3, 4},
	})
	res = append(res, f.Gsub.Encode())
	return res
}

// GposTables returns tables with one lookup each, and a complete table.
func GposTables() [][]byte {
	f := Layout()
	var res [][]byte
	one := func(t uint16, s gtab.Subtable) {
		l := &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
			FeatureList: []*gtab.Feature{{Tag: "test", Lookups: []gtab.LookupIndex{0}}},
			LookupList:  []*gtab.LookupTable{{Meta: &gtab.LookupMetaInfo{LookupType: t}, Subtables: []gtab.Subtable{s}}},
		}
		res = append(res, l.Encode())
	}
	for _, l := range f.Gpos.LookupList {
		for _, s := range l.Subtables {
			one(l.Meta.LookupType, s)
		}
	}
	one(5, &gtab.Gpos5_1{
		MarkCov:   coverage.Table{6: 0},
		LigCov:    coverage.Table{5: 0},
		MarkArray: []markarray.Record{{Class: 0, Table: anchor.Table{X: 1, Y: 2}}},
		LigArray:  [][][]anchor.Table{{{{X: 3, Y: 4}}, {{X: 5, Y: 6}}}},
	})
	res = append(res, f.Gpos.Encode())
	return res
}

// CmapTables returns complete cmap tables.
func CmapTables() [][]byte {
	f0 := (&cmap.Format0{}).Encode(0)
	f4 := cmap.Format4{65: 1, 66: 3, 67: 2, 100: 7}.Encode(0)
	f12 := cmap.Format12{65: 1, 66: 2, 0x10000: 5}.Encode(0)
	f6 := be(6, 16, 0, 65, 3, 1, 2, 3)
	hdr := func(pid, eid int, sub ...[]byte) []byte {
		b := be(0, len(sub))
		pos := 4 + 8*len(sub)
		for i, s := range sub {
			b = append(b, be(pid, eid+i, 0, pos)...)
			pos += len(s)
		}
		for _, s := range sub {
			b = append(b, s...)
		}
		return b
	}
	return [][]byte{
		hdr(3, 1, f4),
		hdr(3, 10, f12),
		hdr(1, 0, f6),
		hdr(1, 0, f4),
		hdr(0, 3, f6, f12),
		hdr(0, 4, f12),
		hdr(1, 0, f0),
		hdr(0, 3, be(14, 0, 10, 0, 0, 0), be(10, 0, 0, 20, 0, 0, 0, 65, 0, 0)),
		hdr(0, 3, be(13, 0, 0, 28, 0, 0, 0, 1, 0, 65, 0, 70, 0, 3), be(2, 14, 0, 0, 0, 0, 0), be(8, 0, 0, 16, 0, 0, 0, 0)),
	}
}
