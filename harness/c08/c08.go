package c08

import (
	"bytes"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"seehuhn.de/go/sfnt/internal/vsym"
)

func gid() glyph.ID { return glyph.ID(vsym.Uint16()) }

func gids(n int) []glyph.ID {
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = gid()
	}
	return res
}

func words(n int) []uint16 {
	res := make([]uint16, n)
	for i := range res {
		res[i] = vsym.Uint16()
	}
	return res
}

// asc returns n symbolic glyph IDs in increasing order.
func asc(n int) []glyph.ID {
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = glyph.ID(vsym.Uint16D(uint16(10 * (i + 1))))
		if i > 0 {
			vsym.Assume(res[i-1] < res[i])
		}
	}
	return res
}

func set(n int) coverage.Set {
	res := coverage.Set{}
	for _, g := range asc(n) {
		res[g] = true
	}
	return res
}

func cov(n int) coverage.Table {
	res := coverage.Table{}
	for i, g := range asc(n) {
		res[g] = i
	}
	return res
}

func sets(n, k int) []coverage.Set {
	var res []coverage.Set
	for range n {
		res = append(res, set(k))
	}
	return res
}

func covs(n, k int) []coverage.Table {
	var res []coverage.Table
	for range n {
		res = append(res, cov(k))
	}
	return res
}

// class has symbolic classes between 1 and max-1 for some consecutive glyphs.
func class(base, n int, max int) classdef.Table {
	res := classdef.Table{}
	for i := range n {
		c := vsym.Uint16D(uint16(1 + i%2))
		vsym.Assume(int(c) < max && c > 0)
		if i == n-1 { // all classes are used
			c = uint16(max - 1)
		}
		res[glyph.ID(base+i)] = c
	}
	return res
}

func acts(n int) []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for range n {
		res = append(res, gtab.SeqLookup{SequenceIndex: vsym.Uint16(), LookupListIndex: gtab.LookupIndex(vsym.Uint16())})
	}
	return res
}

// val is a value record with the given fields present.
func val(mask int) *gtab.GposValueRecord {
	v := &gtab.GposValueRecord{}
	if mask&1 != 0 {
		v.XPlacement = funit.Int16(vsym.Int16D(1))
	}
	if mask&2 != 0 {
		v.YPlacement = funit.Int16(vsym.Int16D(2))
	}
	if mask&4 != 0 {
		v.XAdvance = funit.Int16(vsym.Int16D(3))
	}
	if mask&8 != 0 {
		v.YAdvance = funit.Int16(vsym.Int16D(4))
	}
	return v
}

func anch() anchor.Table {
	return anchor.Table{X: funit.Int16(vsym.Int16D(3)), Y: funit.Int16(vsym.Int16D(5))}
}

func anchs(n, m int) [][]anchor.Table {
	var res [][]anchor.Table
	for range n {
		var row []anchor.Table
		for range m {
			row = append(row, anch())
		}
		res = append(res, row)
	}
	return res
}

func marks(n, nc int) []markarray.Record {
	var res []markarray.Record
	for i := range n {
		c := vsym.Uint16D(uint16(i % nc))
		vsym.Assume(int(c) < nc)
		res = append(res, markarray.Record{Class: c, Table: anch()})
	}
	return res
}

const nGsub = 6

func genGsub(kind int) (gtab.Subtable, uint16) {
	n := 1 + vsym.Choose(2)
	switch kind {
	case 0:
		return &gtab.Gsub1_1{Cov: set(n + 1), Delta: gid()}, 1
	case 1:
		return &gtab.Gsub1_2{Cov: cov(n), SubstituteGlyphIDs: gids(n)}, 1
	case 2:
		repl := [][]glyph.ID{gids(1 + vsym.Choose(2)), gids(vsym.Choose(3))}
		return &gtab.Gsub2_1{Cov: cov(n), Repl: repl[:n]}, 2
	case 3:
		alt := [][]glyph.ID{gids(1 + vsym.Choose(2)), gids(1 + vsym.Choose(3))}
		return &gtab.Gsub3_1{Cov: cov(n), Alternates: alt[:n]}, 3
	case 4:
		ligs := [][]gtab.Ligature{
			{{In: gids(1 + vsym.Choose(2)), Out: gid()}, {In: gids(vsym.Choose(2)), Out: gid()}},
			{{In: gids(2), Out: gid()}},
		}
		return &gtab.Gsub4_1{Cov: cov(n), Repl: ligs[:n]}, 4
	default:
		return &gtab.Gsub8_1{Input: cov(n), Backtrack: covs(vsym.Choose(3), 1), Lookahead: covs(vsym.Choose(3), 1), SubstituteGlyphIDs: gids(n)}, 8
	}
}

const nCtx = 6

func genCtx(kind int) (gtab.Subtable, uint16) {
	n := 1 + vsym.Choose(2)
	switch kind {
	case 0:
		rules := [][]*gtab.SeqRule{
			{{Input: gids(vsym.Choose(3)), Actions: acts(vsym.Choose(2))}, {Input: gids(1), Actions: acts(2)}},
			nil,
		}
		if n == 2 && vsym.Choose(2) == 1 {
			rules[0], rules[1] = rules[1], rules[0]
		}
		return &gtab.SeqContext1{Cov: cov(n), Rules: rules[:n]}, 5
	case 1:
		rules := [][]*gtab.ClassSeqRule{
			nil,
			{{Input: words(vsym.Choose(3)), Actions: acts(vsym.Choose(2))}, {Input: words(1), Actions: acts(2)}},
			{{Input: words(1), Actions: acts(1)}},
		}
		return &gtab.SeqContext2{Cov: cov(n), Input: class(7, 3, n+1), Rules: rules[:n+1]}, 5
	case 2:
		return &gtab.SeqContext3{Input: sets(n, 1+vsym.Choose(2)), Actions: acts(vsym.Choose(3))}, 5
	case 3:
		rules := [][]*gtab.ChainedSeqRule{
			{{Backtrack: gids(vsym.Choose(2)), Input: gids(vsym.Choose(2)), Lookahead: gids(vsym.Choose(2)), Actions: acts(1)},
				{Input: gids(1), Backtrack: gids(2), Lookahead: gids(1), Actions: acts(2)}},
			{{Lookahead: gids(1)}},
		}
		return &gtab.ChainedSeqContext1{Cov: cov(n), Rules: rules[:n]}, 6
	case 4:
		rules := [][]*gtab.ChainedClassSeqRule{
			nil,
			{{Backtrack: words(vsym.Choose(2)), Input: words(vsym.Choose(2)), Lookahead: words(vsym.Choose(2)), Actions: acts(1)},
				{Input: words(1), Backtrack: words(2), Lookahead: words(1), Actions: acts(2)}},
			{{Lookahead: words(1)}},
		}
		return &gtab.ChainedSeqContext2{Cov: cov(n), Backtrack: class(7, 2, 3), Input: class(9, 2, n+1), Lookahead: class(3, 1, 2), Rules: rules[:n+1]}, 6
	default:
		return &gtab.ChainedSeqContext3{Backtrack: sets(vsym.Choose(2), 2), Input: sets(n, 1), Lookahead: sets(vsym.Choose(2), 1), Actions: acts(vsym.Choose(3))}, 6
	}
}

const nGpos = 8

func genGpos(kind int) (gtab.Subtable, uint16) {
	n := 1 + vsym.Choose(2)
	mask := []int{5, 8, 15}[vsym.Choose(3)]
	switch kind {
	case 0:
		return &gtab.Gpos1_1{Cov: cov(n), Adjust: val(mask)}, 1
	case 1:
		return &gtab.Gpos1_2{Cov: cov(n), Adjust: []*gtab.GposValueRecord{val(mask), val(mask)}[:n]}, 1
	case 2:
		gg := asc(n)
		hh := asc(2)
		l := gtab.Gpos2_1{}
		second := vsym.Choose(2) == 1
		add := func(g, h glyph.ID) {
			p := &gtab.PairAdjust{First: val(mask)}
			if second {
				p.Second = val(4)
			}
			l[glyph.Pair{Left: g, Right: h}] = p
		}
		add(gg[0], hh[0])
		if n == 2 {
			add(gg[1], hh[1])
			add(gg[1], hh[0])
		}
		return l, 2
	case 3:
		adj := func() *gtab.PairAdjust {
			p := &gtab.PairAdjust{First: val(mask)}
			if n == 2 {
				p.Second = val(4)
			}
			return p
		}
		row := func() []*gtab.PairAdjust { return []*gtab.PairAdjust{adj(), adj(), adj(), adj()}[:2+n] }
		return &gtab.Gpos2_2{Cov: set(n), Class1: class(7, 2, 2), Class2: class(65533, 3, 2+n),
			Adjust: [][]*gtab.PairAdjust{row(), row()}}, 2
	case 4:
		return &gtab.Gpos3_1{Cov: cov(n), Records: []gtab.EntryExitRecord{{Entry: anch(), Exit: anch()}, {Entry: anch(), Exit: anch()}}[:n]}, 3
	case 5:
		nc := 1 + vsym.Choose(2)
		return &gtab.Gpos4_1{MarkCov: cov(n), BaseCov: cov(2), MarkArray: marks(n, nc), BaseArray: anchs(2, nc)}, 4
	case 6:
		nc := 1 + vsym.Choose(2)
		return &gtab.Gpos6_1{Mark1Cov: cov(2), Mark2Cov: cov(n), Mark1Array: marks(2, nc), Mark2Array: anchs(n, nc)}, 6
	default:
		nc := 1 + vsym.Choose(2)
		l := &gtab.Gpos5_1{MarkCov: cov(1), LigCov: cov(n), MarkArray: marks(1, nc)}
		for i := range n {
			l.LigArray = append(l.LigArray, anchs(i+1, nc))
		}
		return l, 5
	}
}

func table(ll gtab.LookupList) *gtab.Info { return &gtab.Info{LookupList: ll} }

// lists checks the header, and decodes script list, feature list and lookup
// list.
func header(r *rd) (s, f, l int) {
	vsym.Assert(r.u(0) == 1 && r.u(2) == 0, "header: wrong version")
	return r.c(4), r.c(6), r.c(8)
}

// encode returns nil if the encoder refuses the data.
func encode(info *gtab.Info) (res []byte) {
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()
	return info.Encode()
}

func checkLookups(ll gtab.LookupList, tp gtab.Type) {
	want := flatLookups(ll)
	body := table(ll).Encode()
	r := newRd(body)
	s, f, l := header(r)
	vsym.Assert(s == 0 && f == 0 && l == 10, "header: wrong offsets")
	got := r.lookups(l, tp == gtab.TypeGpos)
	r.done()
	same(got, want, "encoded lookups differ")

	info, err := gtab.Read(bytes.NewReader(body), tp)
	vsym.Assert(err == nil, "encoded table cannot be read")
	same(flatLookups(info.LookupList), want, "lookups read back differ")
	vsym.Assert(info.ScriptList == nil && info.FeatureList == nil, "unexpected lists")
	body2 := info.Encode()
	vsym.Assert(vsym.EqBytes(body, body2), "encoding again gives different bytes")
	vsym.Reach("checked")
}

func meta(tp uint16) *gtab.LookupMetaInfo {
	m := &gtab.LookupMetaInfo{LookupType: tp, LookupFlags: gtab.LookupFlags(vsym.Uint16())}
	if m.LookupFlags&gtab.UseMarkFilteringSet != 0 {
		m.MarkFilteringSet = vsym.Uint16()
	}
	return m
}

// H_Gsub: one lookup with one GSUB subtable of each type.
//
//gosym: quick=20 thorough=240
func H_Gsub() {
	st, tp := genGsub(vsym.Choose(nGsub))
	checkLookups(gtab.LookupList{{Meta: meta(tp), Subtables: []gtab.Subtable{st}}}, gtab.TypeGsub)
}

// H_Ctx: contextual subtables in GSUB and GPOS.
//
//gosym: quick=20 thorough=240
func H_Ctx() {
	st, tp := genCtx(vsym.Choose(nCtx))
	t := gtab.Type(gtab.TypeGsub)
	if vsym.Choose(2) == 1 {
		t = gtab.TypeGpos
		tp += 2
	}
	checkLookups(gtab.LookupList{{Meta: meta(tp), Subtables: []gtab.Subtable{st}}}, t)
}

// H_Gpos: one lookup with one GPOS subtable of each type.
//
//gosym: quick=20 thorough=240
func H_Gpos() {
	st, tp := genGpos(vsym.Choose(nGpos))
	checkLookups(gtab.LookupList{{Meta: meta(tp), Subtables: []gtab.Subtable{st}}}, gtab.TypeGpos)
}
