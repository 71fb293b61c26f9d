// Package c06 compares lookup application with a reference implementation.
package c06

import (
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/shape"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// gl is an arbitrary glyph from 1..n.
func gl(n int) glyph.ID {
	g := vsym.Uint16D(1)
	vsym.Assume(vsym.And(g >= 1, int(g) <= n))
	return glyph.ID(g)
}

func gls(k, n int) []glyph.ID {
	res := make([]glyph.ID, k)
	for i := range res {
		res[i] = gl(n)
	}
	return res
}

// world is a GDEF table with arbitrary classes for the glyphs 1..n.
func world(n int) *gdef.Table {
	t := &gdef.Table{GlyphClass: classdef.Table{}, MarkAttachClass: classdef.Table{}}
	for k := range 2 {
		t.MarkGlyphSets = append(t.MarkGlyphSets, coverage.Set{})
		for g := 1; g <= n; g++ {
			t.MarkGlyphSets[k][glyph.ID(g)] = vsym.Bool()
		}
	}
	for g := 1; g <= n; g++ {
		c := vsym.Uint16()
		vsym.Assume(c <= 4)
		t.GlyphClass[glyph.ID(g)] = c
		a := vsym.Uint16()
		vsym.Assume(a <= 2)
		t.MarkAttachClass[glyph.ID(g)] = a
	}
	return t
}

// meta has arbitrary lookup flags.
func meta() *gtab.LookupMetaInfo {
	f := vsym.Uint16()
	vsym.Assume(f&^0x031e == 0)
	s := vsym.Uint16()
	vsym.Assume(s <= 2)
	return &gtab.LookupMetaInfo{LookupFlags: gtab.LookupFlags(f), MarkFilteringSet: s}
}

func plain() *gtab.LookupMetaInfo { return &gtab.LookupMetaInfo{} }

// text is a sequence of k glyphs from 1..n, each with its own text.
func text(k, n int) []glyph.Info {
	res := make([]glyph.Info, k)
	for i := range res {
		res[i].GID = gl(n)
		res[i].Text = []rune{rune('a' + i)}
		if i == 1 {
			res[i].Text = []rune{'x', 'y'}
		}
	}
	return res
}

func positions(seq []glyph.Info) {
	for i := range seq {
		seq[i].Advance = funit.Int16(vsym.Int16())
		seq[i].XOffset = funit.Int16(vsym.Int16())
		seq[i].YOffset = funit.Int16(vsym.Int16())
	}
}

func check(ll gtab.LookupList, gd *gdef.Table, lookups []gtab.LookupIndex, seq []glyph.Info) {
	r := shape.New(ll, gd, seq)
	r.Apply(lookups)
	out := gtab.NewContext(ll, gd, lookups).Apply(seq)
	vsym.Assert(len(out) == len(r.Seq), "wrong number of glyphs")
	good := true
	for i, t := range r.Seq {
		o := out[i]
		good = vsym.And(good, o.GID == t.GID)
		vsym.Assert(string(o.Text) == string(t.Text), "wrong text")
	}
	vsym.Assert(good, "wrong glyph")
	good = true
	for i, t := range r.Seq {
		o := out[i]
		good = vsym.And(good, vsym.And(int16(o.Advance) == t.Adv, vsym.And(int16(o.XOffset) == t.X, int16(o.YOffset) == t.Y)))
	}
	vsym.Assert(good, "wrong position")
}

func cov(gg ...glyph.ID) coverage.Table {
	res := coverage.Table{}
	for i, g := range gg {
		res[g] = i
	}
	return res
}

func set(gg ...glyph.ID) coverage.Set {
	res := coverage.Set{}
	for _, g := range gg {
		res[g] = true
	}
	return res
}

func val() *gtab.GposValueRecord {
	return &gtab.GposValueRecord{
		XPlacement: funit.Int16(vsym.Int16()),
		YPlacement: funit.Int16(vsym.Int16()),
		XAdvance:   funit.Int16(vsym.Int16()),
	}
}

func one() []gtab.LookupIndex { return []gtab.LookupIndex{0} }

// simple is a subtable which works on single glyphs; n is the number of
// glyphs.
func simple(n int) gtab.Subtable {
	switch vsym.Choose(6) {
	case 0:
		d := vsym.Uint16()
		return &gtab.Gsub1_1{Cov: set(1, 3), Delta: glyph.ID(d)}
	case 1:
		return &gtab.Gsub1_2{Cov: cov(1, 2), SubstituteGlyphIDs: gls(2, n)}
	case 2:
		return &gtab.Gsub2_1{Cov: cov(2, 3), Repl: [][]glyph.ID{gls(1+vsym.Choose(3), n), gls(vsym.Choose(3), n)}}
	case 3:
		return &gtab.Gsub3_1{Cov: cov(1, 3), Alternates: [][]glyph.ID{gls(vsym.Choose(3), n), gls(2, n)}}
	case 4:
		return &gtab.Gpos1_1{Cov: cov(1, 3), Adjust: val()}
	default:
		return &gtab.Gpos1_2{Cov: cov(2, 3), Adjust: []*gtab.GposValueRecord{val(), val()}}
	}
}

// H_Simple: one lookup with one or two subtables for single glyphs, up to
// three glyphs, arbitrary flags and classes.
//
//gosym: quick=10 thorough=200
func H_Simple() {
	n := 3
	l := &gtab.LookupTable{Meta: meta(), Subtables: []gtab.Subtable{simple(n)}}
	if vsym.Bool() {
		l.Subtables = append(l.Subtables, simple(n))
	}
	k := 1 + vsym.Choose(3)
	if vsym.Thorough() {
		k = vsym.Choose(6)
	}
	seq := text(k, n)
	positions(seq)
	check(gtab.LookupList{l}, world(n), one(), seq)
}

// H_Order: several simple lookups in arbitrary order, including indices out
// of range.
//
//gosym: quick=8 thorough=100
func H_Order() {
	n := 3
	var ll gtab.LookupList
	for range 3 {
		m := plain()
		if vsym.Bool() {
			m = meta()
		}
		ll = append(ll, &gtab.LookupTable{Meta: m, Subtables: []gtab.Subtable{simple(n)}})
	}
	var idx []gtab.LookupIndex
	for range 1 + vsym.Choose(3) {
		idx = append(idx, gtab.LookupIndex(vsym.Choose(4)))
	}
	check(ll, world(n), idx, text(2, n))
}

// H_Lig: a ligature lookup with up to three candidates (of up to three further
// components) for the same first glyph and one candidate for another one.
//
//gosym: quick=16 thorough=300
func H_Lig() {
	n := 4
	var ligs []gtab.Ligature
	for range 1 + vsym.Choose(3) {
		ligs = append(ligs, gtab.Ligature{In: gls(vsym.Choose(4), n), Out: gl(n)})
	}
	s := &gtab.Gsub4_1{Cov: cov(1, 2), Repl: [][]gtab.Ligature{ligs, {{In: gls(1, n), Out: gl(n)}}}}
	l := &gtab.LookupTable{Meta: meta(), Subtables: []gtab.Subtable{s}}
	k := 3 + vsym.Choose(3)
	if vsym.Thorough() {
		k = 1 + vsym.Choose(7)
	}
	check(gtab.LookupList{l}, world(n), one(), text(k, n))
}

func acts(inLen int) []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for i := 0; i < inLen; i++ {
		res = append(res, gtab.SeqLookup{SequenceIndex: uint16(i), LookupListIndex: gtab.LookupIndex(1 + i%2)})
	}
	return res
}

func classes(n int) classdef.Table {
	t := classdef.Table{}
	for g := 1; g <= n; g++ {
		c := vsym.Uint16()
		vsym.Assume(c <= 2)
		t[glyph.ID(g)] = c
	}
	return t
}

func cls(k int) []uint16 {
	res := make([]uint16, k)
	for i := range res {
		res[i] = vsym.Uint16()
		vsym.Assume(res[i] <= 2)
	}
	return res
}

func sets(k, n int) (res []coverage.Set) {
	for range k {
		res = append(res, set(gl(n)))
	}
	return
}

// ctx makes a contextual subtable. Every rule sends its actions to the
// lookups 1 and 2.
func ctx(kind, n, nb, ni, na, rules int) gtab.Subtable {
	switch kind {
	case 0:
		s := &gtab.SeqContext1{Cov: cov(1, 2), Rules: make([][]*gtab.SeqRule, 2)}
		for range rules {
			s.Rules[0] = append(s.Rules[0], &gtab.SeqRule{Input: gls(ni, n), Actions: acts(ni + 1)})
		}
		return s
	case 1:
		s := &gtab.SeqContext2{Cov: cov(1, 2), Input: classes(n), Rules: make([][]*gtab.ClassSeqRule, 2)}
		for range rules {
			s.Rules[1] = append(s.Rules[1], &gtab.ClassSeqRule{Input: cls(ni), Actions: acts(ni + 1)})
		}
		return s
	case 2:
		return &gtab.SeqContext3{Input: append([]coverage.Set{set(1, 2)}, sets(ni, n)...), Actions: acts(ni + 1)}
	case 3:
		s := &gtab.ChainedSeqContext1{Cov: cov(1, 2), Rules: make([][]*gtab.ChainedSeqRule, 2)}
		for range rules {
			s.Rules[0] = append(s.Rules[0], &gtab.ChainedSeqRule{Backtrack: gls(nb, n), Input: gls(ni, n), Lookahead: gls(na, n), Actions: acts(ni + 1)})
		}
		return s
	case 4:
		s := &gtab.ChainedSeqContext2{Cov: cov(1, 2), Input: classes(n), Backtrack: classes(n), Lookahead: classes(n), Rules: make([][]*gtab.ChainedClassSeqRule, 2)}
		for range rules {
			s.Rules[1] = append(s.Rules[1], &gtab.ChainedClassSeqRule{Backtrack: cls(nb), Input: cls(ni), Lookahead: cls(na), Actions: acts(ni + 1)})
		}
		return s
	default:
		return &gtab.ChainedSeqContext3{Backtrack: sets(nb, n), Input: append([]coverage.Set{set(1, 2)}, sets(ni, n)...), Lookahead: sets(na, n), Actions: acts(ni + 1)}
	}
}

func marker(d uint16) *gtab.LookupTable {
	return &gtab.LookupTable{Meta: plain(), Subtables: []gtab.Subtable{&gtab.Gsub1_1{Cov: set(1, 2, 3, 4), Delta: glyph.ID(d)}}}
}

// H_Context: contextual and chaining lookups of all formats; the matched
// glyphs are recorded by nested single substitutions.
//
//gosym: quick=24 thorough=400
func H_Context() {
	n := 3
	kind := vsym.Choose(6)
	ni := vsym.Choose(3)
	nb, na := 0, 0
	if kind >= 3 {
		nb, na = vsym.Choose(3), vsym.Choose(3)
	}
	l := &gtab.LookupTable{Meta: meta(), Subtables: []gtab.Subtable{ctx(kind, n, nb, ni, na, 1)}}
	k := 1 + ni + nb + na + vsym.Choose(2)
	if vsym.Thorough() {
		k = 1 + vsym.Choose(6)
	}
	check(gtab.LookupList{l, marker(100), marker(200)}, world(n), one(), text(k, n))
}

// H_Rules: several rules, several subtables: the first match wins.
//
//gosym: quick=10 thorough=200
func H_Rules() {
	n := 2
	l := &gtab.LookupTable{Meta: plain()}
	for range 1 + vsym.Choose(2) {
		l.Subtables = append(l.Subtables, ctx(vsym.Choose(6), n, vsym.Choose(2), vsym.Choose(2), vsym.Choose(2), 2))
	}
	if vsym.Bool() {
		l.Meta = meta()
	}
	check(gtab.LookupList{l, marker(100), marker(200)}, world(n), one(), text(3, n))
}

// inner is a lookup which may change the number of glyphs.
func inner(n int) *gtab.LookupTable {
	m := plain()
	if vsym.Bool() {
		m = meta()
	}
	var s gtab.Subtable
	switch vsym.Choose(5) {
	case 0:
		s = &gtab.Gsub2_1{Cov: cov(1, 2), Repl: [][]glyph.ID{gls(2, n), gls(3, n)}}
	case 1:
		s = &gtab.Gsub4_1{Cov: cov(1, 2), Repl: [][]gtab.Ligature{{{In: gls(2, n), Out: gl(n)}, {In: gls(1, n), Out: gl(n)}}, {{In: gls(1, n), Out: gl(n)}}}}
	case 2:
		s = &gtab.Gsub1_2{Cov: cov(1, 2, 3), SubstituteGlyphIDs: gls(3, n)}
	case 3:
		s = &gtab.SeqContext3{Input: sets(2, n), Actions: []gtab.SeqLookup{{SequenceIndex: uint16(vsym.Choose(2)), LookupListIndex: 3}, {SequenceIndex: 1, LookupListIndex: 4}}}
	default:
		s = &gtab.ChainedSeqContext3{Input: sets(2, n), Lookahead: sets(vsym.Choose(2), n), Actions: []gtab.SeqLookup{{SequenceIndex: uint16(vsym.Choose(2)), LookupListIndex: 3}, {SequenceIndex: 1, LookupListIndex: 4}}}
	}
	return &gtab.LookupTable{Meta: m, Subtables: []gtab.Subtable{s}}
}

// leaf changes the number of glyphs without nested lookups.
func leaf(n int) *gtab.LookupTable {
	var s gtab.Subtable
	switch vsym.Choose(3) {
	case 0:
		s = &gtab.Gsub2_1{Cov: cov(1, 2), Repl: [][]glyph.ID{gls(2, n), gls(2, n)}}
	case 1:
		s = &gtab.Gsub4_1{Cov: cov(1, 2), Repl: [][]gtab.Ligature{{{In: gls(1, n), Out: gl(n)}}, {{In: gls(1, n), Out: gl(n)}}}}
	default:
		s = &gtab.Gsub1_2{Cov: cov(1, 2), SubstituteGlyphIDs: gls(2, n)}
	}
	return &gtab.LookupTable{Meta: plain(), Subtables: []gtab.Subtable{s}}
}

// H_Nested: a contextual rule with two nested lookups followed by marking all
// positions, so that changes of the number of glyphs show.
//
//gosym: quick=24 thorough=500
func H_Nested() {
	n := 3
	m := plain()
	if vsym.Bool() {
		m = meta()
	}
	k := 2 + vsym.Choose(2)
	actions := []gtab.SeqLookup{
		{SequenceIndex: uint16(vsym.Choose(4)), LookupListIndex: 1},
		{SequenceIndex: uint16(vsym.Choose(4)), LookupListIndex: 2},
		{SequenceIndex: 0, LookupListIndex: 5},
		{SequenceIndex: 1, LookupListIndex: 6},
		{SequenceIndex: 2, LookupListIndex: 7},
	}
	if vsym.Bool() {
		actions = actions[1:]
	}
	var in []coverage.Set
	for range k {
		in = append(in, set(1, 2))
	}
	var s gtab.Subtable = &gtab.SeqContext3{Input: in, Actions: actions}
	if vsym.Bool() {
		s = &gtab.ChainedSeqContext3{Input: in, Actions: actions}
	}
	ll := gtab.LookupList{{Meta: m, Subtables: []gtab.Subtable{s}}, inner(n), inner(n), leaf(n), leaf(n), marker(100), marker(200), marker(300)}
	check(ll, world(n), one(), text(k+1+vsym.Choose(2), n))
}

// H_Pair: pair adjustment, both formats.
//
//gosym: quick=10 thorough=200
func H_Pair() {
	n := 3
	adj := func() *gtab.PairAdjust {
		a := &gtab.PairAdjust{First: val()}
		switch vsym.Choose(3) {
		case 0:
			a.Second = val()
		case 1:
			a.First = nil
			a.Second = val()
		}
		return a
	}
	var s gtab.Subtable
	if vsym.Bool() {
		s = gtab.Gpos2_1{
			{Left: 1, Right: 2}: adj(),
			{Left: 2, Right: 1}: adj(),
			{Left: 1, Right: 1}: adj(),
		}
	} else {
		s = &gtab.Gpos2_2{Cov: set(1, 2), Class1: classes(n), Class2: classes(n), Adjust: [][]*gtab.PairAdjust{{{First: val()}, adj()}, {adj(), {First: val()}}}}
	}
	l := &gtab.LookupTable{Meta: meta(), Subtables: []gtab.Subtable{s}}
	if vsym.Bool() {
		l.Subtables = append(l.Subtables, gtab.Gpos2_1{{Left: 3, Right: 1}: adj(), {Left: 1, Right: 1}: adj()})
	}
	k := 2 + vsym.Choose(2)
	if vsym.Thorough() {
		k = 2 + vsym.Choose(4)
	}
	seq := text(k, n)
	positions(seq)
	check(gtab.LookupList{l}, world(n), one(), seq)
}

func anc() anchor.Table {
	return anchor.Table{X: funit.Int16(vsym.Int16()), Y: funit.Int16(vsym.Int16())}
}

// H_Mark: mark-to-base and mark-to-mark attachment.
//
//gosym: quick=12 thorough=200
func H_Mark() {
	n := 4
	marks := []markarray.Record{{Class: 0, Table: anc()}, {Class: uint16(vsym.Choose(3)), Table: anc()}}
	bases := [][]anchor.Table{{anc(), anc()}, {anc(), anc()}}
	base := &gtab.LookupTable{Meta: meta(), Subtables: []gtab.Subtable{&gtab.Gpos4_1{MarkCov: cov(2, 3), BaseCov: cov(1, 4), MarkArray: marks, BaseArray: bases}}}
	mark := &gtab.LookupTable{Meta: meta(), Subtables: []gtab.Subtable{&gtab.Gpos6_1{Mark1Cov: cov(2, 3), Mark2Cov: cov(1, 3), Mark1Array: marks, Mark2Array: bases}}}
	idx := [][]gtab.LookupIndex{{0}, {1}, {0, 1}, {1, 0}}[vsym.Choose(4)]
	gd := world(n)
	gd.GlyphClass[2] = 3
	gd.GlyphClass[3] = 3
	seq := text(2+vsym.Choose(2), n)
	positions(seq)
	check(gtab.LookupList{base, mark}, gd, idx, seq)
}

// H_Reverse: reverse chaining substitution.
//
//gosym: quick=8 thorough=100
func H_Reverse() {
	n := 3
	tabs := func(k int) (res []coverage.Table) {
		for range k {
			res = append(res, cov(gl(n)))
		}
		return
	}
	l := &gtab.LookupTable{Meta: meta()}
	for range 1 + vsym.Choose(2) {
		l.Subtables = append(l.Subtables, &gtab.Gsub8_1{Input: cov(1, 2), Backtrack: tabs(vsym.Choose(3)), Lookahead: tabs(vsym.Choose(3)), SubstituteGlyphIDs: gls(2, n)})
	}
	check(gtab.LookupList{l}, world(n), one(), text(1+vsym.Choose(4), n))
}

// H_PosContext: contextual positioning.
//
//gosym: quick=8 thorough=100
func H_PosContext() {
	n := 3
	in := []coverage.Set{set(1, 2), set(gl(n))}
	actions := []gtab.SeqLookup{{SequenceIndex: 0, LookupListIndex: 1}, {SequenceIndex: 1, LookupListIndex: 2}, {SequenceIndex: 0, LookupListIndex: 3}}
	var s gtab.Subtable = &gtab.SeqContext3{Input: in, Actions: actions}
	if vsym.Bool() {
		s = &gtab.ChainedSeqContext3{Backtrack: sets(vsym.Choose(2), n), Input: in, Lookahead: sets(vsym.Choose(2), n), Actions: actions}
	}
	a := &gtab.LookupTable{Meta: plain(), Subtables: []gtab.Subtable{&gtab.Gpos1_1{Cov: cov(1, 2), Adjust: val()}}}
	b := &gtab.LookupTable{Meta: meta(), Subtables: []gtab.Subtable{&gtab.Gpos1_2{Cov: cov(1, 3), Adjust: []*gtab.GposValueRecord{val(), val()}}}}
	c := &gtab.LookupTable{Meta: meta(), Subtables: []gtab.Subtable{gtab.Gpos2_1{{Left: 1, Right: 2}: {First: val(), Second: val()}, {Left: 1, Right: 1}: {First: val()}}}}
	l := &gtab.LookupTable{Meta: meta(), Subtables: []gtab.Subtable{s}}
	seq := text(2+vsym.Choose(3), n)
	positions(seq)
	check(gtab.LookupList{l, a, b, c}, world(n), one(), seq)
}
