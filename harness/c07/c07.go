// Package c07 checks safety of lookup application.
package c07

import (
	"bytes"

	"golang.org/x/text/language"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// w is an arbitrary word.
func w() uint16 { return vsym.Uint16() }

// ix is a small number or a huge one.
func ix(n int) uint16 {
	x := vsym.Uint16()
	vsym.Assume(vsym.Or(int(x) <= n, x == 0xFFFF))
	return x
}

func gs(k int) []glyph.ID {
	res := make([]glyph.ID, k)
	for i := range res {
		res[i] = glyph.ID(w())
	}
	return res
}

func words(k int) []uint16 {
	res := make([]uint16, k)
	for i := range res {
		res[i] = ix(2)
	}
	return res
}

func cov(gg ...glyph.ID) coverage.Table {
	res := coverage.Table{}
	for i, g := range gg {
		res[g] = i
	}
	return res
}

func set(gg ...glyph.ID) coverage.Set {
	res := coverage.Set{}
	for _, g := range gg {
		res[g] = true
	}
	return res
}

func classes() classdef.Table {
	t := classdef.Table{}
	for g := glyph.ID(1); g <= 3; g++ {
		t[g] = ix(3)
	}
	return t
}

func gdefTable() *gdef.Table {
	if vsym.Choose(4) == 0 {
		return nil
	}
	t := &gdef.Table{}
	if vsym.Bool() {
		t.GlyphClass = classes()
	}
	if vsym.Bool() {
		t.MarkAttachClass = classes()
	}
	for range vsym.Choose(3) {
		t.MarkGlyphSets = append(t.MarkGlyphSets, coverage.Set{1: true, 2: vsym.Bool(), 3: vsym.Bool()})
	}
	return t
}

func meta() *gtab.LookupMetaInfo {
	return &gtab.LookupMetaInfo{LookupFlags: gtab.LookupFlags(w()), MarkFilteringSet: ix(2)}
}

// acts is a list of nested actions; the indices may be out of range.
func acts(nl int) []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for range vsym.Choose(4) {
		res = append(res, gtab.SeqLookup{SequenceIndex: ix(3), LookupListIndex: gtab.LookupIndex(ix(nl))})
	}
	return res
}

func val() *gtab.GposValueRecord {
	switch vsym.Choose(2) {
	case 0:
		return nil
	}
	return &gtab.GposValueRecord{XPlacement: funit.Int16(w()), YPlacement: funit.Int16(w()), XAdvance: funit.Int16(w())}
}

func anc() anchor.Table { return anchor.Table{X: funit.Int16(w()), Y: funit.Int16(w())} }

func anchors(k int) []anchor.Table {
	res := make([]anchor.Table, k)
	for i := range res {
		res[i] = anc()
	}
	return res
}

func ctx(kind, nl int) gtab.Subtable {
	ni, nb, na := vsym.Choose(3), vsym.Choose(2), vsym.Choose(2)
	switch kind {
	case 0:
		return &gtab.SeqContext1{Cov: cov(1, 2), Rules: [][]*gtab.SeqRule{{{Input: gs(ni), Actions: acts(nl)}}, nil}}
	case 1:
		return &gtab.SeqContext2{Cov: cov(1, 2), Input: classes(), Rules: [][]*gtab.ClassSeqRule{{{Input: words(ni), Actions: acts(nl)}}, nil}[:vsym.Choose(3)]}
	case 2:
		return &gtab.SeqContext3{Input: []coverage.Set{set(1, 2), set(1, 2, 3), {}}[:1+ni], Actions: acts(nl)}
	case 3:
		return &gtab.ChainedSeqContext1{Cov: cov(1, 2), Rules: [][]*gtab.ChainedSeqRule{{{Backtrack: gs(nb), Input: gs(ni), Lookahead: gs(na), Actions: acts(nl)}}, {}}}
	case 4:
		return &gtab.ChainedSeqContext2{Cov: cov(1, 2), Backtrack: classes(), Input: classes(), Lookahead: classdef.Table{},
			Rules: [][]*gtab.ChainedClassSeqRule{nil, {{Backtrack: words(nb), Input: words(ni), Lookahead: words(na), Actions: acts(nl)}}}[:vsym.Choose(3)]}
	default:
		return &gtab.ChainedSeqContext3{Backtrack: []coverage.Set{set(1, 3)}[:nb], Input: []coverage.Set{set(1, 2), set(1, 2, 3), {}}[:1+ni],
			Lookahead: []coverage.Set{set(2, 3)}[:na], Actions: acts(nl)}
	}
}

const maxRepl = 3

func sub(kind, nl int) gtab.Subtable {
	switch kind {
	case 0:
		return &gtab.Gsub1_1{Cov: set(1, 2), Delta: glyph.ID(w())}
	case 1:
		return &gtab.Gsub1_2{Cov: cov(1, 2), SubstituteGlyphIDs: gs(2)}
	case 2:
		return &gtab.Gsub2_1{Cov: cov(1, 2), Repl: [][]glyph.ID{gs(vsym.Choose(maxRepl + 1)), gs(vsym.Choose(2))}}
	case 3:
		return &gtab.Gsub3_1{Cov: cov(1, 2), Alternates: [][]glyph.ID{gs(vsym.Choose(2)), nil}}
	case 4:
		return &gtab.Gsub4_1{Cov: cov(1, 2), Repl: [][]gtab.Ligature{{{In: gs(vsym.Choose(3)), Out: glyph.ID(w())}, {In: gs(1), Out: 2}}, nil}}
	case 5:
		return &gtab.Gsub8_1{Input: cov(1, 2), Backtrack: []coverage.Table{cov(1), {}}[:vsym.Choose(3)], Lookahead: []coverage.Table{cov(2), {}}[:vsym.Choose(3)], SubstituteGlyphIDs: gs(2)}
	case 6:
		return &gtab.Gpos1_1{Cov: cov(1, 2), Adjust: val()}
	case 7:
		return &gtab.Gpos1_2{Cov: cov(1, 2), Adjust: []*gtab.GposValueRecord{val(), val()}}
	case 8:
		return gtab.Gpos2_1{{Left: 1, Right: 2}: {First: val(), Second: val()}, {Left: 2, Right: 2}: {First: val()}}
	case 9:
		return &gtab.Gpos2_2{Cov: set(1, 2), Class1: classes(), Class2: classes(), Adjust: [][]*gtab.PairAdjust{{{First: val()}, {Second: val()}}}}
	case 10:
		return &gtab.Gpos3_1{Cov: cov(1, 2), Records: []gtab.EntryExitRecord{{Entry: anc(), Exit: anc()}, {}}}
	case 11:
		return &gtab.Gpos4_1{MarkCov: cov(1, 2), BaseCov: cov(2, 3), MarkArray: []markarray.Record{{Class: ix(2), Table: anc()}, {Class: ix(1)}}, BaseArray: [][]anchor.Table{anchors(1), anchors(1)}}
	case 12:
		return &gtab.Gpos6_1{Mark1Cov: cov(1, 2), Mark2Cov: cov(2, 3), Mark1Array: []markarray.Record{{Class: ix(2), Table: anc()}, {Class: ix(1)}}, Mark2Array: [][]anchor.Table{anchors(1), anchors(1)}}
	}
	return ctx(kind-13, nl)
}

const numKinds = 19

// text is a sequence of k arbitrary glyphs.
func text(k int) []glyph.Info {
	res := make([]glyph.Info, k)
	for i := range res {
		res[i].GID = glyph.ID(w())
		res[i].Text = []rune{rune('a' + i)}
	}
	if k > 1 {
		res[1].Text = []rune{'x', 'y'}
	}
	return res
}

func clone(seq []glyph.Info) []glyph.Info {
	res := make([]glyph.Info, len(seq))
	for i, g := range seq {
		res[i] = g
		res[i].Text = append([]rune{}, g.Text...)
	}
	return res
}

func same(a, b []glyph.Info, msg string) {
	vsym.Assert(len(a) == len(b), msg)
	good := true
	for i := range a {
		good = vsym.And(good, vsym.And(a[i].GID == b[i].GID, vsym.And(a[i].Advance == b[i].Advance, vsym.And(a[i].XOffset == b[i].XOffset, a[i].YOffset == b[i].YOffset))))
		vsym.Assert(string(a[i].Text) == string(b[i].Text), msg)
	}
	vsym.Assert(good, msg)
}

func count(seq []glyph.Info) map[rune]int {
	res := map[rune]int{}
	for _, g := range seq {
		for _, r := range g.Text {
			res[r]++
		}
	}
	return res
}

// apply runs the lookups and checks the invariants.
func apply(ctx *gtab.Context, seq []glyph.Info, limit int) []glyph.Info {
	before := count(seq)
	vsym.StepLimit(5_000_000)
	out := ctx.Apply(seq)
	vsym.StepCheck()
	after := count(out)
	vsym.Assert(len(before) == len(after), "text lost or invented")
	for r, n := range before {
		vsym.Assert(after[r] == n, "text lost or duplicated")
	}
	vsym.Assert(len(out) <= limit, "output too long")
	return out
}

// history applies the lookups to both texts with one context, and to the
// second one with a new context and reversed map order.
func history(ll gtab.LookupList, gd *gdef.Table, idx []gtab.LookupIndex, a, b []glyph.Info) {
	b2 := clone(b)
	c := gtab.NewContext(ll, gd, idx)
	limit := func(n int) int {
		for range idx {
			n += n * 64 * (maxRepl - 1)
		}
		return n
	}
	apply(c, a, limit(len(a)))
	out := apply(c, b, limit(len(b)))
	vsym.MapOrder(1)
	out2 := apply(gtab.NewContext(ll, gd, idx), b2, limit(len(b2)))
	vsym.MapOrder(0)
	same(out, out2, "result depends on earlier calls")
}

// H_One: every subtable type alone, with indices out of range.
//
//gosym: quick=12 thorough=200
func H_One() {
	ll := gtab.LookupList{{Meta: meta(), Subtables: []gtab.Subtable{sub(vsym.Choose(numKinds), 1)}}}
	history(ll, gdefTable(), []gtab.LookupIndex{0}, text(vsym.Choose(3)), text(vsym.Choose(4)))
}

// H_Context: contextual rules with arbitrary nested lookups, including cycles
// and out-of-range indices.
//
//gosym: quick=24 thorough=400
func H_Context() {
	ll := gtab.LookupList{
		{Meta: &gtab.LookupMetaInfo{}, Subtables: []gtab.Subtable{ctx(vsym.Choose(6), 2)}},
		{Meta: meta(), Subtables: []gtab.Subtable{sub(vsym.Choose(numKinds), 2)}},
	}
	if vsym.Bool() {
		ll[0].Meta = meta()
	}
	idx := [][]gtab.LookupIndex{{0}, {0, 1}, {0, 5, 0xFFFF, 0}}[vsym.Choose(3)]
	history(ll, gdefTable(), idx, text(1+vsym.Choose(2)), text(1+vsym.Choose(3)))
}

// H_Budget: rules with more nested actions than the engine runs, and rules
// which call themselves.
//
//gosym: quick=14 thorough=200
func H_Budget() {
	n := []int{1, 2, 3, 61, 62, 63, 64, 65, 100}[vsym.Choose(9)]
	inner := gtab.LookupIndex(vsym.Choose(4))
	var actions []gtab.SeqLookup
	for i := range n {
		s := uint16(0)
		if i%3 == 2 {
			s = uint16(vsym.Choose(3))
			if i > 3 {
				s = 1
			}
		}
		actions = append(actions, gtab.SeqLookup{SequenceIndex: s, LookupListIndex: inner})
	}
	if n < 4 {
		actions = append(actions, gtab.SeqLookup{SequenceIndex: 1, LookupListIndex: 2})
	}
	in := []coverage.Set{set(1, 2), set(1, 2)}[:1+vsym.Choose(2)]
	var c gtab.Subtable = &gtab.SeqContext3{Input: in, Actions: actions}
	if vsym.Bool() {
		c = &gtab.ChainedSeqContext3{Input: in, Actions: actions}
	}
	ll := gtab.LookupList{
		{Meta: &gtab.LookupMetaInfo{}, Subtables: []gtab.Subtable{c}},
		{Meta: &gtab.LookupMetaInfo{}, Subtables: []gtab.Subtable{&gtab.Gsub2_1{Cov: cov(1, 2), Repl: [][]glyph.ID{{1, 2}, {2, 1, 1}}}}},
		{Meta: &gtab.LookupMetaInfo{}, Subtables: []gtab.Subtable{&gtab.Gsub1_2{Cov: cov(1, 2), SubstituteGlyphIDs: []glyph.ID{2, 1}}}},
		{Meta: &gtab.LookupMetaInfo{}, Subtables: []gtab.Subtable{&gtab.Gsub4_1{Cov: cov(1, 2), Repl: [][]gtab.Ligature{{{In: []glyph.ID{1}, Out: 2}, {In: []glyph.ID{2}, Out: 1}}, {{In: []glyph.ID{2}, Out: 2}}}}}},
	}
	a, b := text(1+vsym.Choose(3)), text(1+vsym.Choose(4))
	for _, s := range [][]glyph.Info{a, b} {
		for _, g := range s {
			vsym.Assume(vsym.And(g.GID >= 1, g.GID <= 3))
		}
	}
	history(ll, nil, []gtab.LookupIndex{0, 3}[:1+vsym.Choose(2)], a, b)
}

// H_Chain: a chain of contextual lookups, each of which calls the next one
// several times; the last one expands glyphs.
//
//gosym: quick=14 thorough=200
func H_Chain() {
	n := []int{1, 2, 3, 6, 8, 62, 63, 64, 70}[vsym.Choose(9)]
	if vsym.Thorough() && n == 8 {
		n = 11
	}
	rep := 1 + vsym.Choose(3)
	two := vsym.Bool() // two positions
	last := vsym.Choose(4)
	var ll gtab.LookupList
	for i := range n {
		in := []coverage.Set{set(1, 2), set(1, 2)}
		if !two {
			in = in[:1]
		}
		var actions []gtab.SeqLookup
		for j := range rep {
			s := uint16(0)
			if j == 1 && two {
				s = 1
			}
			actions = append(actions, gtab.SeqLookup{SequenceIndex: s, LookupListIndex: gtab.LookupIndex(i + 1)})
		}
		if i == n-1 && last == 3 {
			actions[rep-1].LookupListIndex = 0 // a cycle
		}
		var c gtab.Subtable = &gtab.SeqContext3{Input: in, Actions: actions}
		if i%2 == 1 {
			c = &gtab.ChainedSeqContext3{Input: in, Actions: actions}
		}
		ll = append(ll, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{}, Subtables: []gtab.Subtable{c}})
	}
	meta := &gtab.LookupMetaInfo{}
	switch last {
	case 0, 3:
		ll = append(ll, &gtab.LookupTable{Meta: meta, Subtables: []gtab.Subtable{&gtab.Gsub2_1{Cov: cov(1, 2), Repl: [][]glyph.ID{{1, 2, 1}, {2, 1, 1}}}}})
	case 1:
		ll = append(ll, &gtab.LookupTable{Meta: meta, Subtables: []gtab.Subtable{&gtab.Gsub1_2{Cov: cov(1, 2), SubstituteGlyphIDs: []glyph.ID{2, 1}}}})
	case 2:
		ll = append(ll, &gtab.LookupTable{Meta: meta, Subtables: []gtab.Subtable{&gtab.Gsub4_1{Cov: cov(1, 2), Repl: [][]gtab.Ligature{{{In: []glyph.ID{1}, Out: 2}}, {{In: []glyph.ID{2}, Out: 1}}}}}})
	}
	a, b := text(1), text(1+vsym.Choose(3))
	for _, s := range [][]glyph.Info{a, b} {
		for _, g := range s {
			vsym.Assume(vsym.And(g.GID >= 1, g.GID <= 3))
		}
	}
	history(ll, nil, []gtab.LookupIndex{0}, a, b)
}

// H_Read: a GSUB or GPOS table with one lookup of any type, encoded by the
// library, with one word replaced by an arbitrary one; read and applied.
//
//gosym: quick=24 thorough=400
func H_Read() {
	kind := vsym.Choose(len(samples))
	info, typ := samples[kind](), gtab.Type(gtab.TypeGsub)
	if kind >= firstGpos {
		typ = gtab.TypeGpos
	}
	data := hx.Clone(info.Encode())
	start := hx.U16(data, 8)
	n := (len(data) - start) / 2
	k := vsym.Choose(n)
	x := vsym.Uint16D(uint16(hx.U16(data, start+2*k)))
	vsym.Assume(vsym.Or(x <= 40, x >= 0xFFF0))
	data[start+2*k] = byte(x >> 8)
	data[start+2*k+1] = byte(x)
	got, err := gtab.Read(bytes.NewReader(data), typ)
	if err != nil {
		return
	}
	vsym.Reach("accepted")
	gd := &gdef.Table{GlyphClass: classdef.Table{1: 1, 2: 2, 3: 3}, MarkAttachClass: classdef.Table{3: 1}}
	for _, l := range got.LookupList {
		for _, s := range l.Subtables {
			if vertical(s) {
				return
			}
		}
	}
	all := []glyph.ID{1, 2, 3, 1, 2}
	seq := make([]glyph.Info, 5)
	for i := range seq {
		seq[i] = glyph.Info{GID: all[i], Text: []rune{rune('a' + i)}}
	}
	if vsym.Bool() {
		seq[1].GID = glyph.ID(w())
		seq[2].GID = glyph.ID(w())
	}
	b := clone(seq[1:4])
	c := gtab.NewContext(got.LookupList, gd, []gtab.LookupIndex{0})
	apply(c, clone(seq), 2000)
	out := apply(c, clone(b), 2000)
	out2 := apply(gtab.NewContext(got.LookupList, gd, []gtab.LookupIndex{0}), b, 2000)
	same(out, out2, "result depends on earlier calls")
}

// vertical tells whether a subtable uses features which are declared as not
// implemented.
func vertical(s gtab.Subtable) bool {
	bad := func(v *gtab.GposValueRecord) bool {
		if v == nil {
			return false
		}
		return v.YAdvance != 0 || v.XPlacementDevOffs != 0 || v.YPlacementDevOffs != 0 || v.XAdvanceDevOffs != 0 || v.YAdvanceDevOffs != 0
	}
	switch s := s.(type) {
	case *gtab.Gpos1_1:
		return bad(s.Adjust)
	case *gtab.Gpos1_2:
		for _, v := range s.Adjust {
			if bad(v) {
				return true
			}
		}
	case gtab.Gpos2_1:
		for _, v := range s {
			if bad(v.First) || bad(v.Second) {
				return true
			}
		}
	case *gtab.Gpos2_2:
		for _, r := range s.Adjust {
			for _, v := range r {
				if bad(v.First) || bad(v.Second) {
					return true
				}
			}
		}
	}
	return false
}

func wrap(typ uint16, s gtab.Subtable) *gtab.Info {
	return &gtab.Info{
		ScriptList:  gtab.ScriptListInfo{language.MustParse("und-Zzzz-x-dflt"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
		FeatureList: []*gtab.Feature{{Tag: "test", Lookups: []gtab.LookupIndex{0}}},
		LookupList: gtab.LookupList{
			{Meta: &gtab.LookupMetaInfo{LookupType: typ, LookupFlags: gtab.UseMarkFilteringSet, MarkFilteringSet: 1}, Subtables: []gtab.Subtable{s}},
			{Meta: &gtab.LookupMetaInfo{LookupType: 1}, Subtables: []gtab.Subtable{&gtab.Gsub1_1{Cov: set(1, 2), Delta: 1}}},
		},
	}
}

func wrapPos(typ uint16, s gtab.Subtable) *gtab.Info {
	i := wrap(typ, s)
	i.LookupList[1].Subtables = []gtab.Subtable{&gtab.Gpos1_1{Cov: cov(1, 2), Adjust: &gtab.GposValueRecord{XAdvance: 1}}}
	return i
}

const firstGpos = 12

var (
	act = []gtab.SeqLookup{{SequenceIndex: 0, LookupListIndex: 1}, {SequenceIndex: 1, LookupListIndex: 0}}
	v1  = &gtab.GposValueRecord{XPlacement: 1, XAdvance: 2}
	rec = []markarray.Record{{Class: 0, Table: anchor.Table{X: 1, Y: 2}}, {Class: 1, Table: anchor.Table{X: 3, Y: 4}}}
	arr = [][]anchor.Table{{{X: 1, Y: 2}, {X: 3, Y: 4}}, {{X: 5, Y: 6}, {X: 7, Y: 8}}}

	samples = []func() *gtab.Info{
		func() *gtab.Info { return wrap(1, &gtab.Gsub1_1{Cov: set(1, 2), Delta: 1}) },
		func() *gtab.Info {
			return wrap(1, &gtab.Gsub1_2{Cov: cov(1, 2), SubstituteGlyphIDs: []glyph.ID{3, 1}})
		},
		func() *gtab.Info { return wrap(2, &gtab.Gsub2_1{Cov: cov(1, 2), Repl: [][]glyph.ID{{1, 2}, {3}}}) },
		func() *gtab.Info { return wrap(3, &gtab.Gsub3_1{Cov: cov(1, 2), Alternates: [][]glyph.ID{{2}, {3}}}) },
		func() *gtab.Info {
			return wrap(4, &gtab.Gsub4_1{Cov: cov(1, 2), Repl: [][]gtab.Ligature{{{In: []glyph.ID{2}, Out: 3}}, {{In: []glyph.ID{1, 2}, Out: 1}}}})
		},
		func() *gtab.Info {
			return wrap(5, &gtab.SeqContext1{Cov: cov(1, 2), Rules: [][]*gtab.SeqRule{{{Input: []glyph.ID{2}, Actions: act}}, {{Input: []glyph.ID{1}, Actions: act}}}})
		},
		func() *gtab.Info {
			return wrap(5, &gtab.SeqContext2{Cov: cov(1, 2), Input: classdef.Table{1: 1, 2: 2}, Rules: [][]*gtab.ClassSeqRule{{}, {{Input: []uint16{2}, Actions: act}}, {{Input: []uint16{1}, Actions: act}}}})
		},
		func() *gtab.Info {
			return wrap(5, &gtab.SeqContext3{Input: []coverage.Set{set(1), set(2)}, Actions: act})
		},
		func() *gtab.Info {
			return wrap(6, &gtab.ChainedSeqContext1{Cov: cov(1, 2), Rules: [][]*gtab.ChainedSeqRule{{}, {{Backtrack: []glyph.ID{1}, Lookahead: []glyph.ID{1}, Actions: act}}}})
		},
		func() *gtab.Info {
			return wrap(6, &gtab.ChainedSeqContext2{Cov: cov(1, 2), Backtrack: classdef.Table{1: 1}, Input: classdef.Table{1: 1, 2: 1}, Lookahead: classdef.Table{3: 1},
				Rules: [][]*gtab.ChainedClassSeqRule{{}, {{Backtrack: []uint16{1}, Lookahead: []uint16{1}, Actions: act}}}})
		},
		func() *gtab.Info {
			return wrap(6, &gtab.ChainedSeqContext3{Backtrack: []coverage.Set{set(1)}, Input: []coverage.Set{set(2), set(3)}, Lookahead: []coverage.Set{set(1)}, Actions: act})
		},
		func() *gtab.Info {
			return wrap(8, &gtab.Gsub8_1{Input: cov(1, 2), Backtrack: []coverage.Table{cov(1, 3)}, Lookahead: []coverage.Table{cov(2, 3)}, SubstituteGlyphIDs: []glyph.ID{2, 3}})
		},
		func() *gtab.Info { return wrapPos(1, &gtab.Gpos1_1{Cov: cov(1, 2), Adjust: v1}) },
		func() *gtab.Info {
			return wrapPos(1, &gtab.Gpos1_2{Cov: cov(1, 2), Adjust: []*gtab.GposValueRecord{v1, v1}})
		},
		func() *gtab.Info {
			return wrapPos(2, gtab.Gpos2_1{{Left: 1, Right: 2}: {First: v1, Second: v1}, {Left: 2, Right: 3}: {First: v1, Second: v1}})
		},
		func() *gtab.Info {
			return wrapPos(2, &gtab.Gpos2_2{Cov: set(1, 2), Class1: classdef.Table{1: 1}, Class2: classdef.Table{2: 1}, Adjust: [][]*gtab.PairAdjust{{{First: v1}, {First: v1}}, {{First: v1}, {First: v1}}}})
		},
		func() *gtab.Info {
			return wrapPos(3, &gtab.Gpos3_1{Cov: cov(1, 2), Records: []gtab.EntryExitRecord{{Entry: anchor.Table{X: 1}, Exit: anchor.Table{X: 2}}, {Entry: anchor.Table{X: 1}}}})
		},
		func() *gtab.Info {
			return wrapPos(4, &gtab.Gpos4_1{MarkCov: cov(2, 3), BaseCov: cov(1, 4), MarkArray: rec, BaseArray: arr})
		},
		func() *gtab.Info {
			return wrapPos(5, &gtab.Gpos5_1{MarkCov: cov(2, 3), LigCov: cov(1), MarkArray: rec, LigArray: [][][]anchor.Table{arr}})
		},
		func() *gtab.Info {
			return wrapPos(6, &gtab.Gpos6_1{Mark1Cov: cov(2, 3), Mark2Cov: cov(1, 2), Mark1Array: rec, Mark2Array: arr})
		},
		func() *gtab.Info {
			return wrapPos(7, &gtab.SeqContext3{Input: []coverage.Set{set(1), set(2)}, Actions: act})
		},
		func() *gtab.Info {
			return wrapPos(8, &gtab.ChainedSeqContext3{Backtrack: []coverage.Set{set(1)}, Input: []coverage.Set{set(2), set(3)}, Lookahead: []coverage.Set{set(1)}, Actions: act})
		},
	}
)

// H_Layout: a layouter used for two strings gives the same results as new
// layouters.
//
//gosym: quick=14 thorough=200
func H_Layout() {
	f := fx.Glyf(1024, glyf.Glyphs{fx.Tri(0, 0, 10, 10), nil, fx.Tri(0, 0, 9, 9), nil}, []funit.Int16{100, 200, 300, 400})
	f.CMapTable = fx.Map4(map[uint16]glyph.ID{'a': 1, 'b': 2, 'c': 3, 'd': glyph.ID(w())})
	f.Gdef = gdefTable()
	f.Gsub = wrap(1, sub(vsym.Choose(6), 2))
	f.Gsub.LookupList[0].Meta = meta()
	f.Gpos = wrapPos(1, sub(6+vsym.Choose(7), 2))
	f.Gpos.LookupList[0].Meta = meta()
	on := map[string]bool{"test": true}
	lang := language.English
	strs := []string{"", "ab", "bad", "cdb", "abcb", "\xff\U00010000b"}
	s1, s2 := strs[vsym.Choose(len(strs))], strs[vsym.Choose(len(strs))]
	l, err := f.NewLayouter(lang, on, on)
	vsym.Assert(err == nil, "no layouter")
	vsym.StepLimit(20_000_000)
	l.Layout(s1)
	out := clone(l.Layout(s2))
	vsym.MapOrder(1)
	l2, err := f.NewLayouter(lang, on, on)
	vsym.Assert(err == nil, "no layouter")
	out2 := l2.Layout(s2)
	vsym.StepCheck()
	vsym.MapOrder(0)
	same(out, out2, "layout depends on earlier calls")
	n := 0
	for _, g := range out {
		n += len(g.Text)
	}
	vsym.Assert(n == len([]rune(s2)), "text lost or invented")
}
