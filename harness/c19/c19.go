// Package c19 decides property C19: the textual lookup description language is
// a faithful and total notation.
//
// Bounds: fonts of 9 glyphs in six variants (with and without names and
// character map, names and characters which need care); one or two lookups with
// up to three subtables; symbolic flags, glyphs, classes, nested actions and
// numbers (one number of full range per path, others small).  Texts: up to 5
// arbitrary bytes (7 in the thorough tier), and templates covering the whole
// grammar with one or two arbitrary bytes, or one token inserted, deleted or
// replaced at any position.
package c19

import (
	"strings"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

const numGlyphs = 9

const numFonts = 6

// font returns a font with the given naming scheme.
func font(kind int) *sfnt.Font {
	f := fx.Base(1000)
	var names []string
	m := map[uint16]glyph.ID{}
	switch kind {
	case 0, 1: // names and (for kind 0) character map
		names = []string{".notdef", "A", "B", "C", "D", "E", "F", "G", "H"}
		for i := 1; i < numGlyphs; i++ {
			m['A'+uint16(i)-1] = glyph.ID(i)
		}
	case 2, 3: // no names, (for kind 2) partial character map
		for i := 2; i < 6; i++ {
			m['A'+uint16(i)-1] = glyph.ID(i)
		}
	case 4: // names which need care
		names = []string{".notdef", "class", "a-b", "3x", "dup", "dup", "_", "mark", "inputclass"}
		m['a'] = 1
	case 5: // characters which need care
		names = []string{".notdef", "quotedbl", "backslash", "space", "five", "uni00AD", "eacute", "base", ""}
		for i, c := range []uint16{'"', '\\', ' ', '5', 0xAD, 0xE9, '\n', '['} {
			m[c] = glyph.ID(i + 1)
		}
	}
	if kind == 2 || kind == 3 {
		f.Outlines = &glyf.Outlines{Glyphs: make(glyf.Glyphs, numGlyphs), Widths: make([]funit.Int16, numGlyphs)}
	} else {
		gg := make([]*cff.Glyph, numGlyphs)
		for i := range gg {
			gg[i] = &cff.Glyph{Name: names[i]}
		}
		f.Outlines = &cff.Outlines{Glyphs: gg}
	}
	if kind != 1 && kind != 3 {
		f.CMapTable = fx.Map4(m)
	}
	if kind == 1 && vsym.Bool() {
		f.CMapTable = cmap.Table{}
	}
	return f
}

func flags() gtab.LookupFlags {
	var res gtab.LookupFlags
	if vsym.Bool() {
		res |= gtab.IgnoreMarks
	}
	if vsym.Bool() {
		res |= gtab.IgnoreLigatures
	}
	if vsym.Bool() {
		res |= gtab.IgnoreBaseGlyphs
	}
	return res
}

// gid returns an arbitrary glyph of the font.
func gid() glyph.ID { return glyph.ID(vsym.Concrete(vsym.Int(0, numGlyphs-1))) }

// gids returns lo to hi arbitrary glyphs.
func gids(lo, hi int) []glyph.ID {
	n := lo + vsym.Choose(hi-lo+1)
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = gid()
	}
	return res
}

// ascending returns lo to hi glyphs in increasing order.
func ascending(lo, hi int) []glyph.ID {
	res := gids(lo, hi)
	for i := 1; i < len(res); i++ {
		vsym.Assume(res[i-1] < res[i])
	}
	return res
}

func cov(gg []glyph.ID) coverage.Table {
	res := coverage.Table{}
	for i, g := range gg {
		res[g] = i
	}
	return res
}

func set(gg []glyph.ID) coverage.Set {
	res := coverage.Set{}
	for _, g := range gg {
		res[g] = true
	}
	return res
}

// num returns an arbitrary 16-bit number.
func num() funit.Int16 { return funit.Int16(vsym.Int16()) }

// small returns a number with one or two digits.
func small() funit.Int16 {
	x := vsym.Int16()
	vsym.Assume(vsym.And(x >= -11, x <= 11))
	return funit.Int16(x)
}

func fx16(x uint16) gtab.LookupIndex { return gtab.LookupIndex(x) }

// actions returns up to two nested actions.
func actions() []gtab.SeqLookup {
	switch vsym.Choose(3) {
	case 0:
		return nil
	case 1:
		return []gtab.SeqLookup{{SequenceIndex: vsym.Uint16(), LookupListIndex: 3}}
	default:
		return []gtab.SeqLookup{{SequenceIndex: 1, LookupListIndex: fx16(vsym.Uint16())}, {SequenceIndex: 0, LookupListIndex: 12}}
	}
}

// someActions is a cheaper version of actions.
func someActions() []gtab.SeqLookup {
	if vsym.Bool() {
		return nil
	}
	return []gtab.SeqLookup{{SequenceIndex: 1, LookupListIndex: 2}, {SequenceIndex: 0, LookupListIndex: 12}}
}

func value() *gtab.GposValueRecord {
	v := &gtab.GposValueRecord{}
	switch vsym.Choose(5) {
	case 0:
		return nil
	case 1:
		v.XPlacement = num()
		vsym.Assume(v.XPlacement != 0)
	case 2:
		v.YPlacement = num()
		vsym.Assume(v.YPlacement != 0)
	case 3:
		v.XAdvance = num()
		vsym.Assume(v.XAdvance != 0)
	case 4:
		v.XPlacement, v.YPlacement, v.XAdvance = small(), small(), small()
		vsym.Assume(vsym.Or(v.XPlacement != 0, v.YPlacement != 0, v.XAdvance != 0))
	}
	return v
}

// smallValue is a cheaper version of value.
func smallValue() *gtab.GposValueRecord {
	switch vsym.Choose(3) {
	case 0:
		return nil
	case 1:
		return &gtab.GposValueRecord{XAdvance: -50, XPlacement: 7}
	default:
		return &gtab.GposValueRecord{YPlacement: 10}
	}
}

func lookup(t uint16, fl gtab.LookupFlags, ss ...gtab.Subtable) *gtab.LookupTable {
	return &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: t, LookupFlags: fl}, Subtables: ss}
}

// checkGsub asserts that the description of ll is parsed back as ll.
func checkGsub(f *sfnt.Font, ll ...*gtab.LookupTable) {
	f.Gsub = &gtab.Info{LookupList: ll}
	check(f, builder.ExplainGsub(f), ll)
}

func checkGpos(f *sfnt.Font, ll ...*gtab.LookupTable) {
	f.Gpos = &gtab.Info{LookupList: ll}
	check(f, strings.Join(builder.ExplainGpos(f), "\n"), ll)
}

func check(f *sfnt.Font, text string, ll gtab.LookupList) {
	got, err := builder.Parse(f, text)
	vsym.Assert(err == nil, "description is not accepted by the parser")
	vsym.AssertEqual(got, ll, "description does not describe the lookup list")
	vsym.Assert(vsym.Quiesce() == 0, "goroutine left running")
}

// anyFlags chooses a font, and flags for one of the fonts.
func anyFlags() (*sfnt.Font, gtab.LookupFlags) {
	k := vsym.Choose(numFonts)
	if k == 0 {
		return font(k), flags()
	}
	return font(k), 0
}

//gosym: quick=12 thorough=120
func H_Gsub1() {
	f, fl := anyFlags()
	from := ascending(1, 4)
	to := make([]glyph.ID, len(from))
	isConst := true
	for i := range to {
		if vsym.Bool() {
			// part of a run of constant offsets
			d := glyph.ID(1)
			if i > 0 {
				d = to[i-1] - from[i-1]
			}
			to[i] = from[i] + d
			vsym.Assume(to[i] < numGlyphs)
		} else {
			to[i] = gid()
		}
		if to[i]-from[i] != to[0]-from[0] {
			isConst = false
		}
	}
	if isConst {
		checkGsub(f, lookup(1, fl, &gtab.Gsub1_1{Cov: set(from), Delta: to[0] - from[0]}))
	} else {
		checkGsub(f, lookup(1, fl, &gtab.Gsub1_2{Cov: cov(from), SubstituteGlyphIDs: to}))
	}
}

//gosym: quick=8 thorough=60
func H_Gsub2() {
	f, fl := anyFlags()
	from := ascending(1, 2)
	to := make([][]glyph.ID, len(from))
	for i := range to {
		to[i] = gids(1, 2)
	}
	checkGsub(f, lookup(2, fl, &gtab.Gsub2_1{Cov: cov(from), Repl: to}))
}

//gosym: quick=8 thorough=60
func H_Gsub3() {
	f, fl := anyFlags()
	from := ascending(1, 2)
	to := make([][]glyph.ID, len(from))
	for i := range to {
		to[i] = ascending(0, 2)
	}
	checkGsub(f, lookup(3, fl, &gtab.Gsub3_1{Cov: cov(from), Alternates: to}))
}

//gosym: quick=12 thorough=120
func H_Gsub4() {
	f, fl := anyFlags()
	var from []glyph.ID
	if vsym.Bool() {
		first := glyph.ID(1 + vsym.Choose(3))
		from = []glyph.ID{first, first + 1, first + 2}
	} else {
		from = ascending(1, 2)
	}
	repl := make([][]gtab.Ligature, len(from))
	out := gid()
	for i := range repl {
		n := 1
		if len(from) < 3 {
			n += vsym.Choose(2)
		}
		for j := 0; j < n; j++ {
			l := gtab.Ligature{Out: out}
			switch vsym.Choose(3) {
			case 1:
				l.In = []glyph.ID{5}
			case 2:
				l.In = []glyph.ID{3, 2}
			}
			repl[i] = append(repl[i], l)
			out = (out + 1) % numGlyphs
		}
	}
	checkGsub(f, lookup(4, fl, &gtab.Gsub4_1{Cov: cov(from), Repl: repl}))
}

// classes returns a class table with n classes, all of them used.
func classes(n int) classdef.Table {
	res := classdef.Table{}
	if n > 0 {
		for i := 1; i < numGlyphs; i++ {
			if i <= n {
				res[glyph.ID(i*5%numGlyphs)] = uint16(i)
			} else if vsym.Bool() {
				res[glyph.ID(i*5%numGlyphs)] = uint16(1 + i%n)
			}
		}
	}
	return res
}

// class returns a class between 0 and n.
func class(n int) uint16 { return uint16(vsym.Concrete(vsym.Int(0, n))) }

func classSeq(lo, hi, n int) []uint16 {
	k := lo + vsym.Choose(hi-lo+1)
	var res []uint16
	for i := 0; i < k; i++ {
		res = append(res, class(n))
	}
	return res
}

//gosym: quick=8 thorough=60
func H_Context1() {
	f, fl := anyFlags()
	from := ascending(1, 2)
	rules := make([][]*gtab.SeqRule, len(from))
	for i := range rules {
		if i == 0 {
			rules[i] = append(rules[i], &gtab.SeqRule{Input: gids(0, 2), Actions: actions()})
		}
		if i > 0 || vsym.Bool() {
			rules[i] = append(rules[i], &gtab.SeqRule{Input: []glyph.ID{3, 2}, Actions: someActions()})
		}
	}
	checkGsub(f, lookup(5, fl, &gtab.SeqContext1{Cov: cov(from), Rules: rules}))
}

//gosym: quick=8 thorough=60
func H_Context2() {
	f, fl := anyFlags()
	n := vsym.Choose(3)
	rules := make([][]*gtab.ClassSeqRule, n+1)
	c := class(n)
	rules[c] = append(rules[c], &gtab.ClassSeqRule{Input: classSeq(0, 2, n), Actions: someActions()})
	if vsym.Bool() {
		c = class(n)
		rules[c] = append(rules[c], &gtab.ClassSeqRule{Input: []uint16{uint16(n), 0}, Actions: someActions()})
	}
	checkGsub(f, lookup(5, fl, &gtab.SeqContext2{Cov: cov(ascending(0, 2)), Input: classes(n), Rules: rules}))
}

func sets(lo, hi int) []coverage.Set {
	n := lo + vsym.Choose(hi-lo+1)
	var res []coverage.Set
	for i := 0; i < n; i++ {
		switch vsym.Choose(4) {
		case 0:
			res = append(res, coverage.Set{})
		case 1:
			res = append(res, set([]glyph.ID{gid()}))
		case 2:
			res = append(res, set([]glyph.ID{5, 2, 3}))
		default:
			res = append(res, set([]glyph.ID{1, 7}))
		}
	}
	return res
}

//gosym: quick=8 thorough=60
func H_Context3() {
	f, fl := anyFlags()
	checkGsub(f, lookup(5, fl, &gtab.SeqContext3{Input: sets(1, 3), Actions: someActions()}))
}

//gosym: quick=8 thorough=60
func H_Chained1() {
	f, fl := anyFlags()
	from := ascending(1, 2)
	rules := make([][]*gtab.ChainedSeqRule, len(from))
	rules[0] = append(rules[0], &gtab.ChainedSeqRule{Backtrack: gids(0, 2), Input: gids(0, 1), Lookahead: gids(0, 2), Actions: someActions()})
	for i := range rules {
		if i > 0 || vsym.Bool() {
			rules[i] = append(rules[i], &gtab.ChainedSeqRule{Backtrack: []glyph.ID{2, 3}, Input: []glyph.ID{5}, Actions: actions()})
		}
	}
	checkGsub(f, lookup(6, fl, &gtab.ChainedSeqContext1{Cov: cov(from), Rules: rules}))
}

//gosym: quick=8 thorough=60
func H_Chained2() {
	f, fl := anyFlags()
	nb, ni, nl := vsym.Choose(3), vsym.Choose(3), vsym.Choose(3)
	rules := make([][]*gtab.ChainedClassSeqRule, ni+1)
	c := class(ni)
	rules[c] = append(rules[c], &gtab.ChainedClassSeqRule{
		Backtrack: classSeq(0, 2, nb),
		Input:     classSeq(0, 1, ni),
		Lookahead: classSeq(0, 2, nl),
		Actions:   someActions(),
	})
	if vsym.Bool() {
		c = class(ni)
		rules[c] = append(rules[c], &gtab.ChainedClassSeqRule{Backtrack: []uint16{0, uint16(nb)}, Lookahead: []uint16{uint16(nl)}})
	}
	checkGsub(f, lookup(6, fl, &gtab.ChainedSeqContext2{
		Cov:       cov([]glyph.ID{1, 2, 6}),
		Backtrack: fixedClasses(nb, 1),
		Input:     fixedClasses(ni, 2),
		Lookahead: fixedClasses(nl, 4),
		Rules:     rules,
	}))
}

func fixedClasses(n, step int) classdef.Table {
	res := classdef.Table{}
	for i := 1; n > 0 && i <= n+2; i++ {
		res[glyph.ID(i*step%numGlyphs)] = uint16(1 + (i-1)%n)
	}
	return res
}

//gosym: quick=8 thorough=60
func H_Chained3() {
	f, fl := anyFlags()
	checkGsub(f, lookup(6, fl, &gtab.ChainedSeqContext3{
		Backtrack: sets(0, 2), Input: sets(1, 2), Lookahead: sets(0, 2), Actions: someActions()}))
}

//gosym: quick=8 thorough=60
func H_Gpos1() {
	f, fl := anyFlags()
	gg := ascending(1, 2)
	if vsym.Bool() {
		checkGpos(f, lookup(1, fl, &gtab.Gpos1_1{Cov: cov(gg), Adjust: value()}))
		return
	}
	adj := make([]*gtab.GposValueRecord, len(gg))
	adj[0] = value()
	for i := 1; i < len(adj); i++ {
		adj[i] = smallValue()
	}
	checkGpos(f, lookup(1, fl, &gtab.Gpos1_2{Cov: cov(gg), Adjust: adj}))
}

//gosym: quick=8 thorough=60
func H_Gpos2() {
	f, fl := anyFlags()
	t := gtab.Gpos2_1{}
	a := &gtab.PairAdjust{First: value()}
	if vsym.Bool() {
		a = &gtab.PairAdjust{First: smallValue(), Second: value()}
	}
	t[glyph.Pair{Left: gid(), Right: gid()}] = a
	if vsym.Bool() {
		t[glyph.Pair{Left: 2, Right: gid()}] = &gtab.PairAdjust{First: smallValue()}
	}
	checkGpos(f, lookup(2, fl, t))
}

//gosym: quick=8 thorough=60
func H_Gpos2Class() {
	f, fl := anyFlags()
	n1, n2 := vsym.Choose(3), vsym.Choose(3)
	checkGpos(f, lookup(2, fl, classPairs(n1, n2)))
}

func classPairs(n1, n2 int) *gtab.Gpos2_2 {
	adj := make([][]*gtab.PairAdjust, n1+1)
	for i := range adj {
		for j := 0; j <= n2; j++ {
			a := &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(10*i + j - 15)}}
			if i == n1 && j == n2 {
				a.First = value()
			}
			if i == 0 && j == 0 {
				a.Second = smallValue()
			}
			adj[i] = append(adj[i], a)
		}
	}
	t := &gtab.Gpos2_2{Cov: set([]glyph.ID{1, 3}), Class1: fixedClasses(n1, 1), Class2: fixedClasses(n2, 2), Adjust: adj}
	if n1 == 2 && vsym.Bool() {
		// an empty class
		t.Class1 = classdef.Table{3: 2}
	}
	return t
}

//gosym: quick=8 thorough=60
func H_Gpos3() {
	f, fl := anyFlags()
	gg := ascending(1, 2)
	rec := make([]gtab.EntryExitRecord, len(gg))
	for i := range rec {
		rec[i].Entry = anchor.Table{X: 1, Y: -100}
		rec[i].Exit = anchor.Table{X: 200, Y: 0}
	}
	switch vsym.Choose(4) {
	case 0:
		rec[0].Entry.X = num()
	case 1:
		rec[0].Entry.Y = num()
	case 2:
		rec[0].Exit.X = num()
	case 3:
		rec[0].Exit.Y = num()
	}
	checkGpos(f, lookup(3, fl, &gtab.Gpos3_1{Cov: cov(gg), Records: rec}))
}

func markToBase(marks, bases []glyph.ID, classes int) *gtab.Gpos4_1 {
	ma := make([]markarray.Record, len(marks))
	for i := range ma {
		ma[i] = markarray.Record{Class: uint16(i % classes), Table: anchor.Table{X: funit.Int16(10 * i), Y: -3}}
	}
	ba := make([][]anchor.Table, len(bases))
	for i := range ba {
		ba[i] = make([]anchor.Table, classes)
		for j := range ba[i] {
			ba[i][j] = anchor.Table{X: funit.Int16(100 + 10*i + j), Y: funit.Int16(-i)}
		}
	}
	return &gtab.Gpos4_1{MarkCov: cov(marks), BaseCov: cov(bases), MarkArray: ma, BaseArray: ba}
}

//gosym: quick=8 thorough=60
func H_Gpos4() {
	f, fl := anyFlags()
	marks := ascending(1, 2)
	c := 1 + vsym.Choose(len(marks))
	t := markToBase(marks, ascending(0, 2), c)
	switch vsym.Choose(4) {
	case 0:
		t.MarkArray[0].X = num()
	case 1:
		t.MarkArray[0].Y = num()
	case 2:
		if len(t.BaseArray) > 0 {
			t.BaseArray[0][c-1].X = num()
		}
	case 3:
		if len(t.BaseArray) > 0 {
			t.BaseArray[0][0].Y = num()
		}
	}
	checkGpos(f, lookup(4, fl, t))
}

// gsub5 is one of several fixed subtables of type 5.
func gsub5(k int) gtab.Subtable {
	switch k {
	case 0:
		return &gtab.SeqContext1{Cov: cov([]glyph.ID{2, 3}), Rules: [][]*gtab.SeqRule{
			{{Input: []glyph.ID{3, 4}, Actions: []gtab.SeqLookup{{SequenceIndex: 1, LookupListIndex: 2}}}},
			{{Actions: nil}},
		}}
	case 1:
		return &gtab.SeqContext2{Cov: cov([]glyph.ID{2, 5}), Input: classdef.Table{2: 1, 5: 2, 6: 2}, Rules: [][]*gtab.ClassSeqRule{
			nil,
			{{Input: []uint16{2, 0}, Actions: []gtab.SeqLookup{{SequenceIndex: 0, LookupListIndex: 5}}}},
			{{Input: nil}},
		}}
	case 2:
		return &gtab.SeqContext2{Cov: cov([]glyph.ID{1}), Rules: [][]*gtab.ClassSeqRule{{{Input: []uint16{0}}}}}
	default:
		return &gtab.SeqContext3{Input: []coverage.Set{set([]glyph.ID{2, 3}), {}}, Actions: []gtab.SeqLookup{{SequenceIndex: 1, LookupListIndex: 0}}}
	}
}

func gsub6(k int) gtab.Subtable {
	act := []gtab.SeqLookup{{SequenceIndex: 1, LookupListIndex: 2}}
	switch k {
	case 0:
		return &gtab.ChainedSeqContext1{Cov: cov([]glyph.ID{2, 3}), Rules: [][]*gtab.ChainedSeqRule{
			{{Backtrack: []glyph.ID{1, 2}, Input: []glyph.ID{3, 4}, Actions: act}},
			{{Lookahead: []glyph.ID{5}}},
		}}
	case 1:
		return &gtab.ChainedSeqContext2{Cov: cov([]glyph.ID{2, 5}),
			Backtrack: classdef.Table{7: 1}, Input: classdef.Table{2: 1, 5: 2, 6: 2}, Lookahead: classdef.Table{2: 2, 6: 1},
			Rules: [][]*gtab.ChainedClassSeqRule{
				{{Backtrack: []uint16{1, 0}}},
				{{Input: []uint16{2, 0}, Lookahead: []uint16{2}, Actions: act}},
				{{Lookahead: []uint16{0, 1}}},
			}}
	case 2:
		return &gtab.ChainedSeqContext1{Cov: cov([]glyph.ID{4}), Rules: [][]*gtab.ChainedSeqRule{{{}}}}
	default:
		return &gtab.ChainedSeqContext3{Backtrack: []coverage.Set{set([]glyph.ID{2, 3}), set([]glyph.ID{4})}, Input: []coverage.Set{{}, set([]glyph.ID{1})}, Actions: act}
	}
}

func gpos(t, k int) gtab.Subtable {
	v := &gtab.GposValueRecord{XPlacement: 3, XAdvance: -10}
	switch 10*t + k {
	case 10:
		return &gtab.Gpos1_1{Cov: cov([]glyph.ID{2, 3, 7}), Adjust: v}
	case 11:
		return &gtab.Gpos1_2{Cov: cov([]glyph.ID{2, 3, 7}), Adjust: []*gtab.GposValueRecord{nil, v, {YPlacement: 1}}}
	case 20:
		return gtab.Gpos2_1{{Left: 2, Right: 3}: {First: v}, {Left: 2, Right: 1}: {Second: v}}
	case 21:
		return &gtab.Gpos2_2{Cov: set([]glyph.ID{1, 3}), Class1: classdef.Table{2: 1}, Class2: classdef.Table{3: 1, 4: 2},
			Adjust: [][]*gtab.PairAdjust{{{}, {}, {First: v}}, {{Second: v}, {}, {First: v, Second: v}}}}
	case 30, 31:
		return &gtab.Gpos3_1{Cov: cov([]glyph.ID{glyph.ID(k + 1), 7}), Records: []gtab.EntryExitRecord{{Entry: anchor.Table{X: 1, Y: -2}}, {Exit: anchor.Table{X: 3, Y: 4}}}}
	case 40:
		return markToBase([]glyph.ID{2, 3}, []glyph.ID{5, 7}, 2)
	default:
		return markToBase([]glyph.ID{4}, []glyph.ID{1}, 1)
	}
}

// H_Several checks lookups with several subtables, and lists of lookups.
//
//gosym: quick=10 thorough=60
func H_Several() {
	k := vsym.Choose(numFonts)
	f := font(k)
	t := vsym.Choose(6)
	var ss []gtab.Subtable
	n := 2 + vsym.Choose(2)
	for i := 0; i < n; i++ {
		switch {
		case t == 0:
			ss = append(ss, gsub5(vsym.Choose(4)))
		case t == 1:
			ss = append(ss, gsub6(vsym.Choose(4)))
		default:
			ss = append(ss, gpos(t-1, vsym.Choose(2)))
		}
	}
	var fl gtab.LookupFlags
	if vsym.Bool() {
		fl = gtab.IgnoreMarks | gtab.IgnoreLigatures
	}
	switch t {
	case 0, 1:
		checkGsub(f, lookup(uint16(t+5), fl, ss...))
	default:
		checkGpos(f, lookup(uint16(t-1), fl, ss...))
	}
}

// H_List checks lists of two or three lookups of different types.
//
//gosym: quick=10 thorough=60
func H_List() {
	f := font(vsym.Choose(numFonts))
	n := 2
	if vsym.Choose(2) == 0 {
		var ll []*gtab.LookupTable
		for i := 0; i < n; i++ {
			fl := gtab.LookupFlags(8 * vsym.Choose(2))
			switch k := vsym.Choose(12); k {
			case 0:
				ll = append(ll, lookup(1, fl, &gtab.Gsub1_1{Cov: set([]glyph.ID{2, 3, 4}), Delta: 1}))
			case 1:
				ll = append(ll, lookup(2, fl, &gtab.Gsub2_1{Cov: cov([]glyph.ID{2, 4}), Repl: [][]glyph.ID{{1}, {5, 1, 2}}}))
			case 2:
				ll = append(ll, lookup(3, fl, &gtab.Gsub3_1{Cov: cov([]glyph.ID{2}), Alternates: [][]glyph.ID{{1, 7}}}))
			case 3:
				ll = append(ll, lookup(4, fl, &gtab.Gsub4_1{Cov: cov([]glyph.ID{2}), Repl: [][]gtab.Ligature{{{In: []glyph.ID{3}, Out: 6}}}}))
			case 4, 5, 6, 7:
				ll = append(ll, lookup(5, fl, gsub5(k-4)))
			default:
				ll = append(ll, lookup(6, fl, gsub6(k-8)))
			}
		}
		checkGsub(f, ll...)
		return
	}
	var ll []*gtab.LookupTable
	for i := 0; i < n; i++ {
		fl := gtab.LookupFlags(8 * vsym.Choose(2))
		t := 1 + vsym.Choose(4)
		ll = append(ll, lookup(uint16(t), fl, gpos(t, vsym.Choose(2))))
	}
	checkGpos(f, ll...)
}

// largeFont returns a font with 60 glyphs.
func largeFont(kind int) *sfnt.Font {
	const n = 60
	f := fx.Base(1000)
	m := map[uint16]glyph.ID{}
	gg := make([]*cff.Glyph, n)
	for i := range gg {
		gg[i] = &cff.Glyph{Name: "g" + string([]byte{byte('A' + i/10), byte('0' + i%10)})}
	}
	for i := 1; i < n; i++ {
		if kind == 0 || i%5 == 0 {
			m['A'+uint16(i)-1] = glyph.ID(i)
		}
	}
	gg[0].Name = ".notdef"
	f.Outlines = &cff.Outlines{Glyphs: gg}
	if kind == 2 {
		f.Outlines = &glyf.Outlines{Glyphs: make(glyf.Glyphs, n), Widths: make([]funit.Int16, n)}
	}
	f.CMapTable = fx.Map4(m)
	return f
}

// H_Large checks lookups with many entries: the order of the rules for one
// glyph must be kept.
//
//gosym: quick=16 thorough=90
func H_Large() {
	f := largeFont(vsym.Choose(3))
	vsym.MapOrder(vsym.Choose(3))
	first := glyph.ID(1 + vsym.Choose(2))
	num := []int{3, 5, 14}[vsym.Choose(3)]
	per := []int{13, 4, 3}[vsym.Choose(3)]
	var from []glyph.ID
	for i := 0; i < num; i++ {
		from = append(from, first+glyph.ID(i))
	}
	other := func(i, j int) glyph.ID { return glyph.ID(1 + (7*i+11*j+30)%59) }
	a := gid()
	switch vsym.Choose(8) {
	case 0:
		to := make([]glyph.ID, num)
		for i := range to {
			to[i] = other(i/4, 0) + glyph.ID(i%4)
			if to[i] > 59 {
				to[i] = 3
			}
		}
		to[1] = a
		checkGsub(f, lookup(1, 0, &gtab.Gsub1_2{Cov: cov(from), SubstituteGlyphIDs: to}))
	case 1:
		repl := make([][]glyph.ID, num)
		for i := range repl {
			for j := 0; j < per; j++ {
				repl[i] = append(repl[i], other(i, j))
			}
		}
		repl[1][0] = a
		checkGsub(f, lookup(2, 0, &gtab.Gsub2_1{Cov: cov(from), Repl: repl}))
	case 2:
		repl := make([][]gtab.Ligature, num)
		for i := range repl {
			for j := 0; j < per; j++ {
				repl[i] = append(repl[i], gtab.Ligature{In: []glyph.ID{other(j, i), 5}[:j%3%2+1], Out: other(i, j)})
			}
		}
		repl[1][1].Out = a
		checkGsub(f, lookup(4, 0, &gtab.Gsub4_1{Cov: cov(from), Repl: repl}))
	case 3:
		rules := make([][]*gtab.SeqRule, num)
		for i := range rules {
			for j := 0; j < per; j++ {
				rules[i] = append(rules[i], &gtab.SeqRule{Input: []glyph.ID{other(j, i)}, Actions: []gtab.SeqLookup{{SequenceIndex: uint16(j), LookupListIndex: gtab.LookupIndex(i)}}})
			}
		}
		rules[1][1].Input[0] = a
		checkGsub(f, lookup(5, 0, &gtab.SeqContext1{Cov: cov(from), Rules: rules}))
	case 4:
		rules := make([][]*gtab.ChainedSeqRule, num)
		for i := range rules {
			for j := 0; j < per; j++ {
				rules[i] = append(rules[i], &gtab.ChainedSeqRule{Backtrack: []glyph.ID{7, other(j, i)}, Lookahead: []glyph.ID{other(i, j)}, Actions: []gtab.SeqLookup{{SequenceIndex: uint16(j), LookupListIndex: gtab.LookupIndex(i)}}})
			}
		}
		rules[1][1].Backtrack[0] = a
		checkGsub(f, lookup(6, 0, &gtab.ChainedSeqContext1{Cov: cov(from), Rules: rules}))
	case 5:
		t := gtab.Gpos2_1{}
		for i := 0; i < num; i++ {
			for j := 0; j < per; j++ {
				t[glyph.Pair{Left: from[i], Right: other(i, j)}] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(20*i - 3*j - 1)}}
			}
		}
		t[glyph.Pair{Left: a, Right: 1}] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: 7}}
		checkGpos(f, lookup(2, 0, t))
	case 6:
		input := classdef.Table{}
		rules := make([][]*gtab.ClassSeqRule, num+1)
		for i := 1; i <= num; i++ {
			input[glyph.ID(3*i)] = uint16(i)
			input[glyph.ID(3*i+1)] = uint16(i)
			for j := 0; j < per; j++ {
				rules[i] = append(rules[i], &gtab.ClassSeqRule{Input: []uint16{uint16((i + 2*j) % (num + 1))}, Actions: []gtab.SeqLookup{{SequenceIndex: uint16(j), LookupListIndex: gtab.LookupIndex(i)}}})
			}
		}
		checkGsub(f, lookup(5, 0, &gtab.SeqContext2{Cov: cov(from), Input: input, Rules: rules}))
	case 7:
		adj := make([]*gtab.GposValueRecord, num)
		for i := range adj {
			adj[i] = &gtab.GposValueRecord{YPlacement: funit.Int16(30 - 7*i)}
		}
		adj[1].XPlacement = 5
		checkGpos(f, lookup(1, 0, &gtab.Gpos1_2{Cov: cov(from), Adjust: adj}))
	}
}
