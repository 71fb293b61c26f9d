package c08

import (
	"bytes"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
)

// runOf has n consecutive glyphs starting at 1.
func runOf(n int) coverage.Table {
	res := coverage.Table{}
	for i := range n {
		res[glyph.ID(i+1)] = i
	}
	return res
}

// scattered has every third glyph.
func scattered(n int) coverage.Table {
	res := coverage.Table{}
	for i := range n {
		res[glyph.ID(3*i)] = i
	}
	return res
}

func ids(n, k int) []glyph.ID {
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = glyph.ID(i*7 + k)
	}
	return res
}

// sized returns a subtable of exactly size bytes.
func sized(kind, size, k int) (gtab.Subtable, uint16) {
	switch kind {
	case 0: // Gsub1_2
		n := (size - 16) / 2
		return &gtab.Gsub1_2{Cov: runOf(n), SubstituteGlyphIDs: ids(n, k)}, 1
	case 1: // Gsub2_1
		n := (size - 16) / 2
		return &gtab.Gsub2_1{Cov: coverage.Table{glyph.ID(k): 0}, Repl: [][]glyph.ID{ids(n, k)}}, 2
	case 2: // SeqContext3, 4 bytes of header
		n := (size - 16) / 2
		return &gtab.SeqContext3{Input: []coverage.Set{scattered(n).ToSet()}, Actions: []gtab.SeqLookup{{SequenceIndex: uint16(k), LookupListIndex: 9}}}, 5
	case 3: // ChainedSeqContext3
		n := (size - 20) / 2
		return &gtab.ChainedSeqContext3{Input: []coverage.Set{scattered(n).ToSet()}, Actions: []gtab.SeqLookup{{SequenceIndex: uint16(k), LookupListIndex: 9}}}, 6
	case 4: // Gpos1_2
		n := (size - 18) / 2
		l := &gtab.Gpos1_2{Cov: runOf(n)}
		for i := range n {
			l.Adjust = append(l.Adjust, &gtab.GposValueRecord{XAdvance: funit.Int16(i + k + 1)})
		}
		return l, 1
	default: // Gpos2_1
		n := (size - 20) / 4
		l := gtab.Gpos2_1{}
		for i := range n {
			l[glyph.Pair{Left: glyph.ID(k), Right: glyph.ID(i)}] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(i + k + 1)}}
		}
		return l, 2
	}
}

func checkBig(ll gtab.LookupList, gpos, must bool) {
	tp := gtab.Type(gtab.TypeGsub)
	if gpos {
		tp = gtab.TypeGpos
	}
	want := flatLookups(ll)
	body := encode(table(ll))
	if body == nil {
		vsym.Assert(!must, "a lookup list which can be represented is refused")
		vsym.Reach("refused")
		return
	}
	r := newRd(body)
	_, _, l := header(r)
	same(r.lookups(l, gpos), want, "encoded lookups differ")
	r.done()
	info, err := gtab.Read(bytes.NewReader(body), tp)
	vsym.Assert(err == nil, "encoded table cannot be read")
	same(flatLookups(info.LookupList), want, "lookups read back differ")
	vsym.Reach("written")
}

// H_Big: lookup lists which need extension subtables, and lists close to the
// limit.
//
//gosym: quick=20 thorough=120 steps=4000000000
func H_Big() {
	type shape struct {
		gpos bool
		sub  [][]int // for each lookup: kind, then the sizes
	}
	d := 2 * vsym.Choose(5)
	sh := []shape{
		{false, [][]int{{0, 20000}, {1, 20000, 6000}, {2, 20000}, {3, 20000}, {0, 200}}},
		{false, [][]int{{2, 30000}, {2, 30000}, {2, 20000}}},
		{false, [][]int{{3, 30000}, {3, 30000}, {3, 20000}}},
		{true, [][]int{{5, 30000}, {5, 30000}, {5, 20000}}},
		{true, [][]int{{2, 30000}, {5, 30000}, {4, 20000}, {3, 9000}}},
		{false, [][]int{{0, 30000, 30000, 30000}}},
		{true, [][]int{{3, 30000, 30000, 30000}}},
		// offset of the second subtable: 10+size
		{false, [][]int{{0, 65520 + d, 100}}},
		// header 6, lookup tables 8 bytes each
		{false, [][]int{{0, 65508 + d}, {2, 100}}},
		{false, [][]int{{1, 32760 + d}, {1, 32760 - 10}, {1, 100}}},
		{true, [][]int{{4, 32750 + d, 100}, {4, 32750}}},
		{true, [][]int{{4, 100}, {5, 400, 20000, 20000}, {2, 500}, {3, 20000, 20000, 100}, {5, 40000}}},
	}[vsym.Choose(12)]
	var ll gtab.LookupList
	for i, l := range sh.sub {
		lookup := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupFlags: gtab.LookupFlags(i)}}
		if i == 0 {
			lookup.Meta.LookupFlags = gtab.LookupFlags(vsym.Uint16())
		}
		if lookup.Meta.LookupFlags&gtab.UseMarkFilteringSet != 0 {
			lookup.Meta.MarkFilteringSet = vsym.Uint16()
		}
		for j, size := range l[1:] {
			st, tp := sized(l[0], size, 10*i+j)
			if sh.gpos && (l[0] == 2 || l[0] == 3) {
				tp += 2
			}
			lookup.Meta.LookupType = tp
			lookup.Subtables = append(lookup.Subtables, st)
		}
		ll = append(ll, lookup)
	}
	checkBig(ll, sh.gpos, true)
}

// H_Many: many small lookups or subtables.
//
//gosym: quick=20 thorough=120 steps=4000000000
func H_Many() {
	n, m := 1, 1
	switch vsym.Choose(4) {
	case 0:
		n = 2990
	case 1:
		m = 5990
	case 2:
		n, m = 100, 50
	case 3:
		n = 2727 + vsym.Choose(3)
	}
	var ll gtab.LookupList
	for i := range n {
		l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1}}
		for j := range m {
			l.Subtables = append(l.Subtables, &gtab.Gsub1_1{Cov: coverage.Set{glyph.ID(i): true}, Delta: glyph.ID(j)})
		}
		ll = append(ll, l)
	}
	checkBig(ll, false, true)
}

type limit struct {
	tp   uint16 // type; GPOS types are 10+the GPOS number
	n    int    // the largest size which fits
	make func(n int) gtab.Subtable
}

func rule(n int) []*gtab.SeqRule { return []*gtab.SeqRule{{Input: ids(n, 0)}} }
func crule(n int) []*gtab.ClassSeqRule {
	return []*gtab.ClassSeqRule{{Input: make([]uint16, n)}}
}

func anchors(n, m int) [][]anchor.Table {
	var res [][]anchor.Table
	for i := range n {
		row := make([]anchor.Table, m)
		for j := range row {
			row[j] = anchor.Table{X: funit.Int16(i + 1), Y: funit.Int16(j)}
		}
		res = append(res, row)
	}
	return res
}

var mark1 = []markarray.Record{{Table: anchor.Table{X: 5, Y: 5}}}

var limits = []limit{
	// the coverage table comes last
	{1, 32764, func(n int) gtab.Subtable { return &gtab.Gsub1_2{Cov: runOf(n), SubstituteGlyphIDs: ids(n, 1)} }},
	{2, 32757, func(n int) gtab.Subtable {
		return &gtab.Gsub2_1{Cov: runOf(2), Repl: [][]glyph.ID{ids(n, 0), ids(1, 0)}}
	}},
	{2, 32750, func(n int) gtab.Subtable {
		return &gtab.Gsub2_1{Cov: runOf(1), Repl: [][]glyph.ID{ids(n, 0)}}
	}},
	{3, 32757, func(n int) gtab.Subtable {
		return &gtab.Gsub3_1{Cov: runOf(2), Alternates: [][]glyph.ID{ids(n, 0), ids(1, 0)}}
	}},
	{4, 32757, func(n int) gtab.Subtable {
		return &gtab.Gsub4_1{Cov: runOf(1), Repl: [][]gtab.Ligature{{{In: ids(n, 0), Out: 3}, {In: ids(1, 0), Out: 4}}}}
	}},
	{4, 32750, func(n int) gtab.Subtable {
		return &gtab.Gsub4_1{Cov: runOf(1), Repl: [][]gtab.Ligature{{{In: ids(n, 0), Out: 3}}}}
	}},
	{8, 32760, func(n int) gtab.Subtable {
		return &gtab.Gsub8_1{Input: runOf(n), SubstituteGlyphIDs: ids(n, 1)}
	}},
	{5, 32756, func(n int) gtab.Subtable {
		return &gtab.SeqContext1{Cov: runOf(2), Rules: [][]*gtab.SeqRule{rule(n), rule(2)}}
	}},
	{5, 32750, func(n int) gtab.Subtable {
		return &gtab.SeqContext1{Cov: runOf(1), Rules: [][]*gtab.SeqRule{rule(n)}}
	}},
	{17, 32750, func(n int) gtab.Subtable {
		return &gtab.SeqContext2{Cov: runOf(2), Input: classdef.Table{3: 1}, Rules: [][]*gtab.ClassSeqRule{crule(n), crule(2)}}
	}},
	{5, 32758, func(n int) gtab.Subtable {
		return &gtab.SeqContext3{Input: []coverage.Set{scattered(10).ToSet()}, Actions: make([]gtab.SeqLookup, n/2)}
	}},
	{6, 32756, func(n int) gtab.Subtable {
		return &gtab.ChainedSeqContext1{Cov: runOf(2), Rules: [][]*gtab.ChainedSeqRule{{{Backtrack: ids(n/2, 0), Lookahead: ids(n/2, 0)}}, {{}}}}
	}},
	{18, 32740, func(n int) gtab.Subtable {
		return &gtab.ChainedSeqContext2{Cov: runOf(2), Input: classdef.Table{3: 1}, Rules: [][]*gtab.ChainedClassSeqRule{{{Backtrack: make([]uint16, n/2), Lookahead: make([]uint16, n/2)}}, {{}}}}
	}},
	{6, 32760, func(n int) gtab.Subtable {
		return &gtab.ChainedSeqContext3{Input: []coverage.Set{scattered(10).ToSet()}, Backtrack: []coverage.Set{scattered(n / 2).ToSet()}, Lookahead: []coverage.Set{scattered(n / 2).ToSet(), scattered(1).ToSet()}}
	}},
	{11, 32764, func(n int) gtab.Subtable {
		l := &gtab.Gpos1_2{Cov: runOf(n)}
		for i := range n {
			l.Adjust = append(l.Adjust, &gtab.GposValueRecord{XAdvance: funit.Int16(i + 1)})
		}
		return l
	}},
	{12, 16376, func(n int) gtab.Subtable {
		l := gtab.Gpos2_1{}
		for i := range n {
			l[glyph.Pair{Left: 1, Right: glyph.ID(i)}] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: 1}}
		}
		l[glyph.Pair{Left: 2, Right: 5}] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: 1}}
		return l
	}},
	{12, 32752, func(n int) gtab.Subtable {
		row := func() []*gtab.PairAdjust {
			res := make([]*gtab.PairAdjust, n/4)
			for i := range res {
				res[i] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(i + 1)}}
			}
			return res
		}
		return &gtab.Gpos2_2{Cov: runOf(2).ToSet(), Class1: classdef.Table{1: 1, 2: 2, 3: 3}, Class2: classdef.Table{1: uint16(n/4 - 1)},
			Adjust: [][]*gtab.PairAdjust{row(), row(), row(), row()}}
	}},
	{13, 4080, func(n int) gtab.Subtable {
		l := &gtab.Gpos3_1{Cov: runOf(n)}
		for i := range n {
			l.Records = append(l.Records, gtab.EntryExitRecord{Entry: anchor.Table{X: funit.Int16(i + 1)}, Exit: anchor.Table{Y: funit.Int16(i + 1)}})
		}
		return l
	}},
	{14, 8190, func(n int) gtab.Subtable {
		return &gtab.Gpos4_1{MarkCov: runOf(1), BaseCov: runOf(n), MarkArray: mark1, BaseArray: anchors(n, 1)}
	}},
	{16, 8190, func(n int) gtab.Subtable {
		return &gtab.Gpos6_1{Mark1Cov: runOf(1), Mark2Cov: runOf(n), Mark1Array: mark1, Mark2Array: anchors(n, 1)}
	}},
	{15, 8190, func(n int) gtab.Subtable {
		return &gtab.Gpos5_1{MarkCov: runOf(1), LigCov: runOf(1), MarkArray: mark1, LigArray: [][][]anchor.Table{anchors(n, 1)}}
	}},
}

// H_Limits: subtables of each type close to the largest size.
//
//gosym: quick=30 thorough=120 steps=4000000000
func H_Limits() {
	l := limits[vsym.Choose(len(limits))]
	n := l.n
	step := 1 + l.n/4000
	must := true
	switch k := vsym.Choose(7); k {
	case 0:
		n -= 100 * step
	case 6:
		n += 400 * step
		must = false
	default:
		n += (k - 3) * step
		must = false
	}
	gpos := l.tp >= 10
	tp := l.tp
	if gpos {
		tp -= 10
	}
	checkBig(gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: tp}, Subtables: []gtab.Subtable{l.make(n)}}}, gpos, must)
}

// H_ClassFull: class definitions for all glyphs.
//
//gosym: quick=20 thorough=60 steps=4000000000
func H_ClassFull() {
	c := classdef.Table{}
	mode := vsym.Choose(6)
	for i := range 0x10000 {
		switch mode {
		case 0:
			c[glyph.ID(i)] = uint16(1 + i&1)
		case 1:
			if i%2 == 0 || i == 0xFFFF {
				c[glyph.ID(i)] = 1
			}
		case 2:
			c[glyph.ID(i)] = 1
		case 3:
			if i > 0 {
				c[glyph.ID(i)] = uint16(1 + i&1)
			}
		case 4:
			if i < 0xFFFF {
				c[glyph.ID(i)] = uint16(i)
			}
		case 5:
			if i > 0 {
				c[glyph.ID(i)] = uint16(1 + i/2)
			} else {
				c[glyph.ID(i)] = 1
			}
		}
	}
	t := &gdef.Table{GlyphClass: c}
	var body []byte
	func() {
		defer func() { recover() }()
		body = t.Encode()
	}()
	if body == nil {
		vsym.Assert(mode == 0, "valid class definition is refused")
		vsym.Reach("refused")
		return
	}
	t2, err := gdef.Read(bytes.NewReader(body))
	vsym.Assert(err == nil, "class definition cannot be read")
	same(fClass(t2.GlyphClass), fClass(c), "class definition read back differs")
	vsym.Reach("written")
}

// readTable makes a table with one lookup.
func readTable(tp int, sub []byte) []byte {
	b := []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 10, 0, 1, 0, 4, 0, byte(tp), 0, 0, 0, 1, 0, 8}
	return append(b, sub...)
}

func fixpoint(body []byte, gpos bool) {
	tp := gtab.Type(gtab.TypeGsub)
	if gpos {
		tp = gtab.TypeGpos
	}
	info, err := gtab.Read(bytes.NewReader(body), tp)
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	b2 := info.Encode()
	info2, err := gtab.Read(bytes.NewReader(b2), tp)
	vsym.Assert(err == nil, "a table which was read cannot be read again after encoding")
	same(flatLookups(info2.LookupList), flatLookups(info.LookupList), "lookups differ after encoding")
	same(flatFeatures(info2.FeatureList), flatFeatures(info.FeatureList), "features differ after encoding")
	vsym.Assert(len(info2.ScriptList) == len(info.ScriptList), "script list differs after encoding")
	for tag, f := range info.ScriptList {
		f2 := info2.ScriptList[tag]
		vsym.Assert(f2 != nil, "language system missing")
		same(flatLang(f2), flatLang(f), "language system differs")
	}
	vsym.Assert(vsym.EqBytes(info2.Encode(), b2), "encoding again gives different bytes")
	vsym.Reach("accepted")
}

// H_Read: arbitrary bytes as a subtable.
//
//gosym: quick=20 thorough=400
func H_Read() {
	gpos := vsym.Choose(2) == 1
	n := 22
	if vsym.Thorough() {
		n = 40
	}
	tp := 1 + vsym.Choose(9)
	b := vsym.Bytes(n)
	vsym.Assume(b[0] == 0)
	vsym.Assume(b[1] <= 3)
	// Glyph ranges of more than 48 glyphs are left to other harnesses.
	for i := 2; i < n; i += 2 {
		vsym.Assume(hx.U16(b, i) < 48)
	}
	fixpoint(readTable(tp, b), gpos)
}

// H_ReadLists: arbitrary bytes as a script list and a feature list.
//
//gosym: quick=15 thorough=120
func H_ReadLists() {
	n := 20
	if vsym.Thorough() {
		n = 32
	}
	which := vsym.Choose(2)
	b := []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0}
	if which == 0 {
		b[5] = 10
		b = append(b, 0, 1, 'l', 'a', 't', 'n')
	} else {
		b[7] = 10
	}
	b = append(b, vsym.Bytes(n)...)
	fixpoint(b, false)
}

// H_ReadGdef: arbitrary bytes as a GDEF table.
//
//gosym: quick=15 thorough=120
func H_ReadGdef() {
	n := 18
	if vsym.Thorough() {
		n = 30
	}
	b := append([]byte{0, 1, 0, 2}, vsym.Bytes(n)...)
	for i := 4; i < 14; i += 2 {
		vsym.Assume(hx.U16(b, i) <= len(b))
	}
	for i := 14; i < len(b); i += 2 {
		vsym.Assume(hx.U16(b, i) < 48)
	}
	t, err := gdef.Read(bytes.NewReader(b))
	if err != nil {
		return
	}
	b2 := t.Encode()
	t2, err := gdef.Read(bytes.NewReader(b2))
	vsym.Assert(err == nil, "GDEF cannot be read again after encoding")
	same(flatGdef(t2), flatGdef(t), "GDEF differs after encoding")
	vsym.Assert(vsym.EqBytes(t2.Encode(), b2), "encoding again gives different bytes")
	vsym.Reach("accepted")
}
