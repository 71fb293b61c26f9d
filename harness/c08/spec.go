// Package c08 checks the binary encoding of GSUB, GPOS and GDEF tables.
package c08

import (
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
)

// rd is an independent reader for OpenType layout tables.  It checks that
// every byte of the table is used exactly once.
type rd struct {
	b      []byte
	used   []bool
	shared bool // allow data to be used more than once
	loose  bool // do not insist on the smaller class definition format
}

func newRd(b []byte) *rd { return &rd{b: b, used: make([]bool, len(b))} }

func (r *rd) raw(pos, n int) []byte {
	vsym.Assert(pos >= 0 && pos+n <= len(r.b), "spec reader: offset points outside the table")
	for i := pos; i < pos+n; i++ {
		vsym.Assert(r.shared || !r.used[i], "spec reader: overlapping data")
		r.used[i] = true
	}
	return r.b[pos : pos+n]
}

func (r *rd) u(pos int) int { return hx.U16(r.raw(pos, 2), 0) }
func (r *rd) c(pos int) int { return vsym.Concrete(r.u(pos)) }
func (r *rd) done() {
	for _, u := range r.used {
		if !u {
			vsym.Fail("spec reader: unused bytes in the table")
		}
	}
}

func (r *rd) cov(pos int) []int {
	var gg []int
	f := r.c(pos)
	n := r.c(pos + 2)
	size := 0
	switch f {
	case 1:
		for i := range n {
			gg = append(gg, r.u(pos+4+2*i))
		}
		size = 4 + 2*n
	case 2:
		for i := range n {
			s, e, k := r.u(pos+4+6*i), r.u(pos+6+6*i), r.u(pos+8+6*i)
			vsym.Assert(k == len(gg), "coverage: wrong startCoverageIndex")
			vsym.Assert(s <= e, "coverage: empty range")
			cnt := vsym.Concrete(e - s + 1)
			for j := range cnt {
				gg = append(gg, s+j)
			}
		}
		size = 4 + 6*n
	default:
		vsym.Fail("coverage: wrong format")
	}
	ranges := 0
	for i, g := range gg {
		if i > 0 {
			vsym.Assert(gg[i-1] < g, "coverage: glyphs not increasing")
		}
		if i == 0 || gg[i-1]+1 != g {
			ranges++
		}
	}
	vsym.Assert(size == min(4+2*len(gg), 4+6*ranges), "coverage: not the smaller format")
	return append([]int{len(gg)}, gg...)
}

func (r *rd) class(pos int) []int {
	var res []int
	f := r.c(pos)
	size := 0
	switch f {
	case 1:
		s, n := r.u(pos+2), r.c(pos+4)
		for i := range n {
			c := r.u(pos + 6 + 2*i)
			if c != 0 {
				res = append(res, s+i, c)
			}
		}
		size = 6 + 2*n
	case 2:
		n := r.c(pos + 2)
		prev := -1
		for i := range n {
			s, e, c := r.u(pos+4+6*i), r.u(pos+6+6*i), r.u(pos+8+6*i)
			vsym.Assert(vsym.And(prev < s, s <= e), "classdef: ranges not sorted")
			prev = e
			cnt := vsym.Concrete(e - s + 1)
			if c != 0 {
				for j := range cnt {
					res = append(res, s+j, c)
				}
			}
		}
		size = 4 + 6*n
	default:
		vsym.Fail("classdef: wrong format")
	}
	if len(res) > 0 && !r.loose {
		ranges := 0
		for i := 0; i < len(res); i += 2 {
			if i == 0 || res[i-2]+1 != res[i] || res[i-1] != res[i+1] {
				ranges++
			}
		}
		span := vsym.Concrete(res[len(res)-2] - res[0] + 1)
		vsym.Assert(size == min(6+2*span, 4+6*ranges), "classdef: not the smaller format")
	}
	return append([]int{len(res) / 2}, res...)
}

func (r *rd) gids(pos int) []int { // count followed by values
	n := r.c(pos)
	res := []int{n}
	for i := range n {
		res = append(res, r.u(pos+2+2*i))
	}
	return res
}

func vrLen(f int) int {
	n := 0
	for i := range 8 {
		n += f >> i & 1
	}
	return 2 * n
}

func (r *rd) val(pos, f int) []int {
	vsym.Assert(f>>8 == 0, "value format: reserved bits")
	res := make([]int, 9)
	if f != 0 {
		res[0] = 1
	}
	for i := range 8 {
		if f>>i&1 == 1 {
			res[1+i] = r.u(pos)
			pos += 2
		}
	}
	return res
}

func (r *rd) anchor(pos int) []int {
	vsym.Assert(r.u(pos) == 1, "anchor: wrong format")
	return []int{r.u(pos + 2), r.u(pos + 4)}
}

func (r *rd) optAnchor(base, off int) []int {
	if off == 0 {
		return []int{0, 0}
	}
	return r.anchor(base + off)
}

func (r *rd) marks(pos int) []int {
	n := r.c(pos)
	res := []int{n}
	for i := range n {
		res = append(res, r.u(pos+2+4*i))
		res = append(res, r.anchor(pos+r.c(pos+4+4*i))...)
	}
	return res
}

// ruleSets reads arrays of rule sets. If chained is set, the rules include
// backtrack and lookahead sequences.
func (r *rd) ruleSets(pos, cntPos int, chained bool) []int {
	n := r.c(cntPos)
	res := []int{n}
	for i := range n {
		o := r.c(cntPos + 2 + 2*i)
		if o == 0 {
			res = append(res, -1)
			continue
		}
		p := pos + o
		m := r.c(p)
		res = append(res, m)
		for j := range m {
			q := p + r.c(p+2+2*j)
			if chained {
				for k := range 3 {
					cnt := r.c(q)
					q += 2
					if k == 1 {
						cnt--
					}
					res = append(res, cnt)
					for range cnt {
						res = append(res, r.u(q))
						q += 2
					}
				}
				cnt := r.c(q)
				q += 2
				res = append(res, r.actions(q, cnt)...)
			} else {
				gc, sc := r.c(q), r.c(q+2)
				q += 4
				res = append(res, gc-1)
				for range gc - 1 {
					res = append(res, r.u(q))
					q += 2
				}
				res = append(res, r.actions(q, sc)...)
			}
		}
	}
	return res
}

func (r *rd) actions(pos, n int) []int {
	res := []int{n}
	for i := range n {
		res = append(res, r.u(pos+4*i), r.u(pos+4*i+2))
	}
	return res
}

func (r *rd) covs(base, pos int) ([]int, int) {
	n := r.c(pos)
	res := []int{n}
	for i := range n {
		res = append(res, r.cov(base+r.c(pos+2+2*i))...)
	}
	return res, pos + 2 + 2*n
}

func cat(xx ...[]int) []int {
	var res []int
	for _, x := range xx {
		res = append(res, x...)
	}
	return res
}

// subtable decodes a subtable. The type uses GSUB numbers, or 10 plus
// the GPOS numbers.
func (r *rd) subtable(pos, tp int) []int {
	f := r.c(pos)
	switch 10*tp + f {
	case 1_1:
		return cat([]int{11}, r.cov(pos+r.c(pos+2)), []int{r.u(pos + 4)})
	case 1_2:
		return cat([]int{12}, r.cov(pos+r.c(pos+2)), r.gids(pos+4))
	case 2_1, 3_1:
		res := cat([]int{10*tp + f}, r.cov(pos+r.c(pos+2)))
		n := r.c(pos + 4)
		res = append(res, n)
		for i := range n {
			res = append(res, r.gids(pos+r.c(pos+6+2*i))...)
		}
		return res
	case 4_1:
		res := cat([]int{41}, r.cov(pos+r.c(pos+2)))
		n := r.c(pos + 4)
		res = append(res, n)
		for i := range n {
			p := pos + r.c(pos+6+2*i)
			m := r.c(p)
			res = append(res, m)
			for j := range m {
				q := p + r.c(p+2+2*j)
				out := r.u(q)
				k := r.c(q + 2)
				res = append(res, out, k-1)
				for l := range k - 1 {
					res = append(res, r.u(q+4+2*l))
				}
			}
		}
		return res
	case 8_1:
		res := cat([]int{81}, r.cov(pos+r.c(pos+2)))
		b, p := r.covs(pos, pos+4)
		l, p := r.covs(pos, p)
		return cat(res, b, l, r.gids(p))
	case 5_1, 17_1:
		return cat([]int{51}, r.cov(pos+r.c(pos+2)), r.ruleSets(pos, pos+4, false))
	case 5_2, 17_2:
		return cat([]int{52}, r.cov(pos+r.c(pos+2)), r.class(pos+r.c(pos+4)), r.ruleSets(pos, pos+6, false))
	case 5_3, 17_3:
		n, k := r.c(pos+2), r.c(pos+4)
		res := []int{53, n}
		for i := range n {
			res = append(res, r.cov(pos+r.c(pos+6+2*i))...)
		}
		return cat(res, r.actions(pos+6+2*n, k))
	case 6_1, 18_1:
		return cat([]int{61}, r.cov(pos+r.c(pos+2)), r.ruleSets(pos, pos+4, true))
	case 6_2, 18_2:
		return cat([]int{62}, r.cov(pos+r.c(pos+2)), r.class(pos+r.c(pos+4)), r.class(pos+r.c(pos+6)), r.class(pos+r.c(pos+8)), r.ruleSets(pos, pos+10, true))
	case 6_3, 18_3:
		b, p := r.covs(pos, pos+2)
		i, p := r.covs(pos, p)
		l, p := r.covs(pos, p)
		return cat([]int{63}, b, i, l, r.actions(p+2, r.c(p)))
	case 11_1:
		vf := r.c(pos + 4)
		return cat([]int{111}, r.cov(pos+r.c(pos+2)), r.val(pos+6, vf))
	case 11_2:
		vf, n := r.c(pos+4), r.c(pos+6)
		res := cat([]int{112}, r.cov(pos+r.c(pos+2)), []int{n})
		for i := range n {
			res = append(res, r.val(pos+8+i*vrLen(vf), vf)...)
		}
		return res
	case 12_1:
		f1, f2, n := r.c(pos+4), r.c(pos+6), r.c(pos+8)
		res := cat([]int{121}, r.cov(pos+r.c(pos+2)), []int{n})
		r.shared = true
		for i := range n {
			p := pos + r.c(pos+10+2*i)
			m := r.c(p)
			p += 2
			res = append(res, m)
			prev := -1
			for range m {
				g := r.u(p)
				vsym.Assert(prev < g, "pair set not sorted")
				prev = g
				res = append(res, g)
				res = append(res, r.val(p+2, f1)...)
				res = append(res, r.val(p+2+vrLen(f1), f2)...)
				p += 2 + vrLen(f1) + vrLen(f2)
			}
		}
		r.shared = false
		return res
	case 12_2:
		f1, f2 := r.c(pos+4), r.c(pos+6)
		n1, n2 := r.c(pos+12), r.c(pos+14)
		res := cat([]int{122}, r.cov(pos+r.c(pos+2)), r.class(pos+r.c(pos+8)), r.class(pos+r.c(pos+10)), []int{n1, n2})
		p := pos + 16
		for range n1 * n2 {
			res = append(res, r.val(p, f1)...)
			res = append(res, r.val(p+vrLen(f1), f2)...)
			p += vrLen(f1) + vrLen(f2)
		}
		return res
	case 13_1:
		n := r.c(pos + 4)
		res := cat([]int{131}, r.cov(pos+r.c(pos+2)), []int{n})
		for i := range n {
			res = append(res, r.optAnchor(pos, r.c(pos+6+4*i))...)
			res = append(res, r.optAnchor(pos, r.c(pos+8+4*i))...)
		}
		return res
	case 14_1, 16_1:
		nc := r.c(pos + 6)
		res := cat([]int{141}, r.cov(pos+r.c(pos+2)), r.cov(pos+r.c(pos+4)), []int{nc}, r.marks(pos+r.c(pos+8)))
		p := pos + r.c(pos+10)
		n := r.c(p)
		res = append(res, n)
		for i := range n * nc {
			res = append(res, r.optAnchor(p, r.c(p+2+2*i))...)
		}
		return res
	case 15_1:
		nc := r.c(pos + 6)
		res := cat([]int{151}, r.cov(pos+r.c(pos+2)), r.cov(pos+r.c(pos+4)), []int{nc}, r.marks(pos+r.c(pos+8)))
		p := pos + r.c(pos+10)
		n := r.c(p)
		res = append(res, n)
		for i := range n {
			q := p + r.c(p+2+2*i)
			m := r.c(q)
			res = append(res, m)
			for j := range m * nc {
				res = append(res, r.optAnchor(q, r.c(q+2+2*j))...)
			}
		}
		return res
	}
	vsym.Fail("spec reader: unknown subtable type")
	return nil
}

// lookups decodes a lookup list, following extension subtables.
func (r *rd) lookups(pos int, gpos bool) []int {
	n := r.c(pos)
	res := []int{n}
	for i := range n {
		p := pos + r.c(pos+2+2*i)
		tp, flags, m := r.c(p), r.u(p+2), r.c(p+4)
		ext := 7
		if gpos {
			ext = 9
		}
		var sub []int
		realType := tp
		for j := range m {
			q := p + r.c(p+6+2*j)
			if tp == ext {
				vsym.Assert(r.c(q) == 1, "extension: wrong format")
				t := r.c(q + 2)
				vsym.Assert(t != ext && (j == 0 || t == realType), "extension: wrong type")
				realType = t
				q += r.c(q+4)<<16 | r.c(q+6)
				vsym.Reach("extension")
			}
			t := realType
			if gpos {
				t += 10
			}
			sub = append(sub, r.subtable(q, t)...)
		}
		mfs := 0
		if flags&0x10 != 0 {
			mfs = r.u(p + 6 + 2*m)
		}
		res = append(res, realType, flags, mfs, m)
		res = append(res, sub...)
	}
	return res
}

// flattening of the in-memory structures

func fGlyphs(gg []glyph.ID) []int {
	res := []int{len(gg)}
	for _, g := range gg {
		res = append(res, int(g))
	}
	return res
}

func fClasses(gg []uint16) []int {
	res := []int{len(gg)}
	for _, g := range gg {
		res = append(res, int(g))
	}
	return res
}

func fCov(t coverage.Table) []int {
	gg := t.Glyphs()
	for i, g := range gg {
		vsym.Assert(t[g] == i, "coverage index does not match the glyph order")
	}
	return fGlyphs(gg)
}

func fSet(t coverage.Set) []int {
	gg := t.Glyphs()
	for _, g := range gg {
		vsym.Assert(t[g], "coverage set contains a false entry")
	}
	return fGlyphs(gg)
}

func fSets(tt []coverage.Set) []int {
	res := []int{len(tt)}
	for _, t := range tt {
		res = append(res, fSet(t)...)
	}
	return res
}

func fCovs(tt []coverage.Table) []int {
	res := []int{len(tt)}
	for _, t := range tt {
		res = append(res, fCov(t)...)
	}
	return res
}

func fClass(t classdef.Table) []int {
	var s = coverage.Set{}
	for g, c := range t {
		if c != 0 {
			s[g] = true
		}
	}
	res := []int{len(s)}
	for _, g := range s.Glyphs() {
		res = append(res, int(g), int(t[g]))
	}
	return res
}

func fVal(v *gtab.GposValueRecord) []int {
	if v == nil {
		return make([]int, 9)
	}
	return []int{1, int(uint16(v.XPlacement)), int(uint16(v.YPlacement)), int(uint16(v.XAdvance)), int(uint16(v.YAdvance)),
		int(v.XPlacementDevOffs), int(v.YPlacementDevOffs), int(v.XAdvanceDevOffs), int(v.YAdvanceDevOffs)}
}

func fAnchor(a anchor.Table) []int { return []int{int(uint16(a.X)), int(uint16(a.Y))} }

func fMarks(mm []markarray.Record) []int {
	res := []int{len(mm)}
	for _, m := range mm {
		res = append(res, int(m.Class))
		res = append(res, fAnchor(m.Table)...)
	}
	return res
}

func fActions(aa []gtab.SeqLookup) []int {
	res := []int{len(aa)}
	for _, a := range aa {
		res = append(res, int(a.SequenceIndex), int(a.LookupListIndex))
	}
	return res
}

func flat(st gtab.Subtable) []int {
	switch l := st.(type) {
	case *gtab.Gsub1_1:
		return cat([]int{11}, fSet(l.Cov), []int{int(l.Delta)})
	case *gtab.Gsub1_2:
		return cat([]int{12}, fCov(l.Cov), fGlyphs(l.SubstituteGlyphIDs))
	case *gtab.Gsub2_1:
		res := cat([]int{21}, fCov(l.Cov), []int{len(l.Repl)})
		for _, x := range l.Repl {
			res = append(res, fGlyphs(x)...)
		}
		return res
	case *gtab.Gsub3_1:
		res := cat([]int{31}, fCov(l.Cov), []int{len(l.Alternates)})
		for _, x := range l.Alternates {
			res = append(res, fGlyphs(x)...)
		}
		return res
	case *gtab.Gsub4_1:
		res := cat([]int{41}, fCov(l.Cov), []int{len(l.Repl)})
		for _, x := range l.Repl {
			res = append(res, len(x))
			for _, y := range x {
				res = append(res, int(y.Out))
				res = append(res, fGlyphs(y.In)...)
			}
		}
		return res
	case *gtab.Gsub8_1:
		return cat([]int{81}, fCov(l.Input), fCovs(l.Backtrack), fCovs(l.Lookahead), fGlyphs(l.SubstituteGlyphIDs))
	case *gtab.SeqContext1:
		res := cat([]int{51}, fCov(l.Cov), []int{len(l.Rules)})
		for _, x := range l.Rules {
			if x == nil {
				res = append(res, -1)
				continue
			}
			res = append(res, len(x))
			for _, y := range x {
				res = append(res, cat(fGlyphs(y.Input), fActions(y.Actions))...)
			}
		}
		return res
	case *gtab.SeqContext2:
		res := cat([]int{52}, fCov(l.Cov), fClass(l.Input), []int{len(l.Rules)})
		for _, x := range l.Rules {
			if x == nil {
				res = append(res, -1)
				continue
			}
			res = append(res, len(x))
			for _, y := range x {
				res = append(res, cat(fClasses(y.Input), fActions(y.Actions))...)
			}
		}
		return res
	case *gtab.SeqContext3:
		return cat([]int{53}, fSets(l.Input), fActions(l.Actions))
	case *gtab.ChainedSeqContext1:
		res := cat([]int{61}, fCov(l.Cov), []int{len(l.Rules)})
		for _, x := range l.Rules {
			if x == nil {
				res = append(res, -1)
				continue
			}
			res = append(res, len(x))
			for _, y := range x {
				res = append(res, cat(fGlyphs(y.Backtrack), fGlyphs(y.Input), fGlyphs(y.Lookahead), fActions(y.Actions))...)
			}
		}
		return res
	case *gtab.ChainedSeqContext2:
		res := cat([]int{62}, fCov(l.Cov), fClass(l.Backtrack), fClass(l.Input), fClass(l.Lookahead), []int{len(l.Rules)})
		for _, x := range l.Rules {
			if x == nil {
				res = append(res, -1)
				continue
			}
			res = append(res, len(x))
			for _, y := range x {
				res = append(res, cat(fClasses(y.Backtrack), fClasses(y.Input), fClasses(y.Lookahead), fActions(y.Actions))...)
			}
		}
		return res
	case *gtab.ChainedSeqContext3:
		return cat([]int{63}, fSets(l.Backtrack), fSets(l.Input), fSets(l.Lookahead), fActions(l.Actions))
	case *gtab.Gpos1_1:
		return cat([]int{111}, fCov(l.Cov), fVal(l.Adjust))
	case *gtab.Gpos1_2:
		res := cat([]int{112}, fCov(l.Cov), []int{len(l.Adjust)})
		for _, x := range l.Adjust {
			res = append(res, fVal(x)...)
		}
		return res
	case gtab.Gpos2_1:
		left := coverage.Set{}
		for p := range l {
			left[p.Left] = true
		}
		res := cat([]int{121}, fSet(left), []int{len(left)})
		for _, g := range left.Glyphs() {
			right := coverage.Set{}
			for p := range l {
				if p.Left == g {
					right[p.Right] = true
				}
			}
			res = append(res, len(right))
			for _, h := range right.Glyphs() {
				adj := l[glyph.Pair{Left: g, Right: h}]
				res = append(res, int(h))
				res = append(res, fVal(adj.First)...)
				res = append(res, fVal(adj.Second)...)
			}
		}
		return res
	case *gtab.Gpos2_2:
		n2 := 0
		if len(l.Adjust) > 0 {
			n2 = len(l.Adjust[0])
		}
		res := cat([]int{122}, fSet(l.Cov), fClass(l.Class1), fClass(l.Class2), []int{len(l.Adjust), n2})
		for _, row := range l.Adjust {
			for _, adj := range row {
				res = append(res, fVal(adj.First)...)
				res = append(res, fVal(adj.Second)...)
			}
		}
		return res
	case *gtab.Gpos3_1:
		res := cat([]int{131}, fCov(l.Cov), []int{len(l.Records)})
		for _, x := range l.Records {
			res = append(res, cat(fAnchor(x.Entry), fAnchor(x.Exit))...)
		}
		return res
	case *gtab.Gpos4_1:
		return fBase(l.MarkCov, l.BaseCov, l.MarkArray, l.BaseArray)
	case *gtab.Gpos6_1:
		return fBase(l.Mark1Cov, l.Mark2Cov, l.Mark1Array, l.Mark2Array)
	case *gtab.Gpos5_1:
		nc := 0
		if len(l.LigArray) > 0 && len(l.LigArray[0]) > 0 {
			nc = len(l.LigArray[0][0])
		}
		res := cat([]int{151}, fCov(l.MarkCov), fCov(l.LigCov), []int{nc}, fMarks(l.MarkArray), []int{len(l.LigArray)})
		for _, x := range l.LigArray {
			res = append(res, len(x))
			for _, row := range x {
				for _, a := range row {
					res = append(res, fAnchor(a)...)
				}
			}
		}
		return res
	}
	vsym.Fail("unexpected subtable type")
	return nil
}

func fBase(c1, c2 coverage.Table, mm []markarray.Record, aa [][]anchor.Table) []int {
	nc := 0
	if len(aa) > 0 {
		nc = len(aa[0])
	}
	res := cat([]int{141}, fCov(c1), fCov(c2), []int{nc}, fMarks(mm), []int{len(aa)})
	for _, row := range aa {
		for _, a := range row {
			res = append(res, fAnchor(a)...)
		}
	}
	return res
}

func flatLookups(ll gtab.LookupList) []int {
	res := []int{len(ll)}
	for _, l := range ll {
		res = append(res, int(l.Meta.LookupType), int(l.Meta.LookupFlags), int(l.Meta.MarkFilteringSet), len(l.Subtables))
		for _, s := range l.Subtables {
			res = append(res, flat(s)...)
		}
	}
	return res
}

func same(a, b []int, msg string) {
	vsym.Assert(len(a) == len(b), msg+": different shape")
	ok := true
	for i := range a {
		ok = vsym.And(ok, a[i] == b[i])
	}
	vsym.Assert(ok, msg)
}
