// Package shape is a reference implementation of OpenType lookup application,
// written from the specification and the decisions documented with the
// library's test cases. Every glyph is an object; contexts remember the objects
// in their input sequence instead of positions.
package shape

import (
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

// Tok is a glyph in the sequence.
type Tok struct {
	GID       glyph.ID
	Text      []rune
	X, Y, Adv int16
}

// level is a matched contextual rule which is being processed.
type level struct {
	in  []*Tok
	end *Tok // first glyph after the region, nil at the end of the text
}

// Ref is the state of the reference shaper.
type Ref struct {
	LL     gtab.LookupList
	Gdef   *gdef.Table
	Seq    []*Tok
	levels []*level
	budget int
}

// New makes a reference shaper for the given input.
func New(ll gtab.LookupList, gd *gdef.Table, seq []glyph.Info) *Ref {
	r := &Ref{LL: ll, Gdef: gd}
	for _, g := range seq {
		r.Seq = append(r.Seq, &Tok{GID: g.GID, Text: g.Text, X: int16(g.XOffset), Y: int16(g.YOffset), Adv: int16(g.Advance)})
	}
	return r
}

func (r *Ref) index(t *Tok) int {
	if t == nil {
		return len(r.Seq)
	}
	for i, x := range r.Seq {
		if x == t {
			return i
		}
	}
	panic("token lost")
}

func class(t classdef.Table, g glyph.ID) uint16 { return t[g] }

// Ignored tells whether a lookup skips the glyph.
func (r *Ref) Ignored(l *gtab.LookupTable, g glyph.ID) bool {
	f := l.Meta.LookupFlags
	if r.Gdef == nil {
		return false
	}
	switch class(r.Gdef.GlyphClass, g) {
	case 1:
		return f&0x0002 != 0
	case 2:
		return f&0x0004 != 0
	case 3:
		switch {
		case f&0x0008 != 0:
			return true
		case f&0x0010 != 0:
			k := int(l.Meta.MarkFilteringSet)
			return k >= len(r.Gdef.MarkGlyphSets) || !r.Gdef.MarkGlyphSets[k][g]
		case f&0xFF00 != 0:
			return class(r.Gdef.MarkAttachClass, g) != uint16(f>>8)
		}
	}
	return false
}

func (r *Ref) isMark(g glyph.ID) bool {
	return r.Gdef != nil && class(r.Gdef.GlyphClass, g) == 3
}

// Apply runs the lookups in the given order.
func (r *Ref) Apply(lookups []gtab.LookupIndex) {
	for _, idx := range lookups {
		if int(idx) >= len(r.LL) {
			continue
		}
		l := r.LL[idx]
		if len(l.Subtables) > 0 {
			if _, rev := l.Subtables[0].(*gtab.Gsub8_1); rev {
				// reverse chaining: from the last glyph to the first
				for i := len(r.Seq) - 1; i >= 0; i-- {
					if !r.Ignored(l, r.Seq[i].GID) {
						r.at(l, r.Seq[i], nil)
					}
				}
				continue
			}
		}
		i := 0
		for i < len(r.Seq) {
			t := r.Seq[i]
			if r.Ignored(l, t.GID) {
				i++
				continue
			}
			r.levels = nil
			r.budget = 63
			next, ok := r.at(l, t, nil)
			if ok {
				i = r.index(next)
			} else {
				i++
			}
		}
	}
}

// nextKept returns the index of the first glyph from i on (before end) which
// is not ignored, or -1.
func (r *Ref) nextKept(l *gtab.LookupTable, i, end int) int {
	for ; i < end; i++ {
		if !r.Ignored(l, r.Seq[i].GID) {
			return i
		}
	}
	return -1
}

func (r *Ref) prevKept(l *gtab.LookupTable, i int) int {
	for ; i >= 0; i-- {
		if !r.Ignored(l, r.Seq[i].GID) {
			return i
		}
	}
	return -1
}

type pred func(glyph.ID) bool

// match checks input (after the first glyph), backtrack and lookahead.
func (r *Ref) match(l *gtab.LookupTable, a, end int, back, input, ahead []pred) []int {
	pos := []int{a}
	p := a
	for _, f := range input {
		p = r.nextKept(l, p+1, end)
		if p < 0 || !f(r.Seq[p].GID) {
			return nil
		}
		pos = append(pos, p)
	}
	last := p
	p = a
	for _, f := range back {
		p = r.prevKept(l, p-1)
		if p < 0 || !f(r.Seq[p].GID) {
			return nil
		}
	}
	p = last
	for _, f := range ahead {
		p = r.nextKept(l, p+1, len(r.Seq))
		if p < 0 || !f(r.Seq[p].GID) {
			return nil
		}
	}
	return pos
}

func isGid(l []glyph.ID) (res []pred) {
	for _, x := range l {
		res = append(res, func(g glyph.ID) bool { return g == x })
	}
	return
}

func isClass(t classdef.Table, l []uint16) (res []pred) {
	for _, x := range l {
		res = append(res, func(g glyph.ID) bool { return class(t, g) == x })
	}
	return
}

func isIn[T ~map[glyph.ID]V, V any](l []T) (res []pred) {
	for _, x := range l {
		res = append(res, func(g glyph.ID) bool { _, ok := x[g]; return ok })
	}
	return
}

// tokAt returns the glyph at index i or nil.
func (r *Ref) tokAt(i int) *Tok {
	if i < len(r.Seq) {
		return r.Seq[i]
	}
	return nil
}

// at tries the subtables of a lookup at one glyph. end limits the glyphs which
// may be matched. It returns the glyph where processing continues.
func (r *Ref) at(l *gtab.LookupTable, t, end *Tok) (*Tok, bool) {
	for _, s := range l.Subtables {
		next, ok := r.sub(l, s, t, end)
		if ok {
			return next, true
		}
	}
	return nil, false
}

func (r *Ref) value(t *Tok, v *gtab.GposValueRecord) {
	if v != nil {
		t.X += int16(v.XPlacement)
		t.Y += int16(v.YPlacement)
		t.Adv += int16(v.XAdvance)
	}
}

func (r *Ref) sub(l *gtab.LookupTable, s gtab.Subtable, t, endTok *Tok) (*Tok, bool) {
	a := r.index(t)
	end := r.index(endTok)
	gid := t.GID
	following := r.tokAt(a + 1)
	switch s := s.(type) {
	case *gtab.Gsub1_1:
		if _, ok := s.Cov[gid]; ok {
			t.GID = gid + s.Delta
			return following, true
		}
	case *gtab.Gsub1_2:
		if i, ok := s.Cov[gid]; ok {
			t.GID = s.SubstituteGlyphIDs[i]
			return following, true
		}
	case *gtab.Gsub2_1:
		i, ok := s.Cov[gid]
		if !ok || len(s.Repl[i]) == 0 {
			return nil, false
		}
		out := s.Repl[i]
		t.GID = out[0]
		added := []*Tok{}
		for _, g := range out[1:] {
			added = append(added, &Tok{GID: g})
		}
		var seq []*Tok
		seq = append(seq, r.Seq[:a+1]...)
		seq = append(seq, added...)
		r.Seq = append(seq, r.Seq[a+1:]...)
		for _, lv := range r.levels {
			var in []*Tok
			for _, x := range lv.in {
				in = append(in, x)
				if x == t {
					in = append(in, added...)
				}
			}
			lv.in = in
		}
		return following, true
	case *gtab.Gsub3_1:
		if i, ok := s.Cov[gid]; ok && len(s.Alternates[i]) > 0 {
			t.GID = s.Alternates[i][0]
			return following, true
		}
	case *gtab.Gsub4_1:
		i, ok := s.Cov[gid]
		if !ok {
			return nil, false
		}
		for _, lig := range s.Repl[i] {
			pos := r.match(l, a, end, nil, isGid(lig.In), nil)
			if pos == nil {
				continue
			}
			return r.ligature(pos, lig.Out), true
		}
	case *gtab.Gsub8_1:
		i, ok := s.Input[gid]
		if ok && r.match(l, a, a+1, isIn(s.Backtrack), nil, isIn(s.Lookahead)) != nil {
			t.GID = s.SubstituteGlyphIDs[i]
			return following, true
		}

	case *gtab.SeqContext1:
		if i, ok := s.Cov[gid]; ok && i < len(s.Rules) {
			for _, rule := range s.Rules[i] {
				if next, ok := r.context(l, a, end, nil, isGid(rule.Input), nil, rule.Actions); ok {
					return next, true
				}
			}
		}
	case *gtab.SeqContext2:
		c := int(class(s.Input, gid))
		if _, ok := s.Cov[gid]; ok && c < len(s.Rules) {
			for _, rule := range s.Rules[c] {
				if next, ok := r.context(l, a, end, nil, isClass(s.Input, rule.Input), nil, rule.Actions); ok {
					return next, true
				}
			}
		}
	case *gtab.SeqContext3:
		if isIn(s.Input)[0](gid) {
			return r.context(l, a, end, nil, isIn(s.Input[1:]), nil, s.Actions)
		}
	case *gtab.ChainedSeqContext1:
		if i, ok := s.Cov[gid]; ok && i < len(s.Rules) {
			for _, rule := range s.Rules[i] {
				if next, ok := r.context(l, a, end, isGid(rule.Backtrack), isGid(rule.Input), isGid(rule.Lookahead), rule.Actions); ok {
					return next, true
				}
			}
		}
	case *gtab.ChainedSeqContext2:
		c := int(class(s.Input, gid))
		if _, ok := s.Cov[gid]; ok && c < len(s.Rules) {
			for _, rule := range s.Rules[c] {
				if next, ok := r.context(l, a, end, isClass(s.Backtrack, rule.Backtrack), isClass(s.Input, rule.Input), isClass(s.Lookahead, rule.Lookahead), rule.Actions); ok {
					return next, true
				}
			}
		}
	case *gtab.ChainedSeqContext3:
		if isIn(s.Input)[0](gid) {
			return r.context(l, a, end, isIn(s.Backtrack), isIn(s.Input[1:]), isIn(s.Lookahead), s.Actions)
		}

	case *gtab.Gpos1_1:
		if _, ok := s.Cov[gid]; ok {
			r.value(t, s.Adjust)
			return following, true
		}
	case *gtab.Gpos1_2:
		if i, ok := s.Cov[gid]; ok {
			r.value(t, s.Adjust[i])
			return following, true
		}
	case gtab.Gpos2_1:
		p := r.nextKept(l, a+1, end)
		if p < 0 {
			return nil, false
		}
		adj, ok := s[glyph.Pair{Left: gid, Right: r.Seq[p].GID}]
		if !ok {
			return nil, false
		}
		return r.pair(t, p, adj), true
	case *gtab.Gpos2_2:
		if _, ok := s.Cov[gid]; !ok {
			return nil, false
		}
		p := r.nextKept(l, a+1, end)
		if p < 0 {
			return nil, false
		}
		c1, c2 := int(class(s.Class1, gid)), int(class(s.Class2, r.Seq[p].GID))
		if c1 >= len(s.Adjust) || c2 >= len(s.Adjust[c1]) {
			return nil, false
		}
		return r.pair(t, p, s.Adjust[c1][c2]), true
	case *gtab.Gpos4_1:
		i, ok := s.MarkCov[gid]
		if !ok {
			return nil, false
		}
		// the preceding glyph which is not a mark
		p := a - 1
		for p >= 0 && (r.Ignored(l, r.Seq[p].GID) || r.isMark(r.Seq[p].GID)) {
			p--
		}
		if p < 0 {
			return nil, false
		}
		j, ok := s.BaseCov[r.Seq[p].GID]
		if !ok || int(s.MarkArray[i].Class) >= len(s.BaseArray[j]) {
			return nil, false
		}
		m, b := s.MarkArray[i], s.BaseArray[j][s.MarkArray[i].Class]
		if b.X == 0 && b.Y == 0 {
			return nil, false
		}
		t.X += r.dist(p, a) + int16(b.X) - int16(m.X)
		t.Y += r.Seq[p].Y + int16(b.Y) - int16(m.Y)
		return following, true
	case *gtab.Gpos6_1:
		i, ok := s.Mark1Cov[gid]
		if !ok {
			return nil, false
		}
		p := r.prevKept(l, a-1)
		if p < 0 {
			return nil, false
		}
		j, ok := s.Mark2Cov[r.Seq[p].GID]
		if !ok || int(s.Mark1Array[i].Class) >= len(s.Mark2Array[j]) {
			return nil, false
		}
		m, b := s.Mark1Array[i], s.Mark2Array[j][s.Mark1Array[i].Class]
		if b.X == 0 && b.Y == 0 {
			return nil, false
		}
		t.X = r.dist(p, a) + int16(b.X) - int16(m.X)
		t.Y = r.Seq[p].Y + int16(b.Y) - int16(m.Y)
		return following, true
	}
	return nil, false
}

// dist is the horizontal offset which moves glyph a to the drawing position
// of glyph p.
func (r *Ref) dist(p, a int) int16 {
	d := r.Seq[p].X
	for i := p; i < a; i++ {
		d -= r.Seq[i].Adv
	}
	return d
}

func (r *Ref) pair(t *Tok, p int, adj *gtab.PairAdjust) *Tok {
	r.value(t, adj.First)
	if adj.Second == nil {
		return r.Seq[p]
	}
	r.value(r.Seq[p], adj.Second)
	return r.tokAt(p + 1)
}

// ligature replaces the glyphs at the given positions.
func (r *Ref) ligature(pos []int, out glyph.ID) *Tok {
	lig := &Tok{GID: out}
	used := map[*Tok]bool{}
	for _, p := range pos {
		lig.Text = append(lig.Text, r.Seq[p].Text...)
		used[r.Seq[p]] = true
	}
	first, last := r.Seq[pos[0]], r.Seq[pos[len(pos)-1]]
	next := r.tokAt(pos[len(pos)-1] + 1)
	// contexts: the ligature is part of the input sequence if the first or
	// the last component was
	for _, lv := range r.levels {
		isIn := false
		for _, x := range lv.in {
			if x == first || x == last {
				isIn = true
			}
		}
		lv.in = r.replace(lv.in, used, lig, isIn, pos[0])
	}
	// skipped glyphs follow the ligature
	var seq []*Tok
	seq = append(seq, r.Seq[:pos[0]]...)
	seq = append(seq, lig)
	for _, x := range r.Seq[pos[0]:] {
		if !used[x] {
			seq = append(seq, x)
		}
	}
	r.Seq = seq
	return next
}

// replace removes the used glyphs from in, and adds the ligature in the right
// place.
func (r *Ref) replace(in []*Tok, used map[*Tok]bool, lig *Tok, add bool, at int) (res []*Tok) {
	for _, x := range in {
		if add && r.index(x) >= at {
			res = append(res, lig)
			add = false
		}
		if !used[x] {
			res = append(res, x)
		}
	}
	if add {
		res = append(res, lig)
	}
	return res
}

// context matches a contextual rule and runs the nested lookups.
func (r *Ref) context(l *gtab.LookupTable, a, end int, back, input, ahead []pred, actions []gtab.SeqLookup) (*Tok, bool) {
	pos := r.match(l, a, end, back, input, ahead)
	if pos == nil {
		return nil, false
	}
	lv := &level{}
	for _, p := range pos {
		lv.in = append(lv.in, r.Seq[p])
	}
	// ignored glyphs after the match belong to the region
	e := pos[len(pos)-1] + 1
	for e < end && r.Ignored(l, r.Seq[e].GID) {
		e++
	}
	lv.end = r.tokAt(e)
	r.levels = append(r.levels, lv)
	for _, act := range actions {
		if r.budget <= 0 {
			break
		}
		r.budget--
		if int(act.SequenceIndex) >= len(lv.in) || int(act.LookupListIndex) >= len(r.LL) {
			continue
		}
		t := lv.in[act.SequenceIndex]
		nl := r.LL[act.LookupListIndex]
		if r.Ignored(nl, t.GID) {
			continue
		}
		r.at(nl, t, lv.end)
	}
	r.levels = r.levels[:len(r.levels)-1]
	return lv.end, true
}
