// Package c13 checks that CFF structures and numbers survive writing and
// reading.
package c13

import (
	"bytes"
	"math"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/verifh/t2"
	"seehuhn.de/go/sfnt/internal/vsym"
)

func private() *type1.PrivateDict {
	return &type1.PrivateDict{BlueShift: 7, BlueFuzz: 1, BlueScale: 0.039625}
}

func simple(names ...string) *cff.Font {
	var glyphs []*cff.Glyph
	for i, n := range names {
		glyphs = append(glyphs, box(n, float64(100*i+1)))
	}
	return &cff.Font{
		FontInfo: &type1.FontInfo{FontName: "Test", FontMatrix: matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}},
		Outlines: &cff.Outlines{
			Glyphs:   glyphs,
			Private:  []*type1.PrivateDict{private()},
			FDSelect: func(glyph.ID) int { return 0 },
		},
	}
}

func box(name string, w float64) *cff.Glyph {
	g := cff.NewGlyph(name, w)
	g.MoveTo(w, 7)
	return g
}

func cidKeyed(n, nFD int) *cff.Font {
	f := simple(make([]string, n)...)
	f.FontInfo.FontMatrix = matrix.Identity
	f.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}
	f.GIDToCID = make([]cid.CID, n)
	for i := range f.GIDToCID {
		f.GIDToCID[i] = cid.CID(i)
	}
	f.Private = nil
	for i := 0; i < nFD; i++ {
		p := private()
		p.BlueShift = int32(10 + i)
		f.Private = append(f.Private, p)
		f.FontMatrices = append(f.FontMatrices, matrix.Matrix{0.001, 0, 0, 0.001, 0, 0})
	}
	return f
}

// digits9 allows for rounding to nine significant digits.
func digits9(got, want float64) bool {
	return math.Abs(got-want) <= 0.51e-8*math.Abs(want)
}

func eqMatrix(got, want matrix.Matrix) bool {
	for i := range want {
		if !digits9(got[i], want[i]) {
			return false
		}
	}
	return true
}

func deltas(got []float64, want []funit.Int16) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	prev := 0.0
	for i, v := range want {
		prev += got[i]
		ok = vsym.And(ok, prev == float64(v))
	}
	return ok
}

func eqInts(got, want []funit.Int16) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	for i, v := range want {
		ok = vsym.And(ok, got[i] == v)
	}
	return ok
}

// check writes the font and compares it with what cff.Read and the
// independent reader find.
func check(f *cff.Font, label string) *t2.Parsed {
	buf := &hx.Buf{}
	err := f.Write(buf)
	if err != nil {
		vsym.Fail(label + ": refused: " + err.Error())
	}
	p, msg := t2.Parse(buf.B)
	vsym.Assert(msg == "", label+": "+msg)
	b, err := cff.Read(bytes.NewReader(buf.B))
	if err != nil {
		vsym.Fail(label + ": not readable: " + err.Error())
	}
	compare(f, b, p, label)
	vsym.Assert(p.OffSize >= 1 && p.OffSize <= 4 && (p.OffSize == 4 || len(buf.B) < 1<<(8*p.OffSize)), label+": offSize in the header")

	buf2 := &hx.Buf{}
	err = b.Write(buf2)
	vsym.Assert(err == nil, label+": cannot write again")
	vsym.Assert(vsym.EqBytes(buf.B, buf2.B), label+": bytes after read and write")
	return p
}

func (c *cmpr) str(op int, got, want, what string) {
	vsym.Assert(got == want, c.label+": "+what+" read back")
	a := c.p.Top[op]
	if want == "" {
		vsym.Assert(len(a) == 0, c.label+": unexpected "+what)
		return
	}
	vsym.Assert(len(a) == 1, c.label+": missing "+what)
	s, ok := c.p.Name(int(a[0]))
	vsym.Assert(ok && s == want, c.label+": "+what)
}

func (c *cmpr) num(d t2.Dict, op int, def, got, want float64, what string) {
	vsym.Assert(digits9(got, want), c.label+": "+what+" read back")
	v := def
	if a := d[op]; a != nil {
		vsym.Assert(len(a) == 1, c.label+": operands of "+what)
		v = a[0]
	}
	vsym.Assert(digits9(v, want), c.label+": "+what)
}

// whole is for numbers which must come back exactly.
func (c *cmpr) whole(d t2.Dict, op int, def, got, want float64, what string) {
	vsym.Assert(got == want, c.label+": "+what+" read back")
	v := def
	if a := d[op]; a != nil {
		vsym.Assert(len(a) == 1, c.label+": operands of "+what)
		v = a[0]
	}
	vsym.Assert(v == want, c.label+": "+what)
}

func (c *cmpr) matrix(d t2.Dict, def, got, want matrix.Matrix, what string) {
	vsym.Assert(eqMatrix(got, want), c.label+": "+what+" read back")
	m := def
	if a := d[256+7]; a != nil {
		vsym.Assert(len(a) == 6, c.label+": operands of "+what)
		copy(m[:], a)
	}
	vsym.Assert(eqMatrix(m, want), c.label+": "+what)
}

type cmpr struct {
	label string
	p     *t2.Parsed
}

func bit(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func compare(f, b *cff.Font, p *t2.Parsed, label string) {
	c := &cmpr{label, p}
	std := matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}

	fi, bi := f.FontInfo, b.FontInfo
	vsym.Assert(string(p.Names[0]) == fi.FontName && bi.FontName == fi.FontName, label+": font name")
	c.str(0, bi.Version, fi.Version, "version")
	c.str(1, bi.Notice, fi.Notice, "notice")
	c.str(256+0, bi.Copyright, fi.Copyright, "copyright")
	c.str(2, bi.FullName, fi.FullName, "full name")
	c.str(3, bi.FamilyName, fi.FamilyName, "family name")
	c.str(4, bi.Weight, fi.Weight, "weight")
	vsym.Assert(bi.IsFixedPitch == fi.IsFixedPitch, label+": fixed pitch read back")
	fp := 0.0
	if a := p.Top[256+1]; len(a) == 1 {
		fp = a[0]
	}
	vsym.Assert((fp != 0) == fi.IsFixedPitch, label+": fixed pitch")
	c.num(p.Top, 256+2, 0, bi.ItalicAngle, fi.ItalicAngle, "italic angle")
	c.num(p.Top, 256+3, -100, float64(bi.UnderlinePosition), float64(fi.UnderlinePosition), "underline position")
	c.num(p.Top, 256+4, 50, float64(bi.UnderlineThickness), float64(fi.UnderlineThickness), "underline thickness")
	if f.ROS == nil {
		c.matrix(p.Top, std, bi.FontMatrix, fi.FontMatrix, "font matrix")
	} else {
		c.matrix(p.Top, matrix.Identity, bi.FontMatrix, fi.FontMatrix, "font matrix")
	}

	n := len(f.Glyphs)
	vsym.Assert(len(b.Glyphs) == n && len(p.Glyphs) == n, label+": number of glyphs")
	vsym.Assert(len(b.Private) == len(f.Private) && len(p.FD) == len(f.Private), label+": number of private dictionaries")
	for i, g := range f.Glyphs {
		fd := f.FDSelect(glyph.ID(i))
		vsym.Assert(b.FDSelect(glyph.ID(i)) == fd && p.Select[i] == fd, label+": font dictionary of a glyph")
		pf := p.FD[p.Select[i]]
		res, status := t2.Run(p.Glyphs[i], pf.Subrs, p.Global, pf.Default, pf.Nominal)
		vsym.Assert(status == t2.OK, label+": charstring not valid")
		vsym.Assert(len(res.Ops) == len(g.Cmds) && len(b.Glyphs[i].Cmds) == len(g.Cmds), label+": path")
		for j, cmd := range g.Cmds {
			for k, a := range cmd.Args {
				vsym.Assert(vsym.And(res.Ops[j].Args[k] == a, b.Glyphs[i].Cmds[j].Args[k] == a), label+": path coordinate")
			}
		}
		vsym.Assert(math.Abs(res.Width-g.Width) <= 1.0/65536, label+": width")
		vsym.Assert(math.Abs(b.Glyphs[i].Width-g.Width) <= 1.0/65536, label+": width read back")
	}
	for i, pd := range f.Private {
		bd, d := b.Private[i], p.FD[i].Private
		vsym.Assert(eqInts(bd.BlueValues, pd.BlueValues), label+": BlueValues read back")
		vsym.Assert(deltas(d[6], pd.BlueValues), label+": BlueValues")
		vsym.Assert(eqInts(bd.OtherBlues, pd.OtherBlues), label+": OtherBlues read back")
		vsym.Assert(deltas(d[7], pd.OtherBlues), label+": OtherBlues")
		c.num(d, 256+9, 0.039625, bd.BlueScale, pd.BlueScale, "BlueScale")
		c.whole(d, 256+10, 7, float64(bd.BlueShift), float64(pd.BlueShift), "BlueShift")
		c.whole(d, 256+11, 1, float64(bd.BlueFuzz), float64(pd.BlueFuzz), "BlueFuzz")
		c.num(d, 10, 0, bd.StdHW, pd.StdHW, "StdHW")
		c.num(d, 11, 0, bd.StdVW, pd.StdVW, "StdVW")
		c.whole(d, 256+14, 0, bit(bd.ForceBold), bit(pd.ForceBold), "ForceBold")
	}

	if f.ROS != nil {
		vsym.Assert(b.ROS != nil && b.Encoding == nil, label+": not CID-keyed")
		vsym.Assert(b.ROS.Registry == f.ROS.Registry && b.ROS.Ordering == f.ROS.Ordering && b.ROS.Supplement == f.ROS.Supplement, label+": ROS read back")
		a := p.Top[256+30]
		vsym.Assert(len(a) == 3, label+": ROS operands")
		reg, _ := p.Name(int(a[0]))
		ord, _ := p.Name(int(a[1]))
		vsym.Assert(reg == f.ROS.Registry && ord == f.ROS.Ordering && a[2] == float64(f.ROS.Supplement), label+": ROS")
		vsym.Assert(len(b.GIDToCID) == n && len(b.FontMatrices) == len(f.FontMatrices), label+": CID data")
		for i, x := range f.GIDToCID {
			vsym.Assert(b.GIDToCID[i] == x, label+": CID read back")
			vsym.Assert(p.Charset[i] == int(x), label+": CID")
		}
		for i, m := range f.FontMatrices {
			c.matrix(p.FD[i].Font, std, b.FontMatrices[i], m, "font matrix of a font DICT")
		}
		return
	}

	vsym.Assert(b.ROS == nil && b.GIDToCID == nil && len(b.FontMatrices) == 0, label+": not a simple font")
	charset := p.Charset
	if p.CharsetFormat < 0 {
		charset = t2.PredefinedCharset(-1 - p.CharsetFormat)[:n]
	}
	for i, g := range f.Glyphs {
		vsym.Assert(b.Glyphs[i].Name == g.Name, label+": glyph name read back")
		s, ok := p.Name(charset[i])
		vsym.Assert(ok && s == g.Name, label+": glyph name")
	}
	want := f.Encoding
	if len(want) == 0 {
		want = predefined(t2.StandardEncoding(), charset)
	}
	var enc []glyph.ID
	switch p.EncodingOffset {
	case 0:
		enc = predefined(t2.StandardEncoding(), charset)
	case 1:
		enc = predefined(t2.ExpertEncoding(), charset)
	default:
		enc = make([]glyph.ID, 256)
		for i, g := range p.Encoding {
			enc[i] = glyph.ID(g)
		}
	}
	vsym.Assert(len(b.Encoding) == 256, label+": encoding length")
	ok1, ok2 := true, true
	for i, g := range want {
		ok1 = vsym.And(ok1, b.Encoding[i] == g)
		ok2 = vsym.And(ok2, enc[i] == g)
	}
	vsym.Assert(ok1, label+": encoding read back")
	vsym.Assert(ok2, label+": encoding")
}

func predefined(sids [256]int, charset []int) []glyph.ID {
	res := make([]glyph.ID, 256)
	for code, sid := range sids {
		if sid == 0 {
			continue
		}
		for g, s := range charset {
			if s == sid {
				res[code] = glyph.ID(g)
			}
		}
	}
	return res
}

func str(n int) string {
	b := vsym.Bytes(n)
	for _, c := range b {
		vsym.Assume(vsym.And(c >= 32, c < 127))
	}
	return string(b)
}

// H_Names: glyph names, standard and not, and strings shared with the top
// DICT.
//
//gosym: quick=8 thorough=120
func H_Names() {
	names := []string{".notdef"}
	n := int(vsym.Choose(4))
	for i := 0; i < n; i++ {
		switch vsym.Choose(5) {
		case 0:
			names = append(names, str(1))
		case 1:
			names = append(names, str(2)+".alt")
		case 2:
			names = append(names, t2.StdName(1+int(vsym.Choose(5))*94))
		case 3:
			names = append(names, "a_long_glyph_name_which_is_not_standard"+str(1))
		case 4:
			names = append(names, "g"+str(1))
		}
	}
	for i, a := range names {
		for _, b := range names[:i] {
			vsym.Assume(a != b)
		}
	}
	f := simple(names...)
	if vsym.Choose(2) == 1 {
		f.FullName = names[n]
		f.Weight = "Bold"
	}
	check(f, "names")
}

// H_Standard: every standard string as a glyph name, in order and reversed.
//
//gosym: quick=4 thorough=20 conc=3000000
func H_Standard() {
	names := []string{".notdef"}
	k := 1 + 13*int(vsym.Choose(30))
	step := 1 - 2*int(vsym.Choose(2))
	for i := 0; i < 13; i++ {
		s := k + i
		if step < 0 {
			s = k + 12 - i
		}
		names = append(names, t2.StdName(s))
	}
	f := simple(names...)
	if vsym.Choose(2) == 1 {
		// some of the codes of the standard encoding
		f.Encoding = make([]glyph.ID, 256)
		sids := t2.StandardEncoding()
		if vsym.Choose(2) == 1 {
			sids = t2.ExpertEncoding()
		}
		charset := make([]int, 14)
		for i := 0; i < 13; i++ {
			charset[i+1] = k + i
			if step < 0 {
				charset[i+1] = k + 12 - i
			}
		}
		f.Encoding = predefined(sids, charset)
		seen := true
		for g := 13; g >= 1; g-- {
			used := false
			for _, x := range f.Encoding {
				used = used || int(x) == g
			}
			if used {
				seen = false
			} else if !seen {
				vsym.Assume(vsym.Choose(1) == 1) // encoded glyphs not contiguous
			}
		}
	}
	check(f, "standard")
}

// H_Encoding: arbitrary codes for the glyphs, also several codes for one.
//
//gosym: quick=12 thorough=180
func H_Encoding() {
	f := simple(".notdef", "A", "x", "B", "y")
	f.Encoding = make([]glyph.ID, 256)
	window := []int{0, 60, 250}[vsym.Choose(3)]
	k := 0
	for i := 0; i < 5; i++ {
		code := window + i
		if window == 60 && i > 2 {
			code += 100
		}
		// glyphs are introduced in order, so that there are no gaps, and
		// then the order is changed
		g := int(vsym.Choose(min(k+2, 5)))
		k = max(k, g)
		f.Encoding[code] = glyph.ID(g)
	}
	if k > 1 {
		a, b := glyph.ID(1+vsym.Choose(k)), glyph.ID(1+vsym.Choose(k))
		for c, g := range f.Encoding {
			switch g {
			case a:
				f.Encoding[c] = b
			case b:
				f.Encoding[c] = a
			}
		}
	}
	check(f, "encoding")
}

// H_EncodingRuns: runs of codes, more than fit with one byte per code, and
// encodings near the predefined ones.
//
//gosym: quick=6 thorough=60 conc=3000000
func H_EncodingRuns() {
	n := []int{1, 2, 130, 254, 255, 256}[vsym.Choose(6)]
	names := []string{".notdef"}
	for i := 0; i < n; i++ {
		names = append(names, "g"+string(rune('a'+i/16))+string(rune('a'+i%16)))
	}
	f := simple(names...)
	f.Encoding = make([]glyph.ID, 256)
	cut := int(vsym.Choose(3))
	for i := 0; i < n; i++ {
		code := i
		switch cut {
		case 1: // rotated
			code = (i + 100) % 256
		case 2: // two runs of codes in the wrong order
			code = (i + 256 - n/2) % 256
		}
		f.Encoding[code] = glyph.ID(i + 1)
	}
	if n < 200 {
		for i, g := range f.Encoding {
			if g == 0 && vsym.Choose(2) == 1 {
				f.Encoding[i] = 1
				if vsym.Choose(2) == 1 {
					break
				}
			}
			if i > 200 {
				break
			}
		}
	}
	check(f, "encoding runs")
}

// H_NearStandard: the predefined encodings with one code changed.
//
//gosym: quick=6 thorough=60 conc=3000000
func H_NearStandard() {
	var sids [256]int
	kind := vsym.Choose(2)
	if kind == 0 {
		sids = t2.StandardEncoding()
	} else {
		sids = t2.ExpertEncoding()
	}
	names := []string{".notdef"}
	enc := make([]glyph.ID, 256)
	for code, s := range sids {
		if s > 0 {
			enc[code] = glyph.ID(len(names))
			names = append(names, t2.StdName(s))
		}
	}
	f := simple(names...)
	f.Encoding = enc
	switch vsym.Choose(3) {
	case 1: // additional code
		code := vsym.Choose(256)
		vsym.Assume(enc[code] == 0)
		enc[code] = glyph.ID(1 + 40*int(vsym.Choose(3)))
	case 2: // last glyph not encoded
		for i, g := range enc {
			if int(g) == len(names)-1 {
				enc[i] = 0
			}
		}
	}
	check(f, "near standard")
}

// H_NotContiguous: an encoding which skips a glyph cannot be stored, it must
// be refused or come back unchanged.
//
//gosym: quick=4 thorough=30
func H_NotContiguous() {
	f := simple(".notdef", "A", "x", "B", "y")
	f.Encoding = make([]glyph.ID, 256)
	for g := 1; g < 5; g++ {
		if vsym.Choose(2) == 1 {
			code := []int{0, 1, 2, 66, 255}[vsym.Choose(5)]
			vsym.Assume(f.Encoding[code] == 0)
			f.Encoding[code] = glyph.ID(g)
		}
	}
	buf := &hx.Buf{}
	if f.Write(buf) != nil {
		vsym.Reach("refused")
		return
	}
	check(f, "not contiguous")
}

// H_CIDs: arbitrary CIDs.
//
//gosym: quick=10 thorough=120
func H_CIDs() {
	n := 1 + int(vsym.Choose(6))
	f := cidKeyed(n, 1)
	for i := 1; i < n; i++ {
		c := vsym.Uint16D(uint16(10 + i))
		vsym.Assume(c != 0)
		for _, d := range f.GIDToCID[1:i] {
			vsym.Assume(cid.CID(c) != d)
		}
		f.GIDToCID[i] = cid.CID(c)
	}
	check(f, "cids")
}

// H_CIDRuns: runs of consecutive CIDs of every relevant length.
//
//gosym: quick=8 thorough=90 conc=5000000
func H_CIDRuns() {
	var cids []cid.CID
	base := vsym.Uint16D(1000)
	vsym.Assume(vsym.And(base >= 1, base <= 60000))
	next := int(base)
	cids = append(cids, 0)
	runs := 1 + int(vsym.Choose(2))
	for i := 0; i < runs; i++ {
		k := []int{1, 2, 3, 4, 255, 256, 257, 512, 513, 514, 770, 1025}[vsym.Choose(12)]
		for j := 0; j < k; j++ {
			cids = append(cids, cid.CID(next))
			next++
		}
		next++
	}
	// short runs, to make format 1 more compact than format 2
	for range []int{0, 3, 8}[vsym.Choose(3)] {
		cids = append(cids, cid.CID(next), cid.CID(next+1), cid.CID(next+2))
		next += 4
	}
	f := cidKeyed(len(cids), 1)
	f.GIDToCID = cids
	for _, g := range f.Glyphs {
		*g = *cff.NewGlyph("", 500)
	}
	check(f, "cid runs")
}

// H_FDSelect: font dictionaries of the glyphs.
//
//gosym: quick=10 thorough=120
func H_FDSelect() {
	nFD := 1 + int(vsym.Choose(3))
	n := 1 + int(vsym.Choose(8))
	f := cidKeyed(n, nFD)
	sel := make([]int, n)
	for i := range sel {
		if i > 0 && vsym.Choose(2) == 0 {
			sel[i] = sel[i-1]
		} else {
			sel[i] = int(vsym.Choose(nFD))
		}
	}
	f.FDSelect = func(gid glyph.ID) int { return sel[gid] }
	for i := range f.FontMatrices {
		f.FontMatrices[i] = someMatrix()
		f.Private[i].ForceBold = vsym.Choose(2) == 1
	}
	check(f, "fdselect")
}

// H_FDRuns: many glyphs with few changes of the font dictionary.
//
//gosym: quick=8 thorough=60 conc=3000000
func H_FDRuns() {
	n := []int{8, 9, 12, 13, 255, 256, 257, 300, 1100}[vsym.Choose(9)]
	nFD := []int{1, 2, 5, 255, 256}[vsym.Choose(5)]
	f := cidKeyed(n, nFD)
	step := []int{1, 2, 3, 4, 5, 100}[vsym.Choose(6)]
	f.FDSelect = func(gid glyph.ID) int { return (int(gid) / step * 3) % nFD }
	if n > 1000 {
		for _, g := range f.Glyphs {
			*g = *cff.NewGlyph("", 500)
		}
	}
	check(f, "fd runs")
}

func someMatrix() matrix.Matrix {
	switch vsym.Choose(7) {
	case 0:
		return matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}
	case 1:
		return matrix.Identity
	case 2:
		return matrix.Matrix{1.0 / 2048, 0, 0, 1.0 / 2048, 0, 0}
	case 3:
		return matrix.Matrix{0.001, 0, 0.00021, 0.001, 10, -20.5}
	case 4:
		return matrix.Matrix{0.001, 0, 0, 0.000995, 0, 0}
	case 5:
		return matrix.Matrix{0.0010000012, 0, 0, 0.001, 0, 0}
	}
	return matrix.Matrix{2, 0, 0, 3, 1, 0}
}

// H_Matrix: font matrices of simple and CID-keyed fonts.
//
//gosym: quick=4 thorough=20
func H_Matrix() {
	var f *cff.Font
	if vsym.Choose(2) == 0 {
		f = simple(".notdef", "A")
	} else {
		f = cidKeyed(2, 2)
		f.FontMatrices[0] = someMatrix()
		f.FontMatrices[1] = someMatrix()
		f.ROS.Supplement = vsym.Int32D(3)
	}
	f.FontMatrix = someMatrix()
	check(f, "matrix")
}

// H_Private: every field of a private DICT.
//
//gosym: quick=10 thorough=120
func H_Private() {
	f := simple(".notdef", "A")
	p := f.Private[0]
	for i := int(vsym.Choose(4)); i > 0; i-- {
		p.BlueValues = append(p.BlueValues, funit.Int16(vsym.Int16D(int16(20-5*i))))
	}
	for i := int(vsym.Choose(3)); i > 0; i-- {
		p.OtherBlues = append(p.OtherBlues, funit.Int16(vsym.Int16D(int16(-200-10*i))))
	}
	switch vsym.Choose(3) {
	case 0:
		p.BlueShift = vsym.Int32D(9)
	case 1:
		p.BlueFuzz = vsym.Int32D(2)
	}
	p.ForceBold = vsym.Bool()
	check(f, "private")
}

var reals = []float64{0, 1, 0.1, 0.5, 0.039625, 0.0396251, 0.03962500001, 0.037, 0.06, 1e-3, 1e-4, 0.00999, 0.001234567891, 1.0 / 3, 2.0 / 3,
	1.0 / 2048, 1.0 / 4096, 1.0 / 995, 0.999999999, 0.9999999999, 0.99999999949, 9.999999999e-7, 1e-9, 1.5e-12, 3e-20, 7e-200}

var bigReals = []float64{1.5, 2, 9, 10, 11.25, 99.5, 99.999999999, 100, 101, 107, 108, 109.5, 500.125, 999.9999999, 1000, 1131, 1132, 1234.56789, 4096, 8191.75, 9999,
	9999.99999, 10000}

// H_Reals: real numbers.
//
//gosym: quick=5 thorough=30
func H_Reals() {
	f := simple(".notdef", "A")
	p := f.Private[0]
	i := int(vsym.Choose(len(reals)))
	x := reals[i]
	switch vsym.Choose(4) {
	case 0:
		p.BlueScale = x
	case 1:
		p.StdHW = x
		p.StdVW = bigReals[i%len(bigReals)]
	case 2:
		p.StdVW = x
		p.StdHW = bigReals[(i+3)%len(bigReals)]
	case 3:
		f.FontMatrix = matrix.Matrix{x, -x, bigReals[i%len(bigReals)], -bigReals[(i+7)%len(bigReals)], x * 1e12, x * 12345}
	}
	check(f, "reals")
}

// H_Tiny: very small and very large numbers.
//
//gosym: quick=4 thorough=10 steps=3000000
func H_Tiny() {
	f := simple(".notdef", "A")
	vsym.StepLimit(2000000)
	f.FontMatrix[0] = []float64{1e-299, 1e299, -1e250, 3e-310, 5e-324, 1e-320}[vsym.Choose(6)]
	buf := &hx.Buf{}
	err := f.Write(buf)
	vsym.StepCheck()
	vsym.Assert(err == nil, "tiny: cannot write")
	_, msg := t2.Parse(buf.B)
	vsym.Assert(msg == "", "tiny: "+msg)
	b, err := cff.Read(bytes.NewReader(buf.B))
	vsym.Assert(err == nil, "tiny: cannot read")
	x, y := f.FontMatrix[0], b.FontMatrix[0]
	vsym.Assert(digits9(y, x) || math.Abs(x-y) < 1e-300, "tiny: number")
}

// H_Info: the top-level font information.
//
//gosym: quick=10 thorough=120
func H_Info() {
	var f *cff.Font
	if vsym.Choose(2) == 0 {
		f = simple(".notdef", "A")
	} else {
		f = cidKeyed(2, 1)
		f.ROS.Registry = str(2)
		f.ROS.Ordering = str(2)
	}
	fi := f.FontInfo
	switch vsym.Choose(4) {
	case 0:
		fi.FontName = "T" + str(2)
		fi.Version = str(3)
		fi.Notice = str(3)
	case 1:
		fi.Version = []string{"", "001.000", "001.004", "1"}[vsym.Choose(4)]
		fi.Notice = str(1)
		fi.Copyright = str(1)
		fi.Weight = []string{"", "Bold", "Semibold", "Heavy"}[vsym.Choose(4)]
	case 2:
		fi.FullName = "Test Café " + str(1)
		fi.FamilyName = "Test 字体"
		fi.IsFixedPitch = vsym.Bool()
	case 3:
		fi.ItalicAngle = []float64{0, -12, 11.25, -9.4, 45, -90, 0.00001, -179.5, 100}[vsym.Choose(9)]
		u := vsym.Int16D(-120)
		fi.UnderlinePosition = funit.Float64(u)
		if vsym.Choose(2) == 1 {
			fi.UnderlinePosition = []funit.Float64{-100, -99.5, 0, -100.25}[vsym.Choose(4)]
			fi.UnderlineThickness = []funit.Float64{50, 0, 50.5, 49.75}[vsym.Choose(4)]
		}
	}
	check(f, "info")
}

// H_Offsets: the sections at every distance where the encoded length of
// some offset changes.
//
//gosym: quick=10 thorough=120 conc=5000000
func H_Offsets() {
	var f *cff.Font
	if vsym.Choose(2) == 0 {
		f = simple(".notdef", "A", "B.x")
		f.Encoding = make([]glyph.ID, 256)
		f.Encoding[65] = 1
	} else {
		f = cidKeyed(3, 2)
	}
	bases := []int{0, 950}
	if vsym.Thorough() {
		bases = []int{0, 280, 560, 950, 32500, 65300}
	}
	k := bases[vsym.Choose(len(bases))] + int(vsym.Choose(280))
	f.Notice = string(bytes.Repeat([]byte{'n'}, k))
	check(f, "offsets")
}

// H_Widths: advance widths together with several private DICTs.
//
//gosym: quick=8 thorough=100
func H_Widths() {
	vsym.NoMerge(true)
	nFD := 1 + int(vsym.Choose(2))
	f := cidKeyed(4, nFD)
	f.FDSelect = func(gid glyph.ID) int { return int(gid) % nFD }
	f.Glyphs[3].Width = 500
	for _, g := range f.Glyphs[:3] {
		switch vsym.Choose(3) {
		case 0:
			g.Width = float64(vsym.Int16D(600))
		case 1:
			w := vsym.Int32D(600 << 16)
			vsym.Assume(vsym.And(w >= 0, w <= 4000<<16))
			g.Width = float64(w) / 65536
		case 2:
			g.Width = 500
		}
	}
	check(f, "widths")
}
