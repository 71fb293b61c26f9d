// Package rx is an independent reader for complete font files.  It shares no
// code with the library.
package rx

import (
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/verifh/t2"
	"seehuhn.de/go/sfnt/internal/vsym"
)

// Font is the information extracted from a font file.
type Font struct {
	Tables     map[string][]byte
	NumGlyphs  int
	UnitsPerEm int
	Widths     []int
	Names      []string // nil if the font has no glyph names
	Glyf       []Outline
	CFF        *t2.Parsed
}

// Pt is a point of a contour.
type Pt struct {
	X, Y int
	On   bool
}

// Part is a component of a composite glyph.
type Part struct {
	Glyph, X, Y int
	Flags       int
	Matrix      []int // 2.14 numbers
}

// Outline is a TrueType glyph.
type Outline struct {
	Contours [][]Pt
	Parts    []Part
	Box      [4]int
	Code     []byte
}

func s16(b []byte, i int) int { return int(int16(uint16(b[i])<<8 | uint16(b[i+1]))) }

// Read decodes a complete font file.  The checksums are checked if sums is
// set, or if the file is concrete.
func Read(file []byte, scaler uint32, sums bool) *Font {
	f := &Font{Tables: hx.Container(file, scaler, sums || vsym.IsConcrete(file))}
	t := f.Tables
	head := t["head"]
	vsym.Assert(len(head) == 54, "head: wrong length")
	vsym.Assert(hx.U32(head, 12) == 0x5F0F3CF5, "head: wrong magic number")
	vsym.Assert(hx.U32(head, 0) == 0x00010000, "head: wrong version")
	f.UnitsPerEm = hx.U16(head, 18)
	vsym.Assert(hx.U16(head, 52) == 0, "head: wrong glyphDataFormat")

	mp := t["maxp"]
	if scaler == 0x00010000 {
		vsym.Assert(len(mp) == 32 && hx.U32(mp, 0) == 0x00010000, "maxp: wrong version or length")
	} else {
		vsym.Assert(len(mp) == 6 && hx.U32(mp, 0) == 0x00005000, "maxp: wrong version or length")
	}
	f.NumGlyphs = vsym.Concrete(hx.U16(mp, 4))
	vsym.Assert(f.NumGlyphs > 0, "maxp: no glyphs")

	hhea := t["hhea"]
	vsym.Assert(len(hhea) == 36 && hx.U32(hhea, 0) == 0x00010000, "hhea: wrong version or length")
	vsym.Assert(hx.U16(hhea, 32) == 0, "hhea: wrong metricDataFormat")
	n := vsym.Concrete(hx.U16(hhea, 34))
	vsym.Assert(n > 0 && n <= f.NumGlyphs, "hhea: impossible numberOfHMetrics")
	hmtx := t["hmtx"]
	vsym.Assert(len(hmtx) == 4*n+2*(f.NumGlyphs-n), "hmtx: wrong length")
	for i := range f.NumGlyphs {
		f.Widths = append(f.Widths, hx.U16(hmtx, 4*min(i, n-1)))
	}

	if scaler == 0x00010000 {
		f.glyf()
	} else {
		p, msg := t2.Parse(t["CFF "])
		vsym.Assert(msg == "", "CFF: malformed")
		vsym.Assert(len(p.Glyphs) == f.NumGlyphs, "CFF: number of glyphs differs from maxp")
		f.CFF = p
	}
	f.names()
	return f
}

func (f *Font) names() {
	post := f.Tables["post"]
	vsym.Assert(len(post) >= 32, "post: table too short")
	switch vsym.Concrete(int(hx.U32(post, 0))) {
	case 0x00010000:
		vsym.Assert(f.NumGlyphs == 258, "post: version 1 needs 258 glyphs")
		vsym.Assert(len(post) == 32, "post: wrong length")
		f.Names = append([]string{}, MacNames[:]...)
	case 0x00020000:
		n := f.NumGlyphs
		vsym.Assert(len(post) >= 34+2*n, "post: index array too short")
		vsym.Assert(hx.U16(post, 32) == n, "post: number of glyphs")
		var strs []string
		p := 34 + 2*n
		for p < len(post) {
			l := vsym.Concrete(int(post[p]))
			vsym.Assert(p+1+l <= len(post), "post: string outside the table")
			strs = append(strs, string(post[p+1:p+1+l]))
			p += 1 + l
		}
		f.Names = make([]string, n)
		for i := range f.Names {
			k := vsym.Concrete(hx.U16(post, 34+2*i))
			if k < 258 {
				f.Names[i] = MacNames[k]
			} else {
				vsym.Assert(k-258 < len(strs), "post: string index out of range")
				f.Names[i] = strs[k-258]
			}
		}
	case 0x00030000:
		vsym.Assert(len(post) == 32, "post: wrong length")
		if f.CFF != nil && f.CFF.Top[256+30] == nil {
			for _, sid := range f.CFF.Charset {
				s, ok := f.CFF.Name(sid)
				vsym.Assert(ok, "CFF: string index out of range")
				f.Names = append(f.Names, s)
			}
		}
	default:
		vsym.Fail("post: unknown version")
	}
}

func (f *Font) glyf() {
	loca, glyf := f.Tables["loca"], f.Tables["glyf"]
	format := vsym.Concrete(hx.U16(f.Tables["head"], 50))
	vsym.Assert(format == 0 || format == 1, "head: wrong indexToLocFormat")
	at := func(i int) int {
		if format == 0 {
			return 2 * vsym.Concrete(hx.U16(loca, 2*i))
		}
		return vsym.Concrete(int(hx.U32(loca, 4*i)))
	}
	vsym.Assert(len(loca) == (f.NumGlyphs+1)*(2+2*format), "loca: wrong length")
	vsym.Assert(at(f.NumGlyphs) == len(glyf), "loca: last entry is not the end of glyf")
	for i := range f.NumGlyphs {
		a, b := at(i), at(i+1)
		vsym.Assert(a <= b && b <= len(glyf), "loca: not monotone")
		f.Glyf = append(f.Glyf, outline(glyf[a:b]))
	}
}

func outline(b []byte) (res Outline) {
	if len(b) == 0 {
		return
	}
	vsym.Assert(len(b) >= 10, "glyf: glyph too short")
	nc := vsym.Concrete(s16(b, 0))
	for i := range 4 {
		res.Box[i] = s16(b, 2+2*i)
	}
	b = b[10:]
	if nc < 0 {
		p, all := 0, 0
		for {
			vsym.Assert(len(b) >= p+4, "glyf: component too short")
			flags := vsym.Concrete(hx.U16(b, p))
			all |= flags
			c := Part{Flags: flags, Glyph: hx.U16(b, p+2)}
			p += 4
			words := 1 + flags&1
			vsym.Assert(len(b) >= p+2*words, "glyf: component too short")
			if words == 2 {
				c.X, c.Y = s16(b, p), s16(b, p+2)
			} else {
				c.X, c.Y = int(int8(b[p])), int(int8(b[p+1]))
			}
			p += 2 * words
			m := 0
			switch {
			case flags&8 != 0:
				m = 1
			case flags&64 != 0:
				m = 2
			case flags&128 != 0:
				m = 4
			}
			vsym.Assert(len(b) >= p+2*m, "glyf: component too short")
			for range m {
				c.Matrix = append(c.Matrix, s16(b, p))
				p += 2
			}
			res.Parts = append(res.Parts, c)
			if flags&32 == 0 {
				if all&256 != 0 {
					l := vsym.Concrete(hx.U16(b, p))
					res.Code = b[p+2 : p+2+l]
					p += 2 + l
				}
				break
			}
		}
		vsym.Assert(len(b)-p < 4, "glyf: extra data")
		return
	}
	numPts := 0
	ends := make([]int, nc)
	for i := range ends {
		ends[i] = vsym.Concrete(hx.U16(b, 2*i))
		vsym.Assert(ends[i]+1 >= numPts, "glyf: contours not sorted")
		numPts = ends[i] + 1
	}
	p := 2 * nc
	l := vsym.Concrete(hx.U16(b, p))
	p += 2
	res.Code = b[p : p+l]
	p += l
	var flags []int
	for len(flags) < numPts {
		fl := vsym.Concrete(int(b[p]))
		p++
		flags = append(flags, fl)
		if fl&8 != 0 {
			for range vsym.Concrete(int(b[p])) {
				flags = append(flags, fl)
			}
			p++
		}
	}
	vsym.Assert(len(flags) == numPts, "glyf: too many flags")
	coord := func(short, same int) []int {
		xx := make([]int, numPts)
		v := 0
		for i, fl := range flags {
			switch {
			case fl&short != 0:
				d := int(b[p])
				p++
				if fl&same == 0 {
					d = -d
				}
				v += d
			case fl&same == 0:
				v += s16(b, p)
				p += 2
			}
			xx[i] = v
		}
		return xx
	}
	xx := coord(2, 16)
	yy := coord(4, 32)
	vsym.Assert(len(b)-p < 4, "glyf: extra data")
	k := 0
	for _, e := range ends {
		var c []Pt
		for ; k <= e; k++ {
			c = append(c, Pt{xx[k], yy[k], flags[k]&1 != 0})
		}
		res.Contours = append(res.Contours, c)
	}
	return
}

// Subtable finds a cmap subtable, or returns nil.
func (f *Font) Subtable(pid, eid int) []byte {
	b := f.Tables["cmap"]
	if b == nil {
		return nil
	}
	vsym.Assert(hx.U16(b, 0) == 0, "cmap: wrong version")
	n := vsym.Concrete(hx.U16(b, 2))
	vsym.Assert(len(b) >= 4+8*n, "cmap: directory does not fit")
	last := -1
	var res []byte
	for i := range n {
		key := vsym.Concrete(int(hx.U32(b, 4+8*i)))
		vsym.Assert(key > last, "cmap: directory not sorted")
		last = key
		if key != pid<<16|eid {
			continue
		}
		off := vsym.Concrete(int(hx.U32(b, 8+8*i)))
		vsym.Assert(off >= 4+8*n && off+16 <= len(b), "cmap: subtable outside the table")
		s := b[off:]
		l := hx.U16(s, 2)
		if hx.U16(s, 0) >= 8 {
			l = int(hx.U32(s, 4))
		}
		l = vsym.Concrete(l)
		vsym.Assert(l <= len(s), "cmap: subtable outside the table")
		res = s[:l]
	}
	return res
}

// Map looks up a character code in a subtable of format 4, 6 or 12.
func Map(b []byte, c int) int {
	switch vsym.Concrete(hx.U16(b, 0)) {
	case 0:
		return int(b[6+c])
	case 4:
		n := vsym.Concrete(hx.U16(b, 6)) / 2
		for i := range n {
			end := hx.U16(b, 14+2*i)
			if end < c {
				continue
			}
			start := hx.U16(b, 16+2*n+2*i)
			if start > c {
				return 0
			}
			delta := hx.U16(b, 16+4*n+2*i)
			pos := 16 + 6*n + 2*i
			ro := vsym.Concrete(hx.U16(b, pos))
			if ro == 0 {
				return (c + delta) & 0xFFFF
			}
			start = vsym.Concrete(start)
			g := hx.U16(b, pos+ro+2*(c-start))
			return vsym.IteInt(g == 0, 0, (g+delta)&0xFFFF)
		}
		return 0
	case 6:
		first, n := hx.U16(b, 6), hx.U16(b, 8)
		if c < first || c >= first+n {
			return 0
		}
		return hx.U16(b, 10+2*(c-first))
	case 12:
		n := vsym.Concrete(int(hx.U32(b, 12)))
		res := 0
		for i := range n {
			s, e, g := int(hx.U32(b, 16+12*i)), int(hx.U32(b, 20+12*i)), int(hx.U32(b, 24+12*i))
			res = vsym.IteInt(vsym.And(s <= c, c <= e), g+c-s, res)
		}
		return res
	}
	vsym.Fail("cmap: unexpected format")
	return 0
}

// CharString runs the charstring of a glyph.
func (f *Font) CharString(gid int) *t2.Glyph {
	fd := f.CFF.FD[f.CFF.Select[gid]]
	g, st := t2.Run(f.CFF.Glyphs[gid], fd.Subrs, f.CFF.Global, fd.Default, fd.Nominal)
	vsym.Assert(st == t2.OK, "CFF: malformed charstring")
	return g
}
