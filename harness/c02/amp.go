package c02

import (
	"bytes"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

// lookups makes a table with one lookup.
func lookups(t int, numSub int, sub []byte) []byte {
	b := be(1, 0, 10, 12, 14, 0, 0, 1, 4, t, 0, numSub)
	for range numSub {
		b = append(b, be(6+2*numSub)...)
	}
	return append(b, sub...)
}

func rep(n int, x ...int) []int {
	var res []int
	for range n {
		res = append(res, x...)
	}
	return res
}

func cat(bb ...[]byte) []byte {
	var res []byte
	for _, b := range bb {
		res = append(res, b...)
	}
	return res
}

// H_Amplify reads small inputs which describe huge amounts of data, because
// parts of the input are referred to many times.
//
//gosym: quick=75 thorough=400 steps=2000000000
func H_Amplify() {
	all := be(2, 1, 0, 0xFFFF, 0)   // coverage table for all glyphs
	class := be(2, 1, 0, 0xFFFF, 1) // class definition for all glyphs
	n := []int{5, 1000, 2000}[vsym.Choose(3)]
	x := vsym.Uint16D(1) // some value which does not matter
	X := int(x)
	kind := vsym.Choose(25)
	valid := func(err error) {
		if err == nil {
			vsym.Reach("valid" + string([]byte{byte('0' + kind/10), byte('0' + kind%10)}))
		}
	}
	if kind == 14 || kind == 15 || kind == 16 || kind == 17 {
		X = 1 + vsym.Choose(2)*20000
	}
	gsub := func(b []byte) {
		guardN(ampLimit, func() {
			info, err := gtab.Read(bytes.NewReader(b), gtab.TypeGsub)
			valid(err)
			if err == nil {
				info.Encode()
			}
		})
	}
	gpos := func(b []byte) {
		guardN(ampLimit, func() {
			info, err := gtab.Read(bytes.NewReader(b), gtab.TypeGpos)
			valid(err)
			if err == nil {
				info.Encode()
			}
		})
	}
	switch kind {
	case 0: // subtables which share the coverage table
		gsub(lookups(1, n, cat(be(1, 6, X), all)))
	case 1:
		gsub(lookups(5, 1, cat(be(3, n, 1), be(rep(n, 10+2*n)...), be(0, X), all)))
	case 2:
		gsub(lookups(6, 1, cat(be(3, n), be(rep(n, 12+2*n)...), be(1, 12+2*n, 0, 0), be(X), all)))
	case 3:
		gsub(lookups(6, 1, cat(be(3, 0, n), be(rep(n, 10+2*n)...), be(0, 0), all)))
	case 4:
		gsub(lookups(8, 1, cat(be(1, 12+2*n, n), be(rep(n, 12+2*n)...), be(0, 1, X), all)))
	case 5:
		gsub(lookups(5, n, cat(be(2, 10, 20, 1, 0), all, class)))
	case 6: // class pairs without values
		gpos(lookups(2, n, cat(be(2, 16, 0, 0, 26, 26, 255, 255, X), all, class)))
	case 7: // the same pair set for many glyphs
		gpos(lookups(2, 1, cat(be(1, 10+2*n, 4, 0, n), be(rep(n, 20+2*n)...), be(2, 1, 1, n, 0), be(n), be(rep(n, 1, X)...))))
	case 8: // all glyphs use the same substitution
		gsub(lookups(2, 1, cat(be(1, 6+2*n, n), be(rep(n, 16+2*n)...), be(2, 1, 1, n, 0), be(n), be(rep(n, X)...))))
	case 9: // overlapping kerning tables
		guardN(ampLimit, func() {
			h, err := kern.Read(bytes.NewReader(cat(be(0, n), be(rep(n, 0, 14, 1, 0x4000, 0, 0, 0)...), be(rep(3*0x4000, X)...))))
			valid(err)
			if err == nil {
				h.Encode()
			}
		})
	case 10: // glyph sets
		guardN(ampLimit, func() {
			h, err := gdef.Read(bytes.NewReader(cat(be(1, 2, 0, 0, 0, 0, 14, 1, n), be(rep(n, 0, 4+4*n)...), all)))
			valid(err)
			if err == nil {
				h.Encode()
			}
		})
	case 11: // subroutines which call subroutines
		readCFF(func(subr [][]byte) []byte {
			for i := range subr {
				for range 1000 {
					subr[i] = append(subr[i], byte(139-107+i+1), 10)
				}
				subr[i] = append(subr[i], 11)
			}
			subr[len(subr)-1] = []byte{byte(x), 11}
			return []byte{139 - 107, 10, 14}
		})
	case 12: // features which share the list of lookups
		b := be(1, 0, 10, 12, 12+2+6*n+4+2*n)
		b = append(b, be(0, n)...)
		for range n {
			b = append(b, 't', 'e', 's', 't')
			b = append(b, be(2+6*n)...)
		}
		b = append(b, be(0, n)...)
		b = append(b, be(rep(n, X)...)...)
		b = append(b, be(0)...)
		gsub(b)
	case 13: // private dictionaries which share the subroutines
		shareSubrs(n)
	case 14: // groups of many characters
		b := cat(be(0, 1, 3, 10, 0, 12, 12, 0, 0, 16+12*n, 0, 0, 0, n))
		for i := range n {
			b = append(b, be(i, 0, i, 0x8000+n, 0, X)...)
		}
		useCmap(b)
	case 15: // segments of many characters
		b := cat(be(0, 1, 3, 1, 0, 12, 4, 16+8*n, 0, 2*n, 0, 0, 0))
		b = append(b, be(rep(n-1, 0xFFF0)...)...)
		b = append(b, be(0xFFFF, 0)...)
		b = append(b, be(rep(n, 1)...)...)
		b = append(b, be(rep(n, X)...)...)
		b = append(b, be(rep(n, 0)...)...)
		useCmap(b)
	case 16: // names which share the text
		m := 2 * n
		b := be(0, m, 6+12*m)
		for i := range m {
			b = append(b, be(1, 0, i/20, i%20, 20000-i, i)...)
		}
		b = append(b, bytes.Repeat([]byte{byte(X)}, 20000)...)
		useName(b)
	case 17:
		m := 2 * n
		b := be(0, m, 6+12*m)
		for i := range m {
			b = append(b, be(3, 1, 0x0401+i/20, i%20, 20000-i, i)...)
		}
		b = append(b, bytes.Repeat([]byte{byte(X)}, 20000)...)
		useName(b)
	case 18: // all glyphs use the same list of alternates
		gsub(lookups(3, 1, cat(be(1, 6+2*n, n), be(rep(n, 16+2*n)...), be(2, 1, 1, n, 0), be(n), be(rep(n, X)...))))
	case 19: // the same ligatures
		gsub(lookups(4, 1, cat(be(1, 6+2*n, n), be(rep(n, 16+2*n)...), be(2, 1, 1, n, 0), be(n), be(rep(n, 2+2*n)...), be(X, 2, 3))))
	case 20: // the same rules
		gsub(lookups(5, 1, cat(be(1, 6+2*n, n), be(rep(n, 16+2*n)...), be(2, 1, 1, n, 0), be(n), be(rep(n, 2+2*n)...), be(2, 0, X))))
	case 21:
		gsub(lookups(6, 1, cat(be(1, 6+2*n, n), be(rep(n, 16+2*n)...), be(2, 1, 1, n, 0), be(n), be(rep(n, 2+2*n)...), be(0, 2, X, 0, 0))))
	case 22: // the same anchors for many glyphs
		gpos(lookups(5, 1, cat(be(1, 12, 22, 2, 32, 44), be(2, 1, 1, 1, 0), be(2, 1, 10, 9+n, 0), be(1, 0, 6, 1, X, 3), be(n), be(rep(n, 2+2*n)...), be(n), be(rep(2*n, 2+4*n)...), be(1, X, 2))))
	case 23: // language systems which share the features
		b := be(1, 0, 10, 34+8*n, 46+8*n)
		b = append(b, be(2, 'D'<<8|'F', 'L'<<8|'T', 14, 'l'<<8|'a', 't'<<8|'n', 14)...)
		b = append(b, be(0, n)...)
		for i := range n {
			b = append(b, 'A'+byte(i/676), 'A'+byte(i/26%26), 'A'+byte(i%26), ' ')
			b = append(b, be(4+6*n)...)
		}
		b = append(b, be(0, 0xFFFF, n)...)
		b = append(b, be(rep(n, X)...)...)
		b = append(b, be(1, 't'<<8|'e', 's'<<8|'t', 8, 0, 0)...)
		gsub(append(b, be(0)...))
	case 24: // a glyph definition table where many glyphs share a list
		guardN(ampLimit, func() {
			h, err := gdef.Read(bytes.NewReader(cat(be(1, 0, 0, 12, 12, 0), be(4+2*n, n), be(rep(n, 14+2*n)...), be(2, 1, 1, n, 0), be(n), be(rep(n, X)...))))
			valid(err)
			if err == nil {
				h.Encode()
			}
		})
	}
}

func useCmap(b []byte) {
	// enough space for every Unicode character
	guardAlloc(1<<25, ampLimit, func() {
		tab, err := cmap.Decode(b)
		if err != nil {
			return
		}
		vsym.Reach("cmap")
		sub, err := tab.GetBest()
		if err == nil {
			vsym.Reach("subtable")
			sub.Lookup(1)
			sub.Encode(0)
		}
	})
}

func useName(b []byte) {
	guardN(ampLimit, func() {
		info, err := name.Decode(b)
		if err == nil {
			vsym.Reach("name")
			info.Encode(1)
		}
	})
}

func idx(items ...[]byte) []byte {
	b := be(len(items))
	if len(items) == 0 {
		return b
	}
	b = append(b, 2)
	pos := 1
	b = append(b, be(pos)...)
	for _, x := range items {
		pos += len(x)
		b = append(b, be(pos)...)
	}
	for _, x := range items {
		b = append(b, x...)
	}
	return b
}

func int5(x int) []byte { return []byte{29, byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }

// readCFF reads a font with local subroutines.
func readCFF(f func(subr [][]byte) []byte) {
	subr := make([][]byte, 10)
	code := f(subr)
	// the local subroutines are stored directly after the private dictionary
	priv := cat(int5(6), []byte{19})
	header := []byte{1, 0, 4, 2}
	names := idx([]byte("Test"))
	top := func(cs, pr int) []byte {
		return idx(cat(int5(cs), []byte{17}, int5(len(priv)), int5(pr), []byte{18}))
	}
	rest := cat(idx(), idx())
	pos := len(header) + len(names) + len(top(0, 0)) + len(rest)
	cs := idx(code)
	b := cat(header, names, top(pos, pos+len(cs)), rest, cs, priv, idx(subr...))
	guardN(ampLimit, func() {
		f, err := cff.Read(bytes.NewReader(b))
		if err == nil {
			useCFF(f)
		}
	})
}

func shareSubrs(n int) {
	priv := cat(int5(6), []byte{19})
	var subr [][]byte
	for range n {
		subr = append(subr, []byte{1, 2, 3, 4, 11})
	}
	header := []byte{1, 0, 4, 2}
	names := idx([]byte("Test"))
	top := func(cs, fd, fa int) []byte {
		return idx(cat(int5(391), int5(391), int5(0), []byte{12, 30}, int5(cs), []byte{17}, int5(fd), []byte{12, 37}, int5(fa), []byte{12, 36}))
	}
	rest := cat(idx(), idx())
	pos := len(header) + len(names) + len(top(0, 0, 0)) + len(rest)
	cs := idx([]byte{14})
	fds := []byte{0, 0}
	fa := func(pr int) []byte {
		var items [][]byte
		for range 250 {
			items = append(items, cat(int5(len(priv)), int5(pr), []byte{18}))
		}
		return idx(items...)
	}
	posPriv := pos + len(cs) + len(fds) + len(fa(0))
	b := cat(header, names, top(pos, pos+len(cs), pos+len(cs)+len(fds)), rest, cs, fds, fa(posPriv), priv, idx(subr...))
	guardN(ampLimit, func() {
		f, err := cff.Read(bytes.NewReader(b))
		if err == nil {
			useCFF(f)
		}
	})
}

// H_Scale checks that tables of ordinary structure can be read, so that the
// limits are not too strict.
//
//gosym: quick=15 thorough=60 steps=2000000000
func H_Scale() {
	f := fx.Corpus(5)
	w := &hx.Buf{}
	vsym.Assert(f.AsCFF().Write(w) == nil, "cannot write the font")
	_, err := cff.Read(bytes.NewReader(w.B))
	vsym.Assert(err == nil, "cannot read the font")
	all := be(2, 1, 0, 0xFFFF, 0)
	_, err = gtab.Read(bytes.NewReader(lookups(1, 20, cat(be(1, 6, int(vsym.Uint16D(1))), all))), gtab.TypeGsub)
	vsym.Assert(err == nil, "cannot read the table")
}
