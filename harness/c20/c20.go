// Package c20 checks generated glyph names and PostScript font names.
package c20

import (
	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1/names"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
)

// rule is one way to infer a name: the output glyph is derived from the
// input glyphs.
type rule struct {
	in  []glyph.ID
	out glyph.ID
}

// char is one entry of the character map.
type char struct {
	code uint16
	gid  glyph.ID
}

// cmap4 encodes a format 4 subtable with one segment per character.  The
// codes must be increasing.
func cmap4(cc []char) []byte {
	n := len(cc) + 1
	var b []byte
	w := func(x int) { b = append(b, byte(x>>8), byte(x)) }
	w(4)
	w(16 + 8*n)
	w(0)
	w(2 * n)
	w(0)
	w(0)
	w(0)
	for _, c := range cc {
		w(int(c.code))
	}
	w(0xFFFF)
	w(0)
	for _, c := range cc {
		w(int(c.code))
	}
	w(0xFFFF)
	for _, c := range cc {
		w(int(c.gid - glyph.ID(c.code)))
	}
	w(1)
	for range n {
		w(0)
	}
	return b
}

// pickName gives one of the kinds of names a glyph can have.
func pickName(special []string) string {
	k := vsym.Choose(2 + len(special))
	switch k {
	case 0:
		return ""
	case 1:
		b := vsym.ByteD('A')
		vsym.Assume(b >= 'A' && b <= 'D')
		return string([]byte{b})
	}
	return special[k-2]
}

func font(kind int, nn []string) *sfnt.Font {
	n := len(nn)
	switch kind {
	case 0:
		gg := make(glyf.Glyphs, n)
		ww := make([]funit.Int16, n)
		f := fx.Glyf(1000, gg, ww)
		f.Outlines.(*glyf.Outlines).Names = append([]string{}, nn...)
		return f
	case 1:
		var gg []*cff.Glyph
		for _, s := range nn {
			gg = append(gg, &cff.Glyph{Name: s, Width: 500})
		}
		return fx.CFF(1000, gg)
	}
	var gg []*cff.Glyph
	var cids []cid.CID
	for i, s := range nn {
		gg = append(gg, &cff.Glyph{Name: s, Width: 500})
		cids = append(cids, cid.CID(2*i))
	}
	return fx.CID(1000, gg, cids, make([]int, n), []matrix.Matrix{matrix.Identity})
}

func gsub(ss ...gtab.Subtable) *gtab.Info {
	info := &gtab.Info{
		ScriptList:  gtab.ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
		FeatureList: []*gtab.Feature{{Tag: "test"}},
	}
	for i, s := range ss {
		t := uint16(1)
		switch s.(type) {
		case *gtab.Gsub3_1:
			t = 3
		case *gtab.Gsub4_1:
			t = 4
		}
		info.FeatureList[0].Lookups = append(info.FeatureList[0].Lookups, gtab.LookupIndex(i))
		info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: t}, Subtables: []gtab.Subtable{s}})
	}
	return info
}

func gid(n int) glyph.ID { return glyph.ID(vsym.Int(0, n-1)) }

// check compares the generated names to the rules of the property.
func check(res, orig []string, chars []char, rules []rule) {
	n := len(res)
	vsym.Assert(res[0] == ".notdef", "glyph 0 is not called .notdef")
	for i, s := range res {
		vsym.Assert(s != "", "empty glyph name")
		for j := range i {
			vsym.Assert(res[j] != s, "duplicate glyph name")
		}
	}

	// existing unique names are kept
	given := func(i int) string {
		if i < len(orig) {
			return orig[i]
		}
		return ""
	}
	has := make([]bool, n) // has a unique name
	has[0] = true
	missing := make([]bool, n) // has no name at all
	for i := 1; i < n; i++ {
		s := given(i)
		if s == "" {
			missing[i] = true
			continue
		}
		unique := s != ".notdef"
		for j := 1; j < n; j++ {
			if j != i && given(j) == s {
				unique = false
				break
			}
		}
		if unique {
			has[i] = true
			vsym.Assert(res[i] == s, "existing glyph name not kept")
			vsym.Reach("kept")
		}
	}

	// names from the character map
	cand := make([][]string, n)
	for _, c := range chars {
		for i := 1; i < n; i++ {
			if int(c.gid) == i {
				cand[i] = append(cand[i], names.FromUnicode(string(rune(c.code))))
			}
		}
	}
	in := func(s string, ss []string) bool {
		for _, t := range ss {
			if s == t {
				return true
			}
		}
		return false
	}
	for i := 1; i < n; i++ {
		if !missing[i] || len(cand[i]) == 0 {
			continue
		}
		for _, s := range cand[i] {
			ok := !in(s, orig)
			for j := 1; j < n; j++ {
				if j != i && in(s, cand[j]) {
					ok = false
				}
			}
			if ok {
				has[i] = true
			}
		}
		if has[i] {
			vsym.Assert(in(res[i], cand[i]), "glyph name not inferred from the character map")
			vsym.Reach("cmap")
		}
	}

	// names from substitution rules
	for i := 1; i < n; i++ {
		if !missing[i] || has[i] || in(res[i], cand[i]) {
			continue
		}
		applies, found := false, false
		for _, r := range rules {
			if int(r.out) != i {
				continue
			}
			all := true
			base := ""
			for k, g := range r.in {
				g := vsym.Concrete(int(g))
				if !has[g] {
					all = false
				}
				if k > 0 {
					base += "_"
				}
				base += res[g]
			}
			if all {
				applies = true
			}
			s := res[i]
			if len(s) >= len(base) && s[:len(base)] == base && (len(s) == len(base) || s[len(base)] == '.') {
				found = true
			}
		}
		if applies {
			vsym.Assert(found, "glyph name not inferred from the substitution rules")
			vsym.Reach("gsub")
		}
	}
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// run makes the names, checks them, installs them and asks again.
func run(f *sfnt.Font, orig []string, chars []char, rules []rule) {
	n := f.NumGlyphs()
	vsym.Freeze("font")
	res := f.MakeGlyphNames()
	vsym.Thaw()
	vsym.Assert(len(res) == n, "wrong number of names")
	check(res, orig, chars, rules)
	for range vsym.Repeat() {
		vsym.MapOrder(1)
		again := f.MakeGlyphNames()
		vsym.MapOrder(0)
		vsym.Assert(same(res, again), "different names when asked again")
	}
	f.EnsureGlyphNames()
	for i := range n {
		vsym.Assert(f.GlyphName(glyph.ID(i)) == res[i], "installed name not retrievable")
	}
	vsym.Assert(same(f.MakeGlyphNames(), res), "different names after installing them")
}

// H_Existing is about fonts with any pattern of missing and duplicate names,
// and without further information.
//
//gosym: quick=6 thorough=200
func H_Existing() {
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	var nn []string
	k := n
	kind := vsym.Choose(4)
	switch kind {
	case 3: // TrueType, short list of names, or none
		k = vsym.Choose(n)
		kind = 0
	}
	for range k {
		nn = append(nn, pickName([]string{".notdef", "orn002"}))
	}
	f := font(kind, append(append([]string{}, nn...), make([]string, n-k)...))
	if o, ok := f.Outlines.(*glyf.Outlines); ok {
		o.Names = o.Names[:k:k]
		if k == 0 {
			o.Names = nil
		}
	}
	run(f, nn, nil, nil)
}

// H_AnyName uses names with arbitrary bytes.
//
//gosym: quick=4 thorough=60
func H_AnyName() {
	nn := []string{".notdef", string(vsym.Bytes(1)), string(vsym.Bytes(2)), string(vsym.Bytes(2)), ""}
	run(font(vsym.Choose(3), nn), nn, nil, nil)
}

var charSets = [][]uint16{
	{'A', 'B'},
	{' ', 'A', 0x2126},
	{'A', 0x4E00},
	{'f', 0xFB01},
}

// H_CMap infers names from the character map.
//
//gosym: quick=8 thorough=200
func H_CMap() {
	n := 4
	nn := []string{".notdef"}
	for len(nn) < n {
		nn = append(nn, pickName([]string{"space", "f_i"}))
	}
	f := font(vsym.Choose(3), nn)
	var cc []char
	for _, c := range charSets[vsym.Choose(len(charSets))] {
		// this includes a glyph which does not exist
		cc = append(cc, char{c, gid(n + 1)})
	}
	f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: cmap4(cc)}
	run(f, nn, cc, nil)
}

// H_CMapKinds uses the other kinds of subtables.
//
//gosym: quick=4 thorough=60
func H_CMapKinds() {
	n := 4
	nn := []string{".notdef", pickName(nil), "", pickName(nil)}
	f := font(0, nn)
	var cc []char
	switch vsym.Choose(3) {
	case 0: // format 0
		b := make([]byte, 262)
		b[2], b[3] = 1, 6
		for _, c := range []uint16{'A', 'B', 'z'} {
			g := gid(n)
			b[6+c] = byte(g)
			cc = append(cc, char{c, g})
		}
		f.CMapTable = cmap.Table{{PlatformID: 1, EncodingID: 0}: b}
	case 1: // format 6
		b := []byte{0, 6, 0, 18, 0, 0, 0, 'A', 0, 4}
		for c := range 4 {
			g := gid(n)
			b = append(b, byte(g>>8), byte(g))
			cc = append(cc, char{'A' + uint16(c), g})
		}
		f.CMapTable = cmap.Table{{PlatformID: 0, EncodingID: 3}: b}
	case 2: // format 12, with one range
		g := gid(n)
		c := uint16('A')
		k := vsym.Int(0, 2)
		vsym.Assume(int(g)+k < n)
		b := []byte{0, 12, 0, 0, 0, 0, 0, 28, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, byte(c >> 8), byte(c), 0, 0, 0, byte(int(c) + k), 0, 0, 0, byte(g)}
		for i := range 3 {
			if i <= k {
				cc = append(cc, char{c + uint16(i), g + glyph.ID(i)})
			}
		}
		f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 10}: b}
	}
	run(f, nn, cc, nil)
}

// subst makes one subtable with symbolic glyphs.
func subst(n int) (gtab.Subtable, []rule) {
	switch vsym.Choose(4) {
	case 0:
		a, b, d := gid(n), gid(n), glyph.ID(vsym.Int16())
		vsym.Assume(a < b)
		vsym.Assume(a+d < glyph.ID(n) && b+d < glyph.ID(n))
		return &gtab.Gsub1_1{Cov: coverage.Set{a: true, b: true}, Delta: d}, []rule{{[]glyph.ID{a}, a + d}, {[]glyph.ID{b}, b + d}}
	case 1:
		a, b, c, d := gid(n), gid(n), gid(n), gid(n)
		vsym.Assume(a < b)
		return &gtab.Gsub1_2{Cov: coverage.Table{a: 0, b: 1}, SubstituteGlyphIDs: []glyph.ID{c, d}}, []rule{{[]glyph.ID{a}, c}, {[]glyph.ID{b}, d}}
	case 2:
		a, b, c, d, e := gid(n), gid(n), gid(n), gid(n), gid(n)
		vsym.Assume(a < b)
		return &gtab.Gsub3_1{Cov: coverage.Table{a: 0, b: 1}, Alternates: [][]glyph.ID{{c, d}, {e}}}, []rule{{[]glyph.ID{a}, c}, {[]glyph.ID{a}, d}, {[]glyph.ID{b}, e}}
	}
	a, b, c, d, e := gid(n), gid(n), gid(n), gid(n), gid(n)
	vsym.Assume(a < b)
	return &gtab.Gsub4_1{Cov: coverage.Table{a: 0, b: 1}, Repl: [][]gtab.Ligature{{{In: []glyph.ID{c, d}, Out: e}, {In: []glyph.ID{c}, Out: d}}, {{In: nil, Out: c}}}},
		[]rule{{[]glyph.ID{a, c, d}, e}, {[]glyph.ID{a, c}, d}, {[]glyph.ID{b}, c}}
}

// H_Gsub infers names from one substitution subtable.
//
//gosym: quick=12 thorough=300
func H_Gsub() {
	n := 5
	nn := []string{".notdef", "A", pickName(nil), pickName([]string{"A.1"}), ""}
	f := font(vsym.Choose(2), nn)
	s, rules := subst(n)
	f.Gsub = gsub(s)
	run(f, nn, nil, rules)
}

// H_Gsub2 uses two subtables together with a character map.
//
//gosym: quick=10 thorough=300
func H_Gsub2() {
	n := 5
	nn := []string{"", "", pickName(nil), pickName([]string{"A_B", "A.1"}), ""}
	f := font(vsym.Choose(2), nn)
	cc := []char{{'A', gid(n)}, {'B', 2}}
	f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: cmap4(cc)}
	s1, r1 := subst(n)
	s2, r2 := subst(n)
	f.Gsub = gsub(s1, s2)
	run(f, nn, cc, append(r1, r2...))
}

// H_Many has many glyphs which would get the same name, or many glyphs
// without any name.
//
//gosym: quick=12 thorough=120 conc=3000000
func H_Many() {
	k := []int{8, 9, 10, 11, 12, 99, 101, 1001}[vsym.Choose(8)]
	nn := []string{".notdef", "A", "B", pickName([]string{"A.1", "A.9", "A.10", "A.11", "A_B", "A_B.10", "orn001", "orn010", "orn1000"})}
	first := len(nn)
	full := append(append([]string{}, nn...), make([]string, k)...)
	var base string
	var s gtab.Subtable
	what := 3
	if k < 1000 {
		what = vsym.Choose(5)
	}
	var out []glyph.ID
	for i := range k {
		out = append(out, glyph.ID(first+i))
	}
	switch what {
	case 0: // alternates
		base = "A"
		s = &gtab.Gsub3_1{Cov: coverage.Table{1: 0}, Alternates: [][]glyph.ID{out}}
	case 1: // ligatures
		base = "A_B"
		var ll []gtab.Ligature
		for _, o := range out {
			ll = append(ll, gtab.Ligature{In: []glyph.ID{2}, Out: o})
		}
		s = &gtab.Gsub4_1{Cov: coverage.Table{1: 0}, Repl: [][]gtab.Ligature{ll}}
	case 2: // duplicates
		base = "A"
		full[1] = ""
		for _, o := range out {
			full[o] = "A"
		}
	case 3: // no information
		base = "orn"
	case 4: // a chain of variants
		base = "A"
		cov := coverage.Table{}
		for i, o := range out[:k-1] {
			cov[o] = i
		}
		s = &gtab.Gsub3_1{Cov: coverage.Table{1: 0}, Alternates: [][]glyph.ID{out[:1]}}
		s2 := &gtab.Gsub1_2{Cov: cov, SubstituteGlyphIDs: out[1:]}
		f := font(vsym.Choose(2), full)
		f.Gsub = gsub(s, s2)
		many(f, full, base, first)
		return
	}
	f := font(vsym.Choose(2), full)
	if s != nil {
		f.Gsub = gsub(s)
	}
	many(f, full, base, first)
	vsym.Assert(what == 2 || f.GlyphName(1) == "A", "existing glyph name not kept")
}

func many(f *sfnt.Font, orig []string, base string, first int) {
	n := len(orig)
	res := f.MakeGlyphNames()
	vsym.Assert(len(res) == n, "wrong number of names")
	vsym.Assert(res[0] == ".notdef", "glyph 0 is not called .notdef")
	count := map[string]int{}
	for _, s := range orig {
		count[s]++
	}
	seen := map[string]bool{}
	for i, s := range res {
		vsym.Assert(s != "", "empty glyph name")
		vsym.Assert(!seen[s], "duplicate glyph name")
		seen[s] = true
		if orig[i] != "" && count[orig[i]] == 1 {
			vsym.Assert(s == orig[i], "existing glyph name not kept")
		}
		if i >= first && base != "orn" && orig[i] == "" {
			vsym.Assert(len(s) >= len(base) && s[:len(base)] == base && (len(s) == len(base) || s[len(base)] == '.'), "glyph name not inferred from the substitution rules")
		}
	}
	f.EnsureGlyphNames()
	vsym.Assert(same(f.MakeGlyphNames(), res), "different names after installing them")
	for i := range n {
		vsym.Assert(f.GlyphName(glyph.ID(i)) == res[i], "installed name not retrievable")
	}
}

// H_SimpleMany converts CID-keyed fonts with many glyphs for the same text.
//
//gosym: quick=8 thorough=60 conc=3000000
func H_SimpleMany() {
	k := []int{9, 10, 11, 12, 99, 101, 1001}[vsym.Choose(7)]
	nn := []string{"", "", pickName([]string{"A.1", "A.alt1", "A.alt10", "A_B", "A_B.alt10", "orn001", "orn1000"})}
	n := len(nn) + k
	f := font(2, append(nn, make([]string, k)...))
	o := f.Outlines.(*cff.Outlines)
	base := ""
	if k < 1000 {
		base = []string{"", "A", "A_B"}[vsym.Choose(3)]
	}
	text := map[glyph.ID]string{}
	if base != "" {
		for i := 3; i < n; i++ {
			text[glyph.ID(i)] = []string{"A", "AB"}[len(base)/2]
		}
	}
	o.MakeSimple(text)
	seen := map[string]bool{}
	for i := range n {
		s := f.GlyphName(glyph.ID(i))
		vsym.Assert(valid(s), "invalid glyph name")
		vsym.Assert(!seen[s], "duplicate glyph name")
		seen[s] = true
		if i >= 3 && base != "" {
			vsym.Assert(len(s) >= len(base) && s[:len(base)] == base && (len(s) == len(base) || s[len(base)] == '.'), "glyph name not inferred from the text")
		}
	}
	vsym.Assert(f.GlyphName(0) == ".notdef", "glyph 0 is not called .notdef")
	if nn[2] != "" {
		vsym.Assert(f.GlyphName(2) == nn[2], "existing glyph name not kept")
	}
	o.MakeSimple(text)
	for i := range n {
		vsym.Assert(seen[f.GlyphName(glyph.ID(i))], "different names when asked again")
	}
}

// valid is the rule for glyph names in the Adobe glyph list specification.
func valid(s string) bool {
	if s == ".notdef" {
		return true
	}
	if len(s) < 1 || len(s) > 31 {
		return false
	}
	ok := vsym.And(s[0] != '.', vsym.Or(s[0] < '0', s[0] > '9'))
	for i := range len(s) {
		c := s[i]
		ok = vsym.And(ok, vsym.Or(vsym.And(c >= 'A', c <= 'Z'), vsym.And(c >= 'a', c <= 'z'), vsym.And(c >= '0', c <= '9'), c == '.', c == '_'))
	}
	return ok
}

var texts = []string{"", "A", "AB", "fi", "\ufb01", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmno", "\u4e00"}

// H_Simple converts CID-keyed fonts to simple fonts.
//
//gosym: quick=8 thorough=200
func H_Simple() {
	n := 4
	var nn []string
	nn = append(nn, "")
	for len(nn) < n {
		switch vsym.Choose(3) {
		case 0:
			nn = append(nn, "")
		case 1:
			nn = append(nn, string([]byte{vsym.ByteD('A')}))
		case 2:
			nn = append(nn, string([]byte{'A', vsym.ByteD('.'), 'a', 'l', 't', '1'}))
		}
	}
	f := font(2, nn)
	o := f.Outlines.(*cff.Outlines)
	var text map[glyph.ID]string
	tt := make([]string, n)
	if vsym.Choose(2) == 1 {
		text = map[glyph.ID]string{}
		for i := 1; i < n; i++ {
			k := vsym.Choose(len(texts))
			if k > 0 {
				tt[i] = texts[k]
				text[glyph.ID(i)] = texts[k]
			}
		}
	}
	o.MakeSimple(text)
	vsym.Assert(!o.IsCIDKeyed(), "font is still CID-keyed")
	vsym.Assert(len(o.Glyphs) == n, "number of glyphs changed")
	var res []string
	for i := range n {
		s := f.GlyphName(glyph.ID(i))
		vsym.Assert(valid(s), "invalid glyph name")
		for _, t := range res {
			vsym.Assert(s != t, "duplicate glyph name")
		}
		res = append(res, s)
	}
	vsym.Assert(res[0] == ".notdef", "glyph 0 is not called .notdef")
	vsym.Assert(len(o.Encoding) == 256, "no encoding")
	taken := map[string]bool{}
	for i := 1; i < n; i++ {
		s := nn[i]
		if s == "" || !valid(s) || s == ".notdef" {
			continue
		}
		taken[s] = true
		unique := true
		for j := 1; j < n; j++ {
			if i != j && nn[j] == s {
				unique = false
				break
			}
		}
		if unique {
			vsym.Assert(res[i] == s, "existing glyph name not kept")
			vsym.Reach("kept")
		}
	}
	// names from the text content
	for i := 1; i < n; i++ {
		if nn[i] != "" || tt[i] == "" {
			continue
		}
		base := names.FromUnicode(tt[i])
		if !valid(base) || len(base) > 25 {
			continue
		}
		s := res[i]
		vsym.Assert(len(s) >= len(base) && s[:len(base)] == base && (len(s) == len(base) || s[len(base)] == '.'), "glyph name not inferred from the text")
		vsym.Reach("text")
	}
	// the encoding is the standard encoding for the new names
	for i, s := range res {
		if len(s) == 1 && s != "." && s != "_" {
			c := vsym.Concrete(int(s[0]))
			if c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' {
				vsym.Assert(int(o.Encoding[c]) == i, "wrong standard encoding")
			}
		}
	}
	o.MakeSimple(text)
	for i := range n {
		vsym.Assert(f.GlyphName(glyph.ID(i)) == res[i], "different names when asked again")
	}
	vsym.Assert(same(f.MakeGlyphNames(), res), "different names from MakeGlyphNames")
}

func psOK(s string) {
	for i := range len(s) {
		c := s[i]
		vsym.Assert(c > 32 && c < 127, "PostScript name contains a control, space or non-ASCII character")
		vsym.Assert(vsym.And(c != '(', c != ')', c != '<', c != '>', c != '[', c != ']', c != '{', c != '}', c != '/', c != '%'), "PostScript name contains a delimiter")
	}
}

// H_PSName has any family name.
//
//gosym: quick=6 thorough=60
func H_PSName() {
	n := 4
	if vsym.Thorough() {
		n = 6
	}
	f := fx.Base(1000)
	f.FamilyName = string(vsym.Bytes(n))
	s := f.PostScriptName()
	psOK(s)
	vsym.Assert(len(s) > 0, "empty PostScript name")
	vsym.Observe(uint64(len(s)))
}

// H_PSStyle has any width, weight and style flags.
//
//gosym: quick=6 thorough=60
func H_PSStyle() {
	f := fx.Base(1000)
	f.FamilyName = []string{"Test", "Test Bold", "Fam{}<>/%", ""}[vsym.Choose(4)]
	f.Width = os2.Width(vsym.Uint16())
	f.Weight = os2.Weight(vsym.Uint16())
	f.IsItalic, f.IsBold, f.IsOblique, f.IsRegular = vsym.Bool(), vsym.Bool(), vsym.Bool(), vsym.Bool()
	f.IsSerif, f.IsScript = vsym.Bool(), vsym.Bool()
	psOK(f.PostScriptName())
}
