// Package c14 checks that names, glyph names and language tags survive their
// encodings.
package c14

import (
	"strings"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/mac"
	"seehuhn.de/go/sfnt/name"
)

// rune8 is the reference decoding of a Mac Roman byte.
func rune8(c byte) rune {
	if c < 128 {
		return rune(c)
	}
	return macRoman[c&127]
}

// H_MacDecode: the Mac Roman decoder agrees with the Mac OS Roman table and
// is inverted by the encoder.
//
//gosym: quick=8 thorough=60
func H_MacDecode() {
	n := int(vsym.Choose(3))
	if vsym.Thorough() {
		n += int(vsym.Choose(2))
	}
	b := vsym.Bytes(n)
	s := mac.Decode(hx.Clone(b))
	i := 0
	for _, r := range s {
		vsym.Assert(i < n, "mac: too many runes")
		vsym.Assert(r == rune8(b[i]), "mac: wrong rune")
		vsym.Assert(mac.DecodeOne(b[i]) == r, "mac: DecodeOne differs from Decode")
		i++
	}
	vsym.Assert(i == n, "mac: wrong number of runes")
	vsym.Assert(vsym.EqBytes(mac.Encode(s), b), "mac: Encode does not invert Decode")
}

// H_MacEncode: the Mac Roman encoder on arbitrary runes.
//
//gosym: quick=10 thorough=60
func H_MacEncode() {
	lo := []rune{0, 0x80, 0x800, 0xe000, 0x10000, 0x20000}
	hi := []rune{0x7f, 0x7ff, 0xd7ff, 0xffff, 0x1ffff, 0x10ffff}
	k := int(vsym.Choose(len(lo)))
	r := rune(vsym.Int32())
	vsym.Assume(vsym.And(r >= lo[k], r <= hi[k]))
	x := mac.Encode("a" + string(r) + "b")
	vsym.Assert(len(x) == 3, "mac: encoding changes the number of characters")
	vsym.Assert(x[0] == 'a' && x[2] == 'b', "mac: neighbours changed")
	in := r < 128
	for _, c := range macRoman {
		in = vsym.Or(in, r == c)
	}
	vsym.Assert(vsym.Implies(in, rune8(x[1]) == r), "mac: wrong code")
	vsym.Assert(vsym.Implies(!in, x[1] == '?'), "mac: rune outside the repertoire")
}

// field returns the named field for a name ID; nil for the other IDs.
func field(t *name.Table, id int) *string {
	switch id {
	case 0:
		return &t.Copyright
	case 1:
		return &t.Family
	case 2:
		return &t.Subfamily
	case 3:
		return &t.Identifier
	case 4:
		return &t.FullName
	case 5:
		return &t.Version
	case 6:
		return &t.PostScriptName
	case 7:
		return &t.Trademark
	case 8:
		return &t.Manufacturer
	case 9:
		return &t.Designer
	case 10:
		return &t.Description
	case 11:
		return &t.VendorURL
	case 12:
		return &t.DesignerURL
	case 13:
		return &t.License
	case 14:
		return &t.LicenseURL
	case 16:
		return &t.TypographicFamily
	case 17:
		return &t.TypographicSubfamily
	case 18:
		return &t.MacFullName
	case 19:
		return &t.SampleText
	case 20:
		return &t.CIDFontName
	case 21:
		return &t.WWSFamily
	case 22:
		return &t.WWSSubfamily
	case 23:
		return &t.LightBackgroundPalette
	case 24:
		return &t.DarkBackgroundPalette
	case 25:
		return &t.VariationsPostScriptName
	}
	return nil
}

func get(t *name.Table, id uint16) string {
	if id <= 25 {
		if p := field(t, int(vsym.Concrete(int(id)))); p != nil {
			return *p
		}
	}
	return t.Extra[name.ID(id)]
}

func set(t *name.Table, id uint16, s string) {
	if id <= 25 {
		if p := field(t, int(vsym.Concrete(int(id)))); p != nil {
			*p = s
			return
		}
	}
	if t.Extra == nil {
		t.Extra = map[name.ID]string{}
	}
	t.Extra[name.ID(id)] = s
}

// count is the number of names in a table.
func count(t *name.Table) int {
	n := 0
	for i := 0; i <= 25; i++ {
		if p := field(t, i); p != nil && *p != "" {
			n++
		}
	}
	return n + len(t.Extra)
}

// record is a name record with its string.
type record struct {
	plat, enc, lang, id uint16
	val                 []byte
}

func less(a, b *record) bool {
	if a.plat != b.plat {
		return a.plat < b.plat
	}
	if a.enc != b.enc {
		return a.enc < b.enc
	}
	if a.lang != b.lang {
		return a.lang < b.lang
	}
	return a.id < b.id
}

// parse is an independent reader for version 0 tables.
func parse(data []byte) []*record {
	vsym.Assert(len(data) >= 6, "name: table too short")
	vsym.Assert(hx.U16(data, 0) == 0, "name: version")
	n := hx.U16(data, 2)
	base := hx.U16(data, 4)
	vsym.Assert(base >= 6+12*n && base <= len(data), "name: storage offset")
	res := make([]*record, n)
	for i := range res {
		p := 6 + 12*i
		r := &record{uint16(hx.U16(data, p)), uint16(hx.U16(data, p+2)), uint16(hx.U16(data, p+4)), uint16(hx.U16(data, p+6)), nil}
		l := hx.U16(data, p+8)
		o := hx.U16(data, p+10)
		vsym.Assert(base+o+l <= len(data), "name: string outside the table")
		r.val = data[base+o : base+o+l]
		if i > 0 {
			vsym.Assert(less(res[i-1], r), "name: records not sorted")
		}
		res[i] = r
	}
	return res
}

// entry is one name of the info under test.
type entry struct {
	win  bool
	lang int // index into winLangs or macLangs
	id   uint16
	s    []rune // the string as runes
	b    []byte // the encoded string
}

func (e *entry) tag() lang {
	if e.win {
		return winLangs[e.lang]
	}
	return macLangs[e.lang]
}

// utf16 is the reference encoder.
func utf16(s []rune) []byte {
	var b []byte
	for _, r := range s {
		if r < 0x10000 {
			b = append(b, byte(r>>8), byte(r))
		} else {
			x := r - 0x10000
			h := 0xd800 + x>>10
			l := 0xdc00 + x&0x3ff
			b = append(b, byte(h>>8), byte(h), byte(l>>8), byte(l))
		}
	}
	return b
}

// same compares the language tags, as far as the meaning of the language
// identifiers is concerned.
func same(got, want string) bool {
	if got == want {
		return true
	}
	g := strings.Split(got, "-")
	w := strings.Split(want, "-")
	if g[0] != w[0] {
		return false
	}
	for _, x := range w[1:] {
		ok := false
		for _, y := range g[1:] {
			ok = ok || x == y
		}
		if !ok {
			return false
		}
	}
	return true
}

// key finds the tag the library uses for a language.
func key(l lang, win bool) string {
	rec := &record{plat: 1, lang: l.id, val: []byte("X")}
	if win {
		rec = &record{plat: 3, enc: 1, lang: l.id, val: []byte{0, 'X'}}
	}
	info, err := name.Decode(build([]*record{rec}, 0))
	vsym.Assert(err == nil, "name: probe rejected")
	tt, other := info.Mac, info.Windows
	if win {
		tt, other = info.Windows, info.Mac
	}
	vsym.Assert(len(other) == 0, "name: name on the wrong platform")
	vsym.Assert(len(tt) == 1, "name: language lost")
	for k, t := range tt {
		vsym.Assert(get(t, 0) == "X" && count(t) == 1, "name: wrong name")
		return k
	}
	return ""
}

// build is an independent writer.
func build(rr []*record, gap int) []byte {
	var store []byte
	n := len(rr)
	base := 6 + 12*n + gap
	data := []byte{0, 0, byte(n >> 8), byte(n), byte(base >> 8), byte(base)}
	for _, r := range rr {
		l, o := len(r.val), len(store)
		data = append(data, byte(r.plat>>8), byte(r.plat), byte(r.enc>>8), byte(r.enc), byte(r.lang>>8), byte(r.lang),
			byte(r.id>>8), byte(r.id), byte(l>>8), byte(l), byte(o>>8), byte(o))
		store = append(store, r.val...)
	}
	for i := 0; i < gap; i++ {
		data = append(data, 0xaa)
	}
	return append(data, store...)
}

// tables has the names by platform and tag.
func tables(ee []*entry, keys []string) *name.Info {
	info := &name.Info{Mac: name.Tables{}, Windows: name.Tables{}}
	for i, e := range ee {
		tt := info.Mac
		if e.win {
			tt = info.Windows
		}
		t := tt[keys[i]]
		if t == nil {
			t = &name.Table{}
			tt[keys[i]] = t
		}
		set(t, e.id, string(e.s))
	}
	return info
}

// roundtrip checks the names, which must be distinct (platform, language, ID).
func roundtrip(ee []*entry) {
	keys := make([]string, len(ee))
	for i, e := range ee {
		keys[i] = key(e.tag(), e.win)
		vsym.Assert(same(keys[i], e.tag().tag), "name: wrong language tag")
	}
	data := tables(ee, keys).Encode(1)
	rr := parse(data)
	vsym.Assert(len(rr) == len(ee), "name: wrong number of records")
	for _, e := range ee {
		plat, enc := uint16(1), uint16(0)
		if e.win {
			plat, enc = 3, 1
		}
		found := 0
		for _, r := range rr {
			if vsym.And(vsym.And(r.plat == plat, r.enc == enc), vsym.And(r.lang == e.tag().id, r.id == e.id)) {
				vsym.Assert(vsym.EqBytes(r.val, e.b), "name: wrong string in the file")
				found++
			}
		}
		vsym.Assert(found == 1, "name: record not found")
	}
	info, err := name.Decode(data)
	vsym.Assert(err == nil, "name: own output rejected")
	n := 0
	for _, tt := range []name.Tables{info.Mac, info.Windows} {
		for _, t := range tt {
			n += count(t)
		}
	}
	vsym.Assert(n == len(ee), "name: wrong number of names")
	for i, e := range ee {
		tt := info.Mac
		if e.win {
			tt = info.Windows
		}
		t := tt[keys[i]]
		vsym.Assert(t != nil, "name: table lost")
		vsym.Assert(get(t, e.id) == string(e.s), "name: string changed")
	}
}

// text makes a string with n arbitrary characters.
func text(win bool, n int) ([]rune, []byte) {
	if !win {
		b := vsym.Bytes(n)
		s := make([]rune, n)
		for i, c := range b {
			s[i] = rune8(c)
		}
		return s, b
	}
	s := make([]rune, n)
	for i := range s {
		r := rune(vsym.Int32())
		switch vsym.Choose(3) {
		case 0:
			vsym.Assume(vsym.And(r >= 0, r < 0xd800))
		case 1:
			vsym.Assume(vsym.And(r >= 0xe000, r < 0x10000))
		case 2:
			vsym.Assume(vsym.And(r >= 0x10000, r < 0x110000))
		}
		s[i] = r
	}
	return s, utf16(s)
}

// H_NameText: arbitrary strings.
//
//gosym: quick=12 thorough=120
func H_NameText() {
	win := vsym.Bool()
	n := 1 + int(vsym.Choose(3))
	s, b := text(win, n)
	id := []uint16{0, 4, 15, 25, 26, 65535}[vsym.Choose(6)]
	roundtrip([]*entry{{win, 1, id, s, b}})
}

// H_NameID: arbitrary name IDs, in two languages.
//
//gosym: quick=12 thorough=60
func H_NameID() {
	win := vsym.Bool()
	id := vsym.Uint16()
	id2 := vsym.Uint16()
	vsym.Assume(id < id2)
	x := []rune("first")
	y := []rune("second")
	enc := func(s []rune) []byte {
		if win {
			return utf16(s)
		}
		return []byte(string(s))
	}
	ee := []*entry{{win, 3, id, x, enc(x)}, {win, 3, id2, y, enc(y)}}
	if vsym.Bool() {
		ee = append(ee, &entry{win, 0, id, y, enc(y)})
	} else {
		ee = append(ee, &entry{!win, 0, id, []rune("z"), map[bool][]byte{true: {'z'}, false: {0, 'z'}}[win]})
	}
	roundtrip(ee)
}

// H_NameLang: every language on both platforms.
//
//gosym: quick=10 thorough=30
func H_NameLang() {
	win := vsym.Bool()
	var i int
	if win {
		i = int(vsym.Choose(len(winLangs)))
	} else {
		i = int(vsym.Choose(len(macLangs)))
	}
	s, b := text(win, 1)
	j := (i + 1 + 10*int(vsym.Choose(3))) % 118
	roundtrip([]*entry{{win, i, 1, s, b}, {win, j, 1, []rune("q"), map[bool][]byte{false: {'q'}, true: {0, 'q'}}[win]}})
}

// H_NameAll: all languages and many name IDs in one table.
//
//gosym: quick=4 thorough=20
func H_NameAll() {
	var ee []*entry
	ids := []uint16{0, 1, 2, 4, 6, 15, 17, 25, 256, 40000}
	k := int(vsym.Choose(len(ids)))
	for i := range winLangs {
		s := []rune(winLangs[i].tag + string(rune('A'+i%3)))
		if i%7 == 0 {
			s = []rune("shared")
		}
		ee = append(ee, &entry{true, i, ids[(i+k)%len(ids)], s, utf16(s)})
	}
	for i := range macLangs {
		s := []rune(macLangs[i].tag)
		if i%7 == 0 {
			s = []rune("shared")
		}
		ee = append(ee, &entry{false, i, ids[(i+k)%len(ids)], s, []byte(string(s))})
	}
	roundtrip(ee)
}

// H_NameShared: strings which share their bytes, across platforms.
//
//gosym: quick=10 thorough=60
func H_NameShared() {
	var ee []*entry
	b := vsym.Bytes(2)
	vsym.Assume(vsym.And(b[0] != 0, b[0] < 0xd8))
	// the same two bytes are one UTF-16 unit or two Mac Roman characters
	u := []rune{rune(b[0])<<8 | rune(b[1])}
	m := []rune{rune8(b[0]), rune8(b[1])}
	ee = append(ee, &entry{true, 5, 1, u, utf16(u)})
	ee = append(ee, &entry{false, 5, 1, m, b})
	// another string over the same alphabet
	n := 1 + int(vsym.Choose(3))
	c := vsym.Bytes(n)
	s := make([]rune, n)
	for i := range s {
		s[i] = rune8(c[i])
	}
	ee = append(ee, &entry{false, 5, 2, s, c})
	if vsym.Bool() {
		ee = append(ee, &entry{true, 7, 1, u, utf16(u)})
	}
	roundtrip(ee)
}

// H_NameLong: long strings, up to the largest length and storage which the
// format can hold.
//
//gosym: quick=10 thorough=40 steps=60000000
func H_NameLong() {
	long := func(win bool, n int) ([]rune, []byte) {
		s := make([]rune, n)
		b := make([]byte, n)
		for i := range s {
			b[i] = 'a' + byte(i%26)
			s[i] = rune(b[i])
		}
		x := vsym.Byte()
		vsym.Assume(vsym.And(x >= 32, x < 127))
		b[n-1] = x
		s[n-1] = rune(x)
		if win {
			return s, utf16(s)
		}
		return s, b
	}
	type d struct {
		win bool
		n   int
	}
	dd := [][]d{{{true, 127}}, {{true, 128}}, {{true, 16384}}, {{true, 32767}}, {{false, 255}}, {{false, 256}}, {{false, 65535}},
		{{true, 32000}, {false, 1500}, {true, 2}},
		{{false, 100}, {true, 300}, {false, 32768}, {true, 10000}}}
	var ee []*entry
	for i, x := range dd[vsym.Choose(len(dd))] {
		s, b := long(x.win, x.n)
		ee = append(ee, &entry{x.win, 2, uint16(1 + i), s, b})
	}
	roundtrip(ee)
}

// H_NameBig: strings which need more storage than the format can address.
//
//gosym: quick=20 thorough=20 steps=60000000
func H_NameBig() {
	var ee []*entry
	for i := 0; i < 3; i++ {
		n := 32767
		if i == 2 {
			n = 1
		}
		ee = append(ee, &entry{true, 2, uint16(1 + i), []rune(strings.Repeat(string(rune('a'+i)), n)), nil})
	}
	big(ee)
}

func big(ee []*entry) {
	keys := make([]string, len(ee))
	for i, e := range ee {
		keys[i] = key(e.tag(), e.win)
	}
	data := tables(ee, keys).Encode(1)
	info, err := name.Decode(data)
	vsym.Assert(err == nil, "name: storage overflow: own output rejected")
	for i, e := range ee {
		t := info.Windows[keys[i]]
		vsym.Assert(t != nil && get(t, e.id) == string(e.s), "name: storage overflow: string changed")
	}
}

// H_NameRead: tables written by others.
//
//gosym: quick=14 thorough=120
func H_NameRead() {
	n := 1 + int(vsym.Choose(2))
	plats := []uint16{0, 1, 2, 3, 4}
	type exp struct {
		win  bool
		lang int
		id   uint16
		s    string
	}
	var rr []*record
	var want []exp
	for i := 0; i < n; i++ {
		r := &record{plat: plats[vsym.Choose(5)], enc: uint16(vsym.Choose(4))}
		r.id = []uint16{1, 15, 300}[vsym.Choose(3)]
		switch r.plat {
		case 1:
			k := int(vsym.Choose(4))
			r.lang = []uint16{0, 5, 94, 95}[k]
			r.val = vsym.Bytes(1 + int(vsym.Choose(2)))
			if r.enc == 0 && k < 3 {
				s := make([]rune, len(r.val))
				for i, c := range r.val {
					s[i] = rune8(c)
				}
				want = append(want, exp{false, k, r.id, string(s)})
			}
		case 3:
			k := int(vsym.Choose(4))
			r.lang = []uint16{0x436, 0x409, 0x46a, 0x8000}[k]
			c := vsym.Bytes(2)
			vsym.Assume(vsym.Or(c[0] < 0xd8, c[0] >= 0xe0))
			r.val = c
			if r.enc == 1 && k < 3 {
				want = append(want, exp{true, k, r.id, string([]rune{rune(c[0])<<8 | rune(c[1])})})
			}
		default:
			r.lang = 0
			r.val = vsym.Bytes(2)
		}
		if i > 0 && !less(rr[i-1], r) {
			vsym.Assume(false)
		}
		rr = append(rr, r)
	}
	data := build(rr, int(vsym.Choose(2)))
	info, err := name.Decode(data)
	vsym.Assert(err == nil, "name: valid table rejected")
	total := 0
	for _, tt := range []name.Tables{info.Mac, info.Windows} {
		for _, t := range tt {
			total += count(t)
		}
	}
	other := 0
	for _, r := range rr {
		if r.plat == 3 && r.enc != 1 {
			other++ // may be decoded or ignored
		}
	}
	vsym.Assert(total >= len(want) && total <= len(want)+other, "name: wrong number of names read")
	for _, w := range want {
		tt, k := info.Mac, key(lang{id: []uint16{0, 5, 94, 95}[w.lang]}, false)
		if w.win {
			tt, k = info.Windows, key(lang{id: []uint16{0x436, 0x409, 0x46a, 0x8000}[w.lang]}, true)
		}
		t := tt[k]
		vsym.Assert(t != nil, "name: table not read")
		vsym.Assert(get(t, w.id) == w.s, "name: wrong string read")
	}
}

// H_LangID: arbitrary language identifiers.
//
//gosym: quick=10 thorough=40
func H_LangID() {
	win := vsym.Bool()
	id := vsym.Uint16()
	rec := &record{plat: 1, lang: id, val: []byte("X")}
	ref := macLangs
	if win {
		rec = &record{plat: 3, enc: 1, lang: id, val: []byte{0, 'X'}}
		ref = winLangs
	}
	info, err := name.Decode(build([]*record{rec}, 0))
	vsym.Assert(err == nil, "name: valid table rejected")
	tt := info.Mac
	if win {
		tt = info.Windows
	}
	known := false
	for _, l := range ref {
		known = vsym.Or(known, id == l.id)
	}
	vsym.Assert(vsym.Implies(known, len(tt) == 1), "name: supported language lost")
	vsym.Assert(len(info.Mac)+len(info.Windows) <= 1, "name: too many tables")
	if len(tt) == 0 {
		return
	}
	rr := parse(info.Encode(1))
	vsym.Assert(len(rr) == 1, "name: language identifier not recovered")
	vsym.Assert(vsym.And(rr[0].lang == id, rr[0].plat == rec.plat), "name: language identifier changed")
}

// H_Choose: the table for a language can be selected.
//
//gosym: quick=12 thorough=60
func H_Choose() {
	win := vsym.Bool()
	ref := macLangs
	if win {
		ref = winLangs
	}
	i := int(vsym.Choose(len(ref)))
	k := key(ref[i], win)
	tag, err := language.Parse(k)
	vsym.Assert(err == nil, "name: language tag cannot be parsed")
	t := &name.Table{Family: "X"}
	tt := name.Tables{k: t}
	got, _ := tt.Choose(tag)
	vsym.Assert(got == t, "name: table not selected")
	if vsym.Bool() {
		o := []string{"en", "de", "ja-JP", "zh-TW"}[vsym.Choose(4)]
		if o[:2] == k[:2] {
			return
		}
		tt[o] = &name.Table{Family: "Y", Subfamily: "Y"}
		got, conf := tt.Choose(tag)
		vsym.Assert(conf == language.Exact && got == t, "name: wrong table selected")
	}
}
