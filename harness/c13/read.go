package c13

import (
	"bytes"
	"strconv"

	"seehuhn.de/go/geom/matrix"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/t2"
	"seehuhn.de/go/sfnt/internal/vsym"
)

func endchars(n int) [][]byte {
	res := make([][]byte, n)
	for i := range res {
		res[i] = []byte{byte(139 + i%100), 14}
	}
	return res
}

// read decodes the file with both readers.
func read(data []byte, label string) (*cff.Font, *t2.Parsed, bool) {
	p, msg := t2.Parse(data)
	b, err := cff.Read(bytes.NewReader(data))
	if msg != "" {
		vsym.Reach("malformed")
		return nil, nil, false
	}
	vsym.Reach("well-formed")
	if err != nil {
		vsym.Fail(label + ": rejected: " + err.Error())
	}
	return b, p, true
}

// again checks that the font survives writing and reading.
func again(b *cff.Font, label string) {
	check(b, label+" (written)")
}

// operand is an arbitrary number in one of the integer forms.
func operand() []byte {
	switch vsym.Choose(4) {
	case 0:
		b := vsym.Byte()
		vsym.Assume(vsym.And(b >= 32, b <= 246))
		return []byte{b}
	case 1:
		b := vsym.Byte()
		vsym.Assume(vsym.And(b >= 247, b <= 254))
		return []byte{b, vsym.Byte()}
	case 2:
		return append([]byte{28}, vsym.Bytes(2)...)
	}
	return append([]byte{29}, vsym.Bytes(4)...)
}

func value(op []byte) int {
	b := int(op[0])
	switch {
	case b == 28:
		return int(int16(uint16(op[1])<<8 | uint16(op[2])))
	case b == 29:
		return int(int32(uint32(op[1])<<24 | uint32(op[2])<<16 | uint32(op[3])<<8 | uint32(op[4])))
	case b <= 246:
		return b - 139
	case b <= 250:
		return (b-247)*256 + int(op[1]) + 108
	}
	return -(b-251)*256 - int(op[1]) - 108
}

// H_ReadInts: integers in every form.
//
//gosym: quick=6 thorough=60
func H_ReadInts() {
	a, b := operand(), operand()
	var priv []byte
	k := vsym.Choose(3)
	switch k {
	case 0:
		priv = t2.Cat(a, []byte{12, 10}, b, []byte{12, 11})
	case 1:
		vsym.Assume(vsym.And(value(a) >= -16000, value(a) <= 16000))
		vsym.Assume(vsym.And(value(b) >= -16000, value(b) <= 16000))
		priv = t2.Cat(a, b, []byte{6})
	case 2:
		priv = t2.Cat(a, []byte{20}, b, []byte{21})
	}
	glyphs := endchars(2)
	glyphs[1] = []byte{14}
	w := &t2.Raw{Glyphs: glyphs, Private: [][]byte{priv}, HdrPad: int(vsym.Choose(2))}
	f, _, ok := read(w.Build(), "ints")
	vsym.Assert(ok, "ints: reference reader fails")
	p := f.Private[0]
	switch k {
	case 0:
		vsym.Assert(p.BlueShift == int32(value(a)), "ints: BlueShift")
		vsym.Assert(p.BlueFuzz == int32(value(b)), "ints: BlueFuzz")
	case 1:
		vsym.Assert(len(p.BlueValues) == 2, "ints: number of BlueValues")
		vsym.Assert(int(p.BlueValues[0]) == value(a), "ints: BlueValues[0]")
		vsym.Assert(int(p.BlueValues[1]) == value(a)+value(b), "ints: BlueValues[1]")
	case 2:
		vsym.Assert(f.Glyphs[0].Width == float64(value(b)), "ints: nominalWidthX")
		vsym.Assert(f.Glyphs[1].Width == float64(value(a)), "ints: defaultWidthX")
	}
}

// real encodes a real number.
func real(s string) []byte {
	var nib []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			nib = append(nib, c-'0')
		case c == '.':
			nib = append(nib, 10)
		case c == 'E' && i+1 < len(s) && s[i+1] == '-':
			nib = append(nib, 12)
			i++
		case c == 'E':
			nib = append(nib, 11)
		case c == '-':
			nib = append(nib, 14)
		}
	}
	nib = append(nib, 15)
	if len(nib)%2 != 0 {
		nib = append(nib, 15)
	}
	res := []byte{30}
	for i := 0; i < len(nib); i += 2 {
		res = append(res, nib[i]<<4|nib[i+1])
	}
	return res
}

// H_ReadReals: real numbers where integers are more common, integers where
// real numbers are more common.
//
//gosym: quick=4 thorough=20
func H_ReadReals() {
	list := []string{"0", "1", "0.001", ".001", "1E-3", "10E-4", "0.000488281", "0.5", "-0.001", "12.25E2", "-1E2", "100000E-5", "00012.50", "1.0E3"}
	s := list[vsym.Choose(len(list))]
	x, _ := strconv.ParseFloat(s, 64)
	i := operand()
	num := func(s string) []byte {
		if k, err := strconv.Atoi(s); err == nil && vsym.Choose(2) == 1 {
			return t2.Short(k)
		}
		return real(s)
	}
	w := &t2.Raw{Glyphs: endchars(2), Private: [][]byte{nil}}
	isCID := vsym.Choose(2) == 1
	want := matrix.Matrix{x, 0, 0.25, float64(value(i)), -1, x}
	m := t2.Cat(num(s), num("0"), real("0.25"), i, num("-1"), num(s), []byte{12, 7})
	switch vsym.Choose(3) {
	case 0: // font matrix
		if isCID {
			w.IsCID = true
			w.Strings = [][]byte{[]byte("Adobe"), []byte("Identity")}
			w.Top = t2.Cat(t2.Short(391), t2.Short(392), t2.Short(0), []byte{12, 30})
			w.Charset = []byte{0, 0, 7}
			w.FDSelect = []byte{0, 0, 0}
			w.FontDict = [][]byte{m}
			f, _, _ := read(w.Build(), "matrix")
			for k, v := range want {
				vsym.Assert(digits9(f.FontMatrices[0][k], v), "reals: matrix of a font DICT")
			}
			return
		}
		w.Top = m
		f, _, _ := read(w.Build(), "matrix")
		for k, v := range want {
			vsym.Assert(digits9(f.FontMatrix[k], v), "reals: font matrix")
		}
	case 1:
		w.Private[0] = t2.Cat(num(s), []byte{20}, i, []byte{21})
		w.Glyphs[1] = []byte{14}
		f, _, _ := read(w.Build(), "widths")
		vsym.Assert(f.Glyphs[0].Width == float64(value(i)), "reals: nominal width")
		vsym.Assert(digits9(f.Glyphs[1].Width, x), "reals: default width")
	case 2:
		w.Top = t2.Cat(num(s), []byte{12, 3}, num(s), []byte{12, 4}, num(s), []byte{12, 1})
		f, _, _ := read(w.Build(), "underline")
		vsym.Assert(digits9(float64(f.UnderlinePosition), x), "reals: underline position")
		vsym.Assert(digits9(float64(f.UnderlineThickness), x), "reals: underline thickness")
	}
}

// H_ReadPredefined: the predefined charsets and encodings.
//
//gosym: quick=6 thorough=30 conc=3000000
func H_ReadPredefined() {
	cs := int(vsym.Choose(3))
	all := t2.PredefinedCharset(cs)
	n := []int{1, 2, 20, len(all) - 1, len(all)}[vsym.Choose(5)]
	w := &t2.Raw{Glyphs: endchars(n), Private: [][]byte{nil}, CharsetID: cs, EncodingID: int(vsym.Choose(2))}
	f, _, ok := read(w.Build(), "predefined")
	vsym.Assert(ok, "predefined: reference reader fails")
	sids := t2.StandardEncoding()
	if w.EncodingID == 1 {
		sids = t2.ExpertEncoding()
	}
	enc := predefined(sids, all[:n])
	for i := 0; i < n; i++ {
		vsym.Assert(f.Glyphs[i].Name == t2.StdName(all[i]), "predefined: glyph name")
	}
	for c := range enc {
		vsym.Assert(f.Encoding[c] == enc[c], "predefined: encoding")
	}
	again(f, "predefined")
}

// H_ReadCharset: charset data of every format.
//
//gosym: quick=8 thorough=90
func H_ReadCharset() {
	n := 1 + int(vsym.Choose(6))
	format := byte(vsym.Choose(3))
	cs := []byte{format}
	for got := 1; got < n; {
		first := vsym.Bytes(2)
		vsym.Assume(vsym.Or(first[0] != 0, first[1] != 0))
		cs = append(cs, first...)
		got++
		if format > 0 {
			k := int(vsym.Choose(n - got + 1))
			if format == 2 {
				cs = append(cs, 0)
			}
			cs = append(cs, byte(k))
			got += k
		}
	}
	w := &t2.Raw{
		Glyphs:   endchars(n),
		Private:  [][]byte{nil},
		Strings:  [][]byte{[]byte("Adobe"), []byte("Identity")},
		IsCID:    true,
		Top:      t2.Cat(t2.Short(391), t2.Short(392), t2.Short(0), []byte{12, 30}),
		FDSelect: append([]byte{0}, make([]byte, n)...),
		Charset:  cs,
	}
	// the last CID of a range must exist
	p, msg := t2.Parse(w.Build())
	vsym.Assert(msg == "", "charset: reference reader: "+msg)
	for _, c := range p.Charset {
		vsym.Assume(c < 65536)
	}
	f, p, _ := read(w.Build(), "charset")
	for i := range f.Glyphs {
		vsym.Assert(int(f.GIDToCID[i]) == p.Charset[i], "charset: CID")
	}
}

// H_ReadEncoding: encoding data of every format.
//
//gosym: quick=10 thorough=120
func H_ReadEncoding() {
	n := 5
	used := make([]bool, 256)
	window := []int{0, 60, 250}[vsym.Choose(3)]
	code := func() byte {
		c := byte(window + int(vsym.Choose(6)))
		vsym.Assume(!used[c])
		used[c] = true
		return c
	}
	var enc []byte
	k := int(vsym.Choose(n))
	if vsym.Choose(2) == 0 {
		enc = []byte{0, byte(k)}
		for i := 0; i < k; i++ {
			enc = append(enc, code())
		}
	} else {
		enc = []byte{1, 0}
		for got := 0; got < k; {
			left := int(vsym.Choose(k - got))
			c := code()
			for j := 1; j <= left; j++ {
				vsym.Assume(int(c)+j < 256)
				vsym.Assume(!used[int(c)+j])
				used[int(c)+j] = true
			}
			enc = append(enc, c, byte(left))
			enc[1]++
			got += left + 1
		}
	}
	if sup := int(vsym.Choose(3)); sup > 0 && k > 0 {
		enc[0] |= 128
		enc = append(enc, byte(sup))
		for i := 0; i < sup; i++ {
			enc = append(enc, code(), 0, byte(34+int(vsym.Choose(k))))
		}
	}
	w := &t2.Raw{Glyphs: endchars(n), Private: [][]byte{nil}, Encoding: enc, Charset: []byte{2, 0, 34, 0, byte(n - 2)}}
	f, p, ok := read(w.Build(), "encoding")
	vsym.Assert(ok, "encoding: reference reader fails")
	for c, g := range p.Encoding {
		vsym.Assert(f.Encoding[c] == glyph.ID(g), "encoding")
	}
	again(f, "encoding")
}

// H_ReadFDSelect: FDSelect data of both formats.
//
//gosym: quick=10 thorough=120
func H_ReadFDSelect() {
	n := 1 + int(vsym.Choose(5))
	nFD := 1 + int(vsym.Choose(3))
	var sel []byte
	if vsym.Choose(2) == 0 {
		sel = append([]byte{0}, vsym.Bytes(n)...)
	} else {
		k := 1 + int(vsym.Choose(3))
		sel = []byte{3, 0, byte(k)}
		for i := 0; i < k; i++ {
			sel = append(sel, 0, vsym.Byte(), vsym.Byte())
		}
		sel = append(sel, 0, byte(n))
	}
	w := &t2.Raw{
		Glyphs:   endchars(n),
		Strings:  [][]byte{[]byte("Adobe"), []byte("Identity")},
		IsCID:    true,
		Top:      t2.Cat(t2.Short(391), t2.Short(392), t2.Short(5), []byte{12, 30}),
		FDSelect: sel,
		Charset:  []byte{2, 0, 1, 0, byte(n - 2)},
	}
	if n == 1 {
		w.Charset = []byte{0}
	}
	for i := 0; i < nFD; i++ {
		w.Private = append(w.Private, t2.Cat(t2.Short(20*i), []byte{12, 10}, t2.Short(1000*i), []byte{21}))
	}
	data := w.Build()
	f, p, ok := read(data, "fdselect")
	if !ok {
		return
	}
	vsym.Assert(f.ROS.Supplement == 5, "fdselect: supplement")
	for i := range f.Glyphs {
		fd := f.FDSelect(glyph.ID(i))
		vsym.Assert(fd == p.Select[i], "fdselect: font DICT of a glyph")
		vsym.Assert(f.Glyphs[i].Width == float64(i+1000*fd), "fdselect: width")
	}
	for i := range f.Private {
		vsym.Assert(f.Private[i].BlueShift == int32(20*i), "fdselect: private DICT")
	}
}

// H_ReadIndex: offset sizes of an INDEX larger than needed.
//
//gosym: quick=4 thorough=20
func H_ReadIndex() {
	size := 1 + int(vsym.Choose(4))
	n := 1 + int(vsym.Choose(3))
	var strs [][]byte
	for i := 0; i < n; i++ {
		strs = append(strs, vsym.Bytes(int(vsym.Choose(3))))
	}
	w := &t2.Raw{Glyphs: endchars(n + 1), Private: [][]byte{nil}, Strings: strs, Charset: []byte{1, 1, 135, byte(n - 1)}, HdrPad: int(vsym.Choose(3))}
	data := w.Build()
	// replace the string INDEX
	old := t2.Index(strs)
	idx := []byte{0, byte(n), byte(size)}
	off := 1
	for i := 0; i <= n; i++ {
		for k := size - 1; k >= 0; k-- {
			idx = append(idx, byte(off>>(8*k)))
		}
		if i < n {
			off += len(strs[i])
		}
	}
	for _, s := range strs {
		idx = append(idx, s...)
	}
	delta := len(idx) - len(old)
	w.HdrPad += delta
	ref := w.Build()
	// same layout as ref, but with the longer INDEX in place of the padding
	pos := 4 + w.HdrPad - delta
	head := data[:pos]
	names := t2.Index([][]byte{[]byte("Test")})
	rest := ref[4+w.HdrPad:]
	topLen := int(rest[len(names)+4]) - 1 + 5
	front := rest[:len(names)+topLen]
	back := rest[len(names)+topLen+len(old):]
	f, _, ok := read(t2.Cat(head, front, idx, back), "index")
	vsym.Assert(ok, "index: reference reader fails")
	for i, s := range strs {
		vsym.Assert(f.Glyphs[i+1].Name == string(s), "index: glyph name")
	}
}
