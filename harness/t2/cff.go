package t2

import (
	"math"
	"strconv"
)

// ---- building ----

// Index encodes a CFF INDEX.
func Index(items [][]byte) []byte {
	if len(items) == 0 {
		return []byte{0, 0}
	}
	total := 1
	for _, it := range items {
		total += len(it)
	}
	size := 1
	for total >= 1<<(8*size) {
		size++
	}
	res := make([]byte, 0, 3+size*(len(items)+1)+total)
	res = append(res, byte(len(items)>>8), byte(len(items)), byte(size))
	pos := 1
	for i := 0; i <= len(items); i++ {
		for k := size - 1; k >= 0; k-- {
			res = append(res, byte(pos>>(8*k)))
		}
		if i < len(items) {
			pos += len(items[i])
		}
	}
	for _, it := range items {
		res = append(res, it...)
	}
	return res
}

// Int5 encodes a DICT operand using five bytes.
func Int5(x int) []byte {
	return []byte{29, byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

// Short encodes a number using three bytes; this works both in DICTs and in
// charstrings.
func Short(x int) []byte {
	return []byte{28, byte(x >> 8), byte(x)}
}

// Cat concatenates byte strings.
func Cat(parts ...[]byte) []byte {
	var res []byte
	for _, p := range parts {
		res = append(res, p...)
	}
	return res
}

// FD describes one private DICT.
type FD struct {
	Default, Nominal []byte // encoded operands, nil for missing
	Subrs            [][]byte
}

// Private encodes a private DICT followed by its subroutines.
func (fd *FD) Private() (dict, subrs []byte) {
	if fd.Default != nil {
		dict = append(append(dict, fd.Default...), 20)
	}
	if fd.Nominal != nil {
		dict = append(append(dict, fd.Nominal...), 21)
	}
	if fd.Subrs != nil {
		dict = append(dict, Int5(len(dict)+6+3)...) // three bytes of padding before the Subrs INDEX
		dict = append(dict, 19)
		subrs = append([]byte{0xEE, 0xEE, 0xEE}, Index(fd.Subrs)...)
	}
	return dict, subrs
}

// Simple builds a simple CFF font.
func Simple(glyphs [][]byte, global [][]byte, fd *FD) []byte {
	names := Index([][]byte{[]byte("Test")})
	gs := Index(global)
	cs := Index(glyphs)
	priv, subrs := fd.Private()
	topLen := 6 + 11
	pos := 4 + len(names) + (5 + topLen) + 2 + len(gs)
	top := Cat(Int5(pos), []byte{17}, Int5(len(priv)), Int5(pos+len(cs)), []byte{18})
	return Cat([]byte{1, 0, 4, 4}, names, Index([][]byte{top}), Index(nil), gs, cs, priv, subrs)
}

// CID builds a CID-keyed font with identity charset.
func CID(glyphs [][]byte, global [][]byte, fds []*FD, sel []byte) []byte {
	names := Index([][]byte{[]byte("Test")})
	gs := Index(global)
	cs := Index(glyphs)
	strs := Index([][]byte{[]byte("Adobe"), []byte("Identity")})
	topLen := len(Short(391))*2 + 3 + 2 + 6 + 6 + 7 + 7
	pos := 4 + len(names) + (5 + topLen) + len(strs) + len(gs)
	charset := []byte{2, 0, 1, byte((len(glyphs) - 2) >> 8), byte(len(glyphs) - 2)}
	fdsel := append([]byte{0}, sel...)
	csPos := pos
	setPos := csPos + len(cs)
	selPos := setPos + len(charset)
	fdPos := selPos + len(fdsel)
	fdaLen := 2 + 1 + (len(fds)+1)*1 + 11*len(fds)
	privPos := fdPos + fdaLen
	var dicts [][]byte
	var privs []byte
	for _, fd := range fds {
		p, s := fd.Private()
		dicts = append(dicts, Cat(Int5(len(p)), Int5(privPos+len(privs)), []byte{18}))
		privs = Cat(privs, p, s)
	}
	top := Cat(Short(391), Short(392), Short(0), []byte{12, 30},
		Int5(setPos), []byte{15},
		Int5(csPos), []byte{17},
		Int5(fdPos), []byte{12, 36},
		Int5(selPos), []byte{12, 37})
	return Cat([]byte{1, 0, 4, 4}, names, Index([][]byte{top}), strs, gs, cs, charset, fdsel, Index(dicts), privs)
}

// ---- reading ----

// Dict is a decoded DICT.  Two-byte operators are stored as 256+second byte.
type Dict map[int][]float64

// Parsed is the structure of a CFF file.
type Parsed struct {
	Names, Strings, Global [][]byte
	Top                    Dict
	Glyphs                 [][]byte
	Charset                []int // one entry per glyph, including glyph 0
	CharsetFormat          int
	FD                     []*ParsedFD
	Select                 []int // one entry per glyph
	Encoding               [256]int
	EncodingOffset         int
	OffSize                int
}

// ParsedFD is a font DICT with its private DICT.
type ParsedFD struct {
	Font, Private    Dict
	Default, Nominal float64
	Subrs            [][]byte
}

// Err is set by the reading functions to describe the first problem.
type reader struct {
	data []byte
	err  string
}

func (r *reader) fail(msg string) {
	if r.err == "" {
		r.err = msg
	}
}

func (r *reader) at(pos int) int {
	if pos < 0 || pos >= len(r.data) {
		r.fail("offset outside the file")
		return 0
	}
	return int(r.data[pos])
}

func (r *reader) index(pos int) (items [][]byte, end int) {
	n := r.at(pos)<<8 | r.at(pos+1)
	if n == 0 || r.err != "" {
		return nil, pos + 2
	}
	size := r.at(pos + 2)
	if size < 1 || size > 4 {
		r.fail("bad offSize")
		return nil, pos
	}
	offs := make([]int, n+1)
	for i := range offs {
		for k := 0; k < size; k++ {
			offs[i] = offs[i]<<8 | r.at(pos+3+i*size+k)
		}
		if i == 0 && offs[0] != 1 || i > 0 && offs[i] < offs[i-1] {
			r.fail("bad INDEX offsets")
			return nil, pos
		}
	}
	base := pos + 3 + (n+1)*size - 1
	if base+offs[n] > len(r.data) {
		r.fail("INDEX data outside the file")
		return nil, pos
	}
	items = make([][]byte, n)
	for i := range items {
		items[i] = r.data[base+offs[i] : base+offs[i+1]]
	}
	return items, base + offs[n]
}

func (r *reader) dict(data []byte) Dict {
	res := Dict{}
	var args []float64
	for len(data) > 0 {
		b := int(data[0])
		data = data[1:]
		need := 0
		switch {
		case b == 28:
			need = 2
		case b == 29:
			need = 4
		case b >= 247 && b <= 254 || b == 12:
			need = 1
		}
		if len(data) < need {
			r.fail("incomplete DICT")
			return res
		}
		switch {
		case b <= 21:
			if b == 12 {
				b = 256 + int(data[0])
			}
			if _, dup := res[b]; dup {
				r.fail("duplicate DICT operator")
			}
			if len(args) > 48 {
				r.fail("too many DICT operands")
			}
			res[b] = args
			args = nil
		case b == 28:
			args = append(args, float64(int16(uint16(data[0])<<8|uint16(data[1]))))
		case b == 29:
			args = append(args, float64(int32(uint32(data[0])<<24|uint32(data[1])<<16|uint32(data[2])<<8|uint32(data[3]))))
		case b == 30:
			s := ""
			done := false
			for !done {
				if len(data) == 0 {
					r.fail("incomplete real number")
					return res
				}
				for _, nib := range []byte{data[0] >> 4, data[0] & 15} {
					if done {
						if nib != 15 {
							r.fail("bad padding of a real number")
						}
						continue
					}
					switch {
					case nib < 10:
						s += string(rune('0' + nib))
					case nib == 10:
						s += "."
					case nib == 11:
						s += "E"
					case nib == 12:
						s += "E-"
					case nib == 14:
						s += "-"
					case nib == 15:
						done = true
					default:
						r.fail("reserved nibble")
						return res
					}
				}
				data = data[1:]
			}
			x, err := strconv.ParseFloat(s, 64)
			if err != nil || math.IsInf(x, 0) {
				r.fail("bad real number " + s)
				return res
			}
			args = append(args, x)
		case b >= 32 && b <= 246:
			args = append(args, float64(b-139))
		case b >= 247 && b <= 250:
			args = append(args, float64((b-247)*256+int(data[0])+108))
		case b >= 251 && b <= 254:
			args = append(args, float64(-(b-251)*256-int(data[0])-108))
		default:
			r.fail("reserved DICT byte")
			return res
		}
		data = data[need:]
	}
	if len(args) > 0 {
		r.fail("operands at the end of a DICT")
	}
	return res
}

func (r *reader) fd(font Dict) *ParsedFD {
	fd := &ParsedFD{Font: font}
	p := font[18]
	if len(p) != 2 {
		r.fail("bad Private operator")
		return fd
	}
	size, pos := int(p[0]), int(p[1])
	if size < 0 || pos < 0 || pos+size > len(r.data) {
		r.fail("private DICT outside the file")
		return fd
	}
	fd.Private = r.dict(r.data[pos : pos+size])
	if a := fd.Private[20]; len(a) == 1 {
		fd.Default = a[0]
	}
	if a := fd.Private[21]; len(a) == 1 {
		fd.Nominal = a[0]
	}
	if a := fd.Private[19]; len(a) == 1 {
		fd.Subrs, _ = r.index(pos + int(a[0]))
	}
	return fd
}

// Parse reads the structure of a CFF file; msg is empty on success.
func Parse(data []byte) (res *Parsed, msg string) {
	r := &reader{data: data}
	res = &Parsed{}
	if r.at(0) != 1 || r.at(2) < 4 {
		return nil, "bad header"
	}
	res.OffSize = r.at(3)
	var pos int
	var tops [][]byte
	res.Names, pos = r.index(r.at(2))
	tops, pos = r.index(pos)
	res.Strings, pos = r.index(pos)
	res.Global, pos = r.index(pos)
	if r.err != "" {
		return nil, r.err
	}
	if len(res.Names) != 1 || len(tops) != 1 {
		return nil, "not exactly one font"
	}
	res.Top = r.dict(tops[0])
	one := func(op, def int) int {
		a := res.Top[op]
		if a == nil {
			return def
		}
		if len(a) != 1 || a[0] != math.Trunc(a[0]) {
			r.fail("bad operand")
			return def
		}
		return int(a[0])
	}
	if one(256+6, 2) != 2 {
		return nil, "bad charstring type"
	}
	res.Glyphs, _ = r.index(one(17, 0))
	n := len(res.Glyphs)
	if n == 0 || r.err != "" {
		return nil, "no glyphs: " + r.err
	}
	ros, isCID := res.Top[256+30]
	if isCID {
		if len(ros) != 3 {
			r.fail("bad ROS")
		}
		dicts, _ := r.index(one(256+36, 0))
		for _, d := range dicts {
			res.FD = append(res.FD, r.fd(r.dict(d)))
		}
		res.Select = r.fdSelect(one(256+37, 0), n)
		for _, s := range res.Select {
			if s >= len(res.FD) {
				r.fail("FDSelect out of range")
			}
		}
	} else {
		res.FD = []*ParsedFD{r.fd(res.Top)}
		res.Select = make([]int, n)
	}
	off := one(15, 0)
	if isCID || off > 2 {
		if off <= 2 {
			r.fail("predefined charset in a CID font")
		}
		res.charset(r, off, n)
	} else {
		res.CharsetFormat = -1 - off
	}
	res.EncodingOffset = one(16, 0)
	if !isCID && res.EncodingOffset > 1 {
		res.encoding(r, res.EncodingOffset, n)
	}
	return res, r.err
}

func (r *reader) u16(pos int) int {
	return r.at(pos)<<8 | r.at(pos+1)
}

func (r *reader) fdSelect(pos, n int) []int {
	res := make([]int, n)
	if pos < 4 {
		r.fail("bad FDSelect offset")
		return res
	}
	switch r.at(pos) {
	case 0:
		for i := range res {
			res[i] = r.at(pos + 1 + i)
		}
	case 3:
		k := r.u16(pos + 1)
		if r.u16(pos+3) != 0 || k == 0 {
			r.fail("FDSelect does not start at glyph 0")
		}
		for i := 0; i < k && r.err == ""; i++ {
			a, b := r.u16(pos+3+3*i), r.u16(pos+3+3*i+3)
			if b <= a || b > n {
				r.fail("bad FDSelect range")
				break
			}
			for g := a; g < b; g++ {
				res[g] = r.at(pos + 3 + 3*i + 2)
			}
		}
		if r.u16(pos+3+3*k) != n {
			r.fail("bad FDSelect sentinel")
		}
	default:
		r.fail("unknown FDSelect format")
	}
	return res
}

func (p *Parsed) charset(r *reader, pos, n int) {
	p.Charset = make([]int, 1, n)
	p.CharsetFormat = r.at(pos)
	pos++
	switch p.CharsetFormat {
	case 0:
		for i := 1; i < n; i++ {
			p.Charset = append(p.Charset, r.u16(pos))
			pos += 2
		}
	case 1, 2:
		for len(p.Charset) < n && r.err == "" {
			first, left := r.u16(pos), r.at(pos+2)
			pos += 3
			if p.CharsetFormat == 2 {
				left = left<<8 | r.at(pos)
				pos++
			}
			for k := 0; k <= left; k++ {
				p.Charset = append(p.Charset, first+k)
			}
		}
		if len(p.Charset) != n {
			r.fail("charset does not end at the last glyph")
		}
	default:
		r.fail("unknown charset format")
	}
}

func (p *Parsed) encoding(r *reader, pos, n int) {
	format := r.at(pos)
	k := r.at(pos + 1)
	pos += 2
	gid := 1
	set := func(code, g int) {
		if code > 255 || g >= n {
			r.fail("bad encoding")
			return
		}
		if p.Encoding[code] != 0 {
			r.fail("code encoded twice")
		}
		p.Encoding[code] = g
	}
	switch format & 0x7F {
	case 0:
		for i := 0; i < k; i++ {
			set(r.at(pos), gid)
			gid++
			pos++
		}
	case 1:
		for i := 0; i < k; i++ {
			first, left := r.at(pos), r.at(pos+1)
			pos += 2
			for c := first; c <= first+left && r.err == ""; c++ {
				set(c, gid)
				gid++
			}
		}
	default:
		r.fail("unknown encoding format")
	}
	if format&0x80 != 0 {
		k = r.at(pos)
		pos++
		for i := 0; i < k; i++ {
			code, sid := r.at(pos), r.u16(pos+1)
			pos += 3
			found := false
			for g, s := range p.Charset {
				if g > 0 && s == sid {
					set(code, g)
					found = true
				}
			}
			if !found {
				r.fail("supplemental encoding for unknown glyph")
			}
		}
	}
}

// Raw describes a CFF file section by section.
type Raw struct {
	Top      []byte   // additional operators of the top DICT, must start with ROS for CID-keyed fonts
	Strings  [][]byte // string INDEX
	Glyphs   [][]byte
	Charset  []byte   // nil for the predefined charset CharsetID
	Encoding []byte   // nil for the predefined encoding EncodingID
	FDSelect []byte   // CID-keyed fonts only
	Private  [][]byte // the private DICTs
	FontDict [][]byte // additional operators of the font DICTs
	HdrPad   int      // additional header bytes

	CharsetID, EncodingID int
	IsCID                 bool
}

// Build assembles the file.
func (w *Raw) Build() []byte {
	hdr := append([]byte{1, 0, byte(4 + w.HdrPad), 4}, make([]byte, w.HdrPad)...)
	names := Index([][]byte{[]byte("Test")})
	strs := Index(w.Strings)
	cs := Index(w.Glyphs)
	topLen := len(w.Top) + 6 + 6
	if w.IsCID {
		topLen += 7 + 7
	} else {
		topLen += 6 + 11
	}
	topIdx := 2 + 1 + 2 + topLen
	if topLen+1 >= 256 {
		topIdx += 2
	}
	pos := len(hdr) + len(names) + topIdx + len(strs) + 2
	var body []byte
	place := func(b []byte) int {
		p := pos + len(body)
		body = append(body, b...)
		return p
	}
	op := func(p int, op ...byte) []byte { return append(Int5(p), op...) }
	top := append([]byte{}, w.Top...)
	top = append(top, op(place(cs), 17)...)
	if w.Charset != nil {
		top = append(top, op(place(w.Charset), 15)...)
	} else {
		top = append(top, op(w.CharsetID, 15)...)
	}
	if !w.IsCID {
		if w.Encoding != nil {
			top = append(top, op(place(w.Encoding), 16)...)
		} else {
			top = append(top, op(w.EncodingID, 16)...)
		}
		top = append(top, Int5(len(w.Private[0]))...)
		top = append(top, op(place(w.Private[0]), 18)...)
	} else {
		var dicts [][]byte
		for i, p := range w.Private {
			var d []byte
			if i < len(w.FontDict) {
				d = append(d, w.FontDict[i]...)
			}
			d = append(d, Int5(len(p))...)
			d = append(d, op(place(p), 18)...)
			dicts = append(dicts, d)
		}
		top = append(top, op(place(Index(dicts)), 12, 36)...)
		top = append(top, op(place(w.FDSelect), 12, 37)...)
	}
	body = append(body, 0, 0, 0, 0) // so that the charset etc. are not at the very end
	return Cat(hdr, names, Index([][]byte{top}), strs, []byte{0, 0}, body)
}
