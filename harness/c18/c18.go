// Package c18 checks that I/O faults and truncation surface as errors, with
// accurate byte counts.
package c18

import (
	"bytes"
	"errors"
	"io"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/internal/verifh/fx"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
)

var errFault = errors.New("injected fault")

// writer accepts k bytes, and then fails.
type writer struct {
	k, n int
	mode int
	bad  bool // a fault has been injected
	late bool // bytes were written after a fault
}

const (
	partial = iota // the failing call accepts the bytes up to the limit
	whole          // the failing call accepts nothing
	short          // the failing call accepts some bytes, but reports no error
)

func (w *writer) Write(p []byte) (int, error) {
	if w.bad && len(p) > 0 {
		w.late = true
	}
	if w.n+len(p) > w.k {
		w.bad = true
		switch w.mode {
		case whole:
			return 0, errFault
		case short:
			m := w.k - w.n
			w.n = w.k
			return m, nil
		}
		m := w.k - w.n
		w.n = w.k
		return m, errFault
	}
	w.n += len(p)
	return len(p), nil
}

// write uses one of the output forms.  The count is -1, if none is reported.
func write(f *sfnt.Font, form int, w io.Writer) (int64, error) {
	switch form {
	case 0:
		return f.Write(w)
	case 1:
		if _, ok := f.Outlines.(*glyf.Outlines); ok {
			return f.WriteTrueTypePDF(w)
		}
		return -1, f.WriteOpenTypeCFFPDF(w)
	case 2:
		if o, ok := f.Outlines.(*cff.Outlines); ok {
			return -1, (&cff.Font{FontInfo: f.GetFontInfo(), Outlines: o}).Write(w)
		}
		return f.WriteTrueTypePDF(w, "abcd", []byte{1, 2, 3})
	}
	return header.Write(w, 0x00010000, map[string][]byte{"aaaa": {1}, "bbbb": {1, 2, 3, 4}, "cccc": {}, "dddd": {5, 6}})
}

// H_Write: a destination which fails after an arbitrary number of bytes.
//
//gosym: quick=30 thorough=120
func H_Write() {
	f := fx.Corpus(int(vsym.Choose(fx.NumCorpus)))
	form := int(vsym.Choose(4))
	good := &hx.Buf{}
	n, err := write(f, form, good)
	vsym.Assert(err == nil, "write: failed without a fault")
	total := len(good.B)
	vsym.Assert(n == -1 || n == int64(total), "write: count differs from the file length")

	w := &writer{k: vsym.Int(0, total+2), mode: int(vsym.Choose(3))}
	n, err = write(f, form, w)
	if w.bad {
		vsym.Reach("fault")
		vsym.Assert(err != nil, "write: fault not reported")
		vsym.Assert(!w.late, "write: writing continues after a fault")
	} else {
		vsym.Reach("no fault")
		vsym.Assert(err == nil, "write: error without a fault")
		vsym.Assert(w.n == total, "write: output is incomplete")
	}
	vsym.Assert(n == -1 || n == int64(w.n), "write: wrong byte count")

	// the font is still usable
	again := &hx.Buf{}
	_, err = write(f, form, again)
	vsym.Assert(err == nil && bytes.Equal(again.B, good.B), "write: font damaged by a failed write")
}

// reader is an io.ReaderAt with a fault at offset k.
type reader struct {
	data []byte
	k    int
	mode int
	bad  bool
}

func (r *reader) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := len(r.data) - int(off)
	var err error
	if n < len(p) {
		err = io.EOF
		if n < 0 {
			n = 0
		}
	} else {
		n = len(p)
	}
	if n > 0 && int(off)+n > r.k {
		r.bad = true
		if r.mode == whole {
			return 0, errFault
		}
		n = int(vsym.Concrete(max(0, r.k-int(off))))
		err = errFault
	}
	copy(p[:n], r.data[off:])
	return n, err
}

// Read makes the reader an io.Reader; it must not be used.
func (r *reader) Read(p []byte) (int, error) { return 0, errors.New("Read called") }

// end is the end of the table data in an sfnt file.
func end(data []byte) int {
	n := hx.U16(data, 4)
	e := 0
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		e = max(e, int(hx.U32(data, p+8)+hx.U32(data, p+12)))
	}
	return e
}

func corpusFile() []byte {
	f := fx.Corpus(int(vsym.Choose(fx.NumCorpus)))
	buf := &hx.Buf{}
	_, err := f.Write(buf)
	vsym.Assert(err == nil, "write: failed without a fault")
	return buf.B
}

// H_ReadAt: a source which fails at an arbitrary offset.
//
//gosym: quick=30 thorough=200
func H_ReadAt() {
	data := corpusFile()
	e := end(data)
	r := &reader{data: data, k: vsym.Int(0, len(data)), mode: int(vsym.Choose(2))}
	f, err := sfnt.Read(r)
	if r.k < e {
		vsym.Assert(err != nil, "read: fault not reported")
	}
	if !r.bad {
		vsym.Reach("no fault")
		vsym.Assert(err == nil && f != nil, "read: error without a fault")
	}
	vsym.Assert((err == nil) == (f != nil), "read: neither font nor error")
}

// stream is an io.Reader, but not an io.ReaderAt.
type stream struct {
	data  []byte
	pos   int
	k     int
	chunk int
	err   error
	mode  int
	bad   bool
}

func (r *stream) Read(p []byte) (int, error) {
	n := min(len(p), r.chunk)
	last := false
	if r.pos+n >= len(r.data) {
		n = len(r.data) - r.pos
		last = true
	}
	if r.pos+n > r.k {
		r.bad = true
		if r.mode == whole {
			return 0, r.err
		}
		n = int(vsym.Concrete(r.k - r.pos))
		copy(p, r.data[r.pos:r.pos+n])
		r.pos += n
		return n, r.err
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if last && (n == 0 || r.mode == whole) {
		return n, io.EOF
	}
	return n, nil
}

// H_Stream: a streaming source which fails after an arbitrary number of bytes.
//
//gosym: quick=14 thorough=200
func H_Stream() {
	data := corpusFile()
	e := end(data)
	r := &stream{data: data, k: vsym.Int(0, len(data)), mode: int(vsym.Choose(2)), err: errFault}
	r.chunk = []int{100, 512, 100000}[vsym.Choose(3)]
	if vsym.Bool() {
		r.err = io.ErrUnexpectedEOF
	}
	f, err := sfnt.Read(r)
	if r.bad {
		vsym.Assert(err != nil, "stream: fault not reported")
	} else {
		vsym.Reach("no fault")
		vsym.Assert(err == nil && f != nil, "stream: error without a fault")
	}
	if r.k < e {
		vsym.Assert(err != nil, "stream: incomplete file accepted")
	}
}

// H_Truncated: the file ends early.
//
//gosym: quick=30 thorough=200
func H_Truncated() {
	data := corpusFile()
	e := end(data)
	var k int
	if vsym.Thorough() {
		k = int(vsym.Choose(len(data) + 1))
	} else {
		switch vsym.Choose(3) {
		case 0:
			k = int(vsym.Choose(300))
		case 1:
			k = len(data) - int(vsym.Choose(300))
		case 2:
			k = 300 + 41*int(vsym.Choose((len(data)-300)/41))
		}
	}
	var f *sfnt.Font
	var err error
	if vsym.Bool() {
		f, err = sfnt.Read(bytes.NewReader(data[:k]))
	} else {
		f, err = sfnt.Read(&stream{data: data[:k], k: k, chunk: 1000})
	}
	if k < e {
		vsym.Assert(err != nil, "truncated: incomplete file accepted")
	} else {
		vsym.Assert(err == nil && f != nil, "truncated: complete file rejected")
	}
}

// bad is an io.ReaderAt with a damaged byte, or which fails for some calls.
type bad struct {
	data  []byte
	at    int // offset of a damaged byte, or -1
	from  int // number of calls before the first failure, or -1
	count int // number of calls which fail
	calls int
	mode  int
	fault bool
}

func (r *bad) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	r.calls++
	n := min(max(len(r.data)-int(off), 0), len(p))
	var err error
	if n < len(p) {
		err = io.EOF
	}
	if vsym.And(r.at >= int(off), r.at < int(off)+n) {
		r.fault = true
		n = vsym.Concrete(r.at) - int(off)
		err = errFault
	} else if n > 0 && r.from >= 0 && r.calls > r.from && r.calls <= r.from+r.count {
		r.fault = true
		n = n / 2
		err = errFault
	}
	if err == errFault && r.mode == whole {
		n = 0
	}
	copy(p[:n], r.data[off:])
	return n, err
}

func (r *bad) Read(p []byte) (int, error) { return 0, errors.New("Read called") }

// H_Sector: one byte of the source cannot be read, everything else can.
//
//gosym: quick=30 thorough=200
func H_Sector() {
	data := corpusFile()
	r := &bad{data: data, at: vsym.Int(0, len(data)-1), from: -1, mode: int(vsym.Choose(2))}
	f, err := sfnt.Read(r)
	if !r.fault {
		vsym.Assert(err == nil, "sector: error without a fault")
	} else if err == nil {
		// only padding is not needed
		a := vsym.Concrete(r.at)
		n := hx.U16(data, 4)
		vsym.Assert(a >= 12+16*n, "sector: fault in the directory not reported")
		for i := range n {
			rec := data[12+16*i:]
			o, l := int(hx.U32(rec, 8)), int(hx.U32(rec, 12))
			vsym.Assert(a < o || a >= o+l, "sector: fault not reported")
		}
	}
	vsym.Assert((err == nil) == (f != nil), "sector: neither font nor error")
}

// H_Calls: some calls fail.
//
//gosym: quick=20 thorough=200
func H_Calls() {
	data := corpusFile()
	good := &bad{data: data, at: -1, from: -1}
	_, err := sfnt.Read(good)
	vsym.Assert(err == nil, "calls: valid file rejected")
	r := &bad{data: data, at: -1, from: int(vsym.Choose(good.calls)), mode: int(vsym.Choose(2))}
	r.count = []int{1, 2, 1 << 30}[vsym.Choose(3)]
	f, err := sfnt.Read(r)
	vsym.Assert((err != nil) == r.fault, "calls: fault not reported")
	vsym.Assert((err == nil) == (f != nil), "calls: neither font nor error")
}

// H_Tables: each table in turn is cut short or fails, in a file where it is
// the last one.
//
//gosym: quick=20 thorough=200
func H_Tables() {
	data := corpusFile()
	tables := hx.Tables(data)
	names := make([]string, 0, len(tables))
	for _, n := range []string{"head", "hhea", "maxp", "OS/2", "hmtx", "cmap", "fpgm", "prep", "cvt ", "loca", "glyf", "name", "post", "CFF ", "GDEF", "GSUB", "GPOS"} {
		if _, ok := tables[n]; ok {
			names = append(names, n)
		}
	}
	if vsym.Bool() {
		// a legacy kern table takes the place of GPOS
		for i, n := range names {
			if n == "GPOS" {
				names[i] = "kern"
			}
		}
		tables["kern"] = []byte{0, 0, 0, 1, 0, 0, 0, 20, 0, 1, 0, 1, 0, 6, 0, 0, 0, 0, 0, 1, 0, 2, 0, 9}
	}
	j := int(vsym.Choose(len(names)))
	names[j], names[len(names)-1] = names[len(names)-1], names[j]
	// assemble a file, with the chosen table at the end
	var head, body []byte
	head = append(head, data[:4]...)
	head = append(head, 0, byte(len(names)), 0, 0, 0, 0, 0, 0)
	base := 12 + 16*len(names)
	for _, n := range names {
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
		o := base + len(body)
		l := len(tables[n])
		head = append(head, n...)
		head = append(head, 0, 0, 0, 0, 0, 0, byte(o>>8), byte(o), 0, 0, byte(l>>8), byte(l))
		body = append(body, tables[n]...)
	}
	file := append(head, body...)
	last := len(tables[names[len(names)-1]])
	r := &reader{data: file, k: len(file) - last + vsym.Int(0, last), mode: int(vsym.Choose(2))}
	f, err := sfnt.Read(r)
	if r.k < len(file) {
		vsym.Assert(err != nil, "table: fault not reported")
	} else {
		vsym.Assert(err == nil && f != nil, "table: valid file rejected")
	}
	if err == nil {
		return
	}
	// the same with a truncated file
	k := int(vsym.Concrete(r.k))
	_, err = sfnt.Read(bytes.NewReader(file[:k]))
	vsym.Assert(err != nil, "table: truncated file accepted")
}
