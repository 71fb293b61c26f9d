// Package c17 checks that the buffered reader parser.Parser is
// observationally a plain random-access view of its input.
package c17

import (
	"errors"
	"io"

	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/parser"
)

// at is the input: the byte at offset i.
func at(i int64) byte {
	return byte(i) + 151*byte(i>>8)
}

// file is the underlying reader.  How much each Read returns is chosen by the
// environment (short reads, io.EOF together with data).
type file struct {
	size  int64
	pos   int64
	short bool
	calls int
	used  int
	max   int
}

func (f *file) Size() int64 { return f.size }

func (f *file) Seek(offs int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offs += f.pos
	case io.SeekEnd:
		offs += f.size
	}
	if offs < 0 {
		return 0, errors.New("negative offset")
	}
	f.pos = offs
	return offs, nil
}

func (f *file) Read(buf []byte) (int, error) {
	if f.pos >= f.size {
		return 0, io.EOF
	}
	n := len(buf)
	if n == 0 {
		return 0, nil
	}
	f.calls++
	if f.pos+int64(n) > f.size {
		n = vsym.Concrete(int(f.size - f.pos))
	}
	var err error
	if f.short && f.used < f.max {
		f.used++
		switch vsym.Choose(4) {
		case 1:
			n = 1
		case 2:
			if n > 3 {
				n = 3
			}
		case 3:
			if n > 600 {
				n = 600
			}
			if f.pos+int64(n) == f.size {
				err = io.EOF
			}
		}
	}
	for j := range n {
		buf[j] = at(f.pos + int64(j))
	}
	f.pos += int64(n)
	return n, err
}

// model is the specification: an offset into the input.
type model struct {
	p    *parser.Parser
	pos  int64
	size int64
}

func (m *model) val(k int) (v uint32) {
	for i := range k {
		v = v<<8 | uint32(at(m.pos+int64(i)))
	}
	return v
}

func isEOF(err error) bool {
	return errors.Is(err, io.ErrUnexpectedEOF)
}

// outcome checks success or failure of a read of k bytes, and the position.
func (m *model) outcome(k int, err error, what string) bool {
	if m.pos+int64(k) <= m.size || k == 0 {
		vsym.Assert(err == nil, what+": fails although the data is available")
		m.pos += int64(k)
		vsym.Assert(m.p.Pos() == m.pos, what+": wrong position")
		return true
	}
	vsym.Assert(err != nil, what+": succeeds past the end of the input")
	vsym.Assert(isEOF(err), what+": past the end, but not an unexpected-EOF error")
	vsym.Reach("eof")
	// nothing is delivered, so nothing is consumed
	vsym.Assert(m.p.Pos() == m.pos, what+": position moved by a failed read")
	return false
}

func (m *model) uint8() {
	x, err := m.p.ReadUint8()
	w := m.val(1)
	if m.outcome(1, err, "ReadUint8") {
		vsym.Assert(uint32(x) == w, "ReadUint8: wrong value")
	}
}

func (m *model) uint16() {
	x, err := m.p.ReadUint16()
	w := m.val(2)
	if m.outcome(2, err, "ReadUint16") {
		vsym.Assert(uint32(x) == w, "ReadUint16: wrong value")
	}
}

func (m *model) int16() {
	x, err := m.p.ReadInt16()
	w := m.val(2)
	if m.outcome(2, err, "ReadInt16") {
		vsym.Assert(int(x) == int(int16(w)), "ReadInt16: wrong value")
	}
}

func (m *model) uint32() {
	x, err := m.p.ReadUint32()
	w := m.val(4)
	if m.outcome(4, err, "ReadUint32") {
		vsym.Assert(x == w, "ReadUint32: wrong value")
	}
}

func (m *model) expect(n int) []byte {
	w := make([]byte, n)
	for i := range w {
		w[i] = at(m.pos + int64(i))
	}
	return w
}

func (m *model) bytes(n int) {
	b, err := m.p.ReadBytes(n)
	w := m.expect(n)
	if m.outcome(n, err, "ReadBytes") {
		vsym.Assert(len(b) == n, "ReadBytes: wrong length")
		vsym.Assert(vsym.EqBytes(b, w), "ReadBytes: wrong data")
	} else {
		vsym.Assert(len(b) == 0, "ReadBytes: data together with an error")
	}
}

func (m *model) read(n int) {
	buf := make([]byte, n)
	k, err := m.p.Read(buf)
	avail := m.size - m.pos
	if avail < 0 {
		avail = 0
	}
	if int64(n) <= avail || n == 0 {
		vsym.Assert(k == n && err == nil, "Read: fails although the data is available")
		vsym.Assert(vsym.EqBytes(buf, m.expect(n)), "Read: wrong data")
	} else {
		vsym.Assert(err != nil, "Read: succeeds past the end of the input")
		vsym.Assert(isEOF(err), "Read: past the end, but not an unexpected-EOF error")
		vsym.Assert(k >= 0 && k < n && int64(k) <= avail, "Read: impossible byte count")
		k = vsym.Concrete(k)
		vsym.Assert(vsym.EqBytes(buf[:k], m.expect(k)), "Read: wrong partial data")
		vsym.Reach("eof")
	}
	m.pos += int64(k)
	vsym.Assert(m.p.Pos() == m.pos, "Read: wrong position")
}

func (m *model) seek(p int64) {
	err := m.p.SeekPos(p)
	vsym.Assert(err == nil, "SeekPos: unexpected error")
	m.pos = p
	vsym.Assert(m.p.Pos() == p, "SeekPos: wrong position")
}

func (m *model) discard(n int) {
	err := m.p.Discard(n)
	vsym.Assert(err == nil, "Discard: unexpected error")
	m.pos += int64(n)
	vsym.Assert(m.p.Pos() == m.pos, "Discard: wrong position")
}

func (m *model) slice() {
	xs, err := m.p.ReadUint16Slice()
	start := m.pos
	if start+2 > m.size {
		vsym.Assert(err != nil && isEOF(err), "ReadUint16Slice: no unexpected-EOF error")
		m.pos = m.p.Pos()
		return
	}
	n := vsym.Concrete(int(m.val(2)))
	end := start + 2 + 2*int64(n)
	if end > m.size {
		vsym.Assert(err != nil && isEOF(err), "ReadUint16Slice: no unexpected-EOF error")
		vsym.Assert(len(xs) == 0, "ReadUint16Slice: data together with an error")
		m.pos = m.p.Pos()
		vsym.Assert(m.pos >= start && m.pos <= m.size, "ReadUint16Slice: impossible position")
		return
	}
	vsym.Assert(err == nil, "ReadUint16Slice: fails although the data is available")
	vsym.Assert(len(xs) == n, "ReadUint16Slice: wrong length")
	m.pos += 2
	ok := true
	for i := range xs {
		ok = vsym.And(ok, uint32(xs[i]) == m.val(2))
		m.pos += 2
	}
	vsym.Assert(ok, "ReadUint16Slice: wrong data")
	vsym.Assert(m.p.Pos() == m.pos, "ReadUint16Slice: wrong position")
}

func (m *model) any(n int) {
	switch n {
	case 0:
		m.uint8()
	case 1:
		m.uint16()
	case 2:
		m.uint32()
	case 3:
		m.int16()
	}
}

func start(size int64, short bool, max int) *model {
	f := &file{size: size, short: short, max: max}
	p := parser.New(f)
	vsym.Assert(p.Size() == size, "Size: wrong value")
	vsym.Assert(p.Pos() == 0, "New: wrong position")
	return &model{p: p, size: size}
}

var sizes = []int64{0, 1, 2, 5, 1022, 1023, 1024, 1025, 1027, 2047, 2048, 2049, 3072, 3075, 5000}

// H_Seq: input length from a list of boundary values; three rounds of
// (seek to an arbitrary position 0..6000 or skip 0..3000 or stay, then one read
// of 1, 2 or 4 bytes), positions fully symbolic.
//gosym: quick=14 thorough=600 conc=40
func H_Seq() {
	m := start(sizes[vsym.Choose(len(sizes))], false, 0)
	rounds := 3
	if vsym.Thorough() {
		rounds = 4
	}
	for range rounds {
		switch vsym.Choose(3) {
		case 1:
			m.seek(int64(vsym.Int(0, 6000)))
		case 2:
			m.discard(vsym.Int(0, 3000))
		}
		m.any(vsym.Choose(4))
	}
	vsym.Observe(uint64(m.p.Pos()))
}

// H_AnySize: arbitrary input length 0..5000, arbitrary position, one read.
//gosym: quick=4 thorough=300
func H_AnySize() {
	m := start(int64(vsym.Int(0, 5000)), false, 0)
	m.seek(int64(vsym.Int(0, 1<<40)))
	m.any(vsym.Choose(4))
	m.any(vsym.Choose(4))
	vsym.Observe(uint64(m.p.Pos()))
}

// near returns a position within 3 of a window boundary, the file size, or the
// current position.
func (m *model) near() int64 {
	var base int64
	switch vsym.Choose(7) {
	case 0:
		base = 3
	case 1:
		base = 1024
	case 2:
		base = 2048
	case 3:
		base = m.size
	case 4:
		base = m.p.Pos()
	case 5:
		base = m.p.Pos() + 1024
	case 6:
		base = m.p.Pos() - 1024
	}
	p := base + int64(vsym.Int(-3, 3))
	vsym.Assume(p >= 0)
	return p
}

var bulk = []int{0, 1, 3, 512, 1023, 1024, 1025, 2048, 2500}

// H_Bulk: sequences mixing bulk reads (ReadBytes, Read with buffers around
// multiples of the buffer size), seeks near window boundaries, and small reads.
//gosym: quick=16 thorough=900
func H_Bulk() {
	m := start([]int64{0, 5, 1024, 1025, 2047, 2500, 5000}[vsym.Choose(7)], false, 0)
	n := 3
	if vsym.Thorough() {
		n = 5
	}
	for i := range n {
		switch vsym.Choose(4) {
		case 0:
			m.read(bulk[vsym.Choose(len(bulk))])
		case 1:
			m.bytes(bulk[vsym.Choose(6)])
		case 2:
			if i+1 < n {
				m.seek(m.near())
			}
		case 3:
			m.uint16()
		}
	}
	vsym.Observe(uint64(m.p.Pos()))
}

// H_Short: the same with a reader returning short reads, and io.EOF together
// with the last bytes.
//gosym: quick=14 thorough=600
func H_Short() {
	m := start([]int64{3, 1023, 1025, 1300, 2500}[vsym.Choose(5)], true, 5)
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	for range n {
		switch vsym.Choose(5) {
		case 0:
			m.read([]int{1, 5, 700, 1100, 2100}[vsym.Choose(5)])
		case 1:
			m.bytes([]int{2, 602, 1024}[vsym.Choose(3)])
		case 2:
			m.seek(m.near())
			m.uint32()
		case 3:
			m.uint16()
		case 4:
			m.discard([]int{1, 2, 599, 600, 1024}[vsym.Choose(5)])
			m.uint8()
		}
	}
	vsym.Observe(uint64(m.p.Pos()))
}

// sliceFile serves symbolic bytes in front of a fixed tail.
type sliceFile struct {
	data []byte
	pos  int64
}

func (f *sliceFile) Size() int64 { return int64(len(f.data)) }
func (f *sliceFile) Seek(offs int64, whence int) (int64, error) {
	if whence != io.SeekStart || offs < 0 {
		return 0, errors.New("bad seek")
	}
	f.pos = offs
	return offs, nil
}
func (f *sliceFile) Read(buf []byte) (int, error) {
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(buf, f.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

// H_Slice: ReadUint16Slice on arbitrary contents (12 symbolic bytes, length
// prefix anywhere, also straddling the buffer boundary).
//gosym: quick=5 thorough=120
func H_Slice() {
	pad := []int{0, 1, 1016, 1019, 1023}[vsym.Choose(5)]
	k := vsym.Choose(13)
	data := make([]byte, pad+k)
	copy(data[pad:], vsym.Bytes(k))
	p := parser.New(&sliceFile{data: data})
	if vsym.Choose(2) == 1 {
		_, err := p.ReadBytes(pad)
		vsym.Assert(err == nil, "ReadBytes fails")
	} else {
		vsym.Assert(p.SeekPos(int64(pad)) == nil, "SeekPos fails")
	}
	xs, err := p.ReadUint16Slice()
	if k < 2 {
		vsym.Assert(err != nil && isEOF(err), "ReadUint16Slice: missing error")
		return
	}
	n := int(data[pad])<<8 | int(data[pad+1])
	if 2+2*n > k {
		vsym.Assert(err != nil && isEOF(err), "ReadUint16Slice: missing error")
		vsym.Assert(len(xs) == 0, "ReadUint16Slice: data together with an error")
		return
	}
	vsym.Reach("ok")
	vsym.Assert(err == nil, "ReadUint16Slice: unexpected error")
	vsym.Assert(len(xs) == n, "ReadUint16Slice: wrong length")
	for i, x := range xs {
		vsym.Assert(x == uint16(data[pad+2+2*i])<<8|uint16(data[pad+3+2*i]), "ReadUint16Slice: wrong value")
		vsym.Observe(uint64(x))
	}
	vsym.Assert(p.Pos() == int64(pad+2+2*n), "ReadUint16Slice: wrong position")
}
