// Package hx has helpers shared by the harnesses.
package hx

import (
	"io"

	"seehuhn.de/go/sfnt/internal/vsym"
)

// U16 and U32 are big-endian loads.
func U16(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }

func U32(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}

// Sum is the sfnt checksum: the sum of big-endian words, zero-padded.
func Sum(b []byte) uint32 {
	var s uint32
	n := len(b) / 4 * 4
	for i := 0; i < n; i += 4 {
		s += U32(b, i)
	}
	for i := n; i < len(b); i++ {
		s += uint32(b[i]) << (24 - 8*(i-n))
	}
	return s
}

// Buf is a minimal io.Writer.
type Buf struct{ B []byte }

func (w *Buf) Write(p []byte) (int, error) {
	w.B = append(w.B, p...)
	return len(p), nil
}

// At is a minimal io.ReaderAt.
type At struct{ B []byte }

func (r *At) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, io.ErrUnexpectedEOF
	}
	if off >= int64(len(r.B)) {
		return 0, io.EOF
	}
	n := copy(p, r.B[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// Clone copies a slice.
func Clone(b []byte) []byte { return append([]byte{}, b...) }

// CheckContainer checks the sfnt container rules on a complete file, and
// returns the tables found.
func CheckContainer(file []byte, scaler uint32) map[string][]byte {
	return Container(file, scaler, true)
}

// Container is like CheckContainer, but checking the checksums is optional.
func Container(file []byte, scaler uint32, sums bool) map[string][]byte {
	vsym.Assert(len(file) >= 12, "container: no header")
	vsym.Assert(U32(file, 0) == scaler, "container: wrong scaler type")
	n := U16(file, 4)
	vsym.Assert(n > 0, "container: no tables")
	vsym.Assert(len(file) >= 12+16*n, "container: directory does not fit")
	p2, sel := 1, 0
	for p2*2 <= n {
		p2 *= 2
		sel++
	}
	vsym.Assert(U16(file, 6) == p2*16, "container: wrong searchRange")
	vsym.Assert(U16(file, 8) == sel, "container: wrong entrySelector")
	vsym.Assert(U16(file, 10) == 16*n-p2*16, "container: wrong rangeShift")
	res := map[string][]byte{}
	end := 12 + 16*n
	used := make([]int, n)
	for i := range n {
		rec := file[12+16*i:]
		if i > 0 {
			prev := file[12+16*(i-1):]
			vsym.Assert(U32(prev, 0) < U32(rec, 0), "container: directory not sorted")
		}
		off := vsym.Concrete(int(U32(rec, 8)))
		l := vsym.Concrete(int(U32(rec, 12)))
		vsym.Assert(off%4 == 0, "container: table not aligned")
		vsym.Assert(off >= end && off+l <= len(file), "container: table outside the file")
		body := file[off : off+l]
		sum := Sum(body)
		tag := string(rec[:4])
		if tag == "head" && l >= 12 {
			// the table checksum is for a zero checkSumAdjustment
			sum -= U32(body, 8)
		}
		if sums {
			vsym.Assert(U32(rec, 4) == sum, "container: wrong table checksum")
		}
		if sums && tag == "head" && l >= 12 {
			vsym.Assert(Sum(file) == 0xB1B0AFBA, "container: wrong file checksum")
			vsym.Reach("head")
		}
		// padding must be zero bytes
		for j := off + l; j%4 != 0; j++ {
			vsym.Assert(j < len(file), "container: table not padded")
			vsym.Assert(file[j] == 0, "container: non-zero padding")
		}
		used[i] = off
		for k := range i {
			lo, hi := used[k], used[k]+int(U32(file[12+16*k:], 12))
			vsym.Assert(hi <= off || off+l <= lo, "container: tables overlap")
		}
		res[tag] = body
	}
	return res
}

// Tables splits a file into its tables, without checking the container.
func Tables(file []byte) map[string][]byte {
	res := map[string][]byte{}
	n := U16(file, 4)
	for i := range n {
		rec := file[12+16*i:]
		off := vsym.Concrete(int(U32(rec, 8)))
		l := vsym.Concrete(int(U32(rec, 12)))
		res[string(rec[:4])] = file[off : off+l]
	}
	return res
}
