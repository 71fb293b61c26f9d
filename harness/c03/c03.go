// Package c03 checks that written files are well-formed sfnt containers.
package c03

import (
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
)

var tags = []string{"head", "glyf", "OS/2", "loca", "zzzz", "CFF ", "!!!!"}

func roundTrip(scaler uint32, tables map[string][]byte) {
	orig := map[string][]byte{}
	n := 0
	for k, v := range tables {
		if v != nil {
			orig[k] = hx.Clone(v)
			n++
		}
	}
	w := &hx.Buf{}
	size, err := header.Write(w, scaler, tables)
	vsym.Assert(err == nil, "Write: unexpected error")
	vsym.Assert(size == int64(len(w.B)), "Write: wrong byte count")
	got := hx.CheckContainer(w.B, scaler)
	vsym.Assert(len(got) == n, "Write: wrong number of tables")

	info, err := header.Read(&hx.At{B: w.B})
	vsym.Assert(err == nil, "Read rejects the written file")
	vsym.Assert(info.ScalerType == scaler, "Read: wrong scaler type")
	vsym.Assert(len(info.Toc) == n, "Read: wrong number of tables")
	for k, v := range orig {
		b, err := info.ReadTableBytes(&hx.At{B: w.B}, k)
		vsym.Assert(err == nil, "ReadTableBytes fails")
		g := got[k]
		vsym.Assert(vsym.EqBytes(b, g), "ReadTableBytes: data differs from the file")
		if k == "head" && len(v) >= 12 {
			vsym.Assert(len(b) == len(v), "wrong head length")
			vsym.Assert(vsym.EqBytes(b[:8], v[:8]) && vsym.EqBytes(b[12:], v[12:]), "head table changed")
		} else {
			vsym.Assert(vsym.EqBytes(b, v), "table contents changed")
		}
	}
	vsym.Observe(uint64(len(w.B)))
	vsym.ObserveBytes(w.B)
}

func scaler() uint32 {
	return []uint32{header.ScalerTypeTrueType, header.ScalerTypeCFF, header.ScalerTypeApple}[vsym.Choose(3)]
}

// H_Contents: 1..3 tables with tags from a list, each of length 0..5 (head:
// 12..14), all bytes symbolic; some tables nil (these are not written).
//gosym: quick=12 thorough=300
func H_Contents() {
	n := 1 + vsym.Choose(3)
	if vsym.Thorough() {
		n = 1 + vsym.Choose(4)
	}
	tables := map[string][]byte{}
	k := 0
	real := 0
	for range n {
		k += vsym.Choose(3)
		if k >= len(tags) {
			break
		}
		tag := tags[k]
		k++
		l := vsym.Choose(7)
		if l == 6 {
			tables[tag] = nil
			continue
		}
		if tag == "head" {
			l += 12
		}
		tables[tag] = vsym.Bytes(l)
		real++
	}
	vsym.Assume(real > 0)
	roundTrip(header.ScalerTypeCFF, tables)
}

// H_Tags: three tables, one of them with an arbitrary printable tag.
//gosym: quick=8 thorough=200
func H_Tags() {
	t := vsym.Bytes(4)
	for _, c := range t {
		vsym.Assume(vsym.And(c >= 0x20, c <= 0x7e))
	}
	tables := map[string][]byte{}
	tables["head"] = vsym.Bytes(12)
	tables["maxp"] = vsym.Bytes(3)
	tables[string(t)] = vsym.Bytes(vsym.Choose(3))
	if h := tables["head"]; len(h) < 12 {
		return
	}
	roundTrip(scaler(), tables)
}

// H_Short: head tables too short to hold a checksum, of length 0..13.
//gosym: quick=2 thorough=20
func H_ShortHead() {
	tables := map[string][]byte{}
	tables["head"] = vsym.Bytes(vsym.Choose(14))
	if vsym.Choose(2) == 1 {
		tables["cmap"] = vsym.Bytes(3)
	}
	roundTrip(header.ScalerTypeTrueType, tables)
}

// H_Count: every number of tables from 1 to 40 (thorough: 280), with one
// symbolic byte per table.
//gosym: quick=4 thorough=200
func H_Count() {
	max := 40
	if vsym.Thorough() {
		max = 280
	}
	n := 1 + vsym.Choose(max)
	tables := map[string][]byte{}
	for i := range n {
		tag := string([]byte{byte('a' + i%7), byte('A' + i/7%7), byte('0' + i/49), 'x'})
		tables[tag] = vsym.Bytes(1)
	}
	roundTrip(header.ScalerTypeCFF, tables)
}
