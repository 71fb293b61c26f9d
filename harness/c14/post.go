package c14

import (
	"bytes"
	"strconv"

	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/verifh/rx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/post"
)

// readPost is an independent reader for the glyph names.
func readPost(data []byte, numGlyphs int) []string {
	vsym.Assert(len(data) >= 32, "post: table too short")
	switch hx.U32(data, 0) {
	case 0x00010000:
		vsym.Assert(numGlyphs == 258, "post: version 1 needs 258 glyphs")
		return append([]string{}, rx.MacNames[:]...)
	case 0x00020000:
		vsym.Assert(len(data) >= 34+2*numGlyphs, "post: index array too short")
		vsym.Assert(hx.U16(data, 32) == numGlyphs, "post: number of glyphs")
		var strs []string
		p := 34 + 2*numGlyphs
		for p < len(data) {
			l := int(data[p])
			vsym.Assert(p+1+l <= len(data), "post: string outside the table")
			strs = append(strs, string(data[p+1:p+1+l]))
			p += 1 + l
		}
		res := make([]string, numGlyphs)
		for i := range res {
			k := hx.U16(data, 34+2*i)
			if k < 258 {
				res[i] = rx.MacNames[k]
			} else {
				vsym.Assert(k-258 < len(strs), "post: string index out of range")
				res[i] = strs[k-258]
			}
		}
		return res
	}
	return nil
}

func checkNames(names []string, label string) {
	info := &post.Info{Names: append([]string{}, names...)}
	data := info.Encode()
	ref := readPost(data, len(names))
	vsym.Assert(len(ref) == len(names), label+": names missing")
	got, err := post.Read(bytes.NewReader(data))
	vsym.Assert(err == nil, label+": own output rejected")
	vsym.Assert(len(got.Names) == len(names), label+": number of names")
	bad1, bad2 := false, false
	for i, s := range names {
		bad1 = vsym.Or(bad1, ref[i] != s)
		bad2 = vsym.Or(bad2, got.Names[i] != s)
	}
	vsym.Assert(!bad1, label+": another reader sees a different name")
	vsym.Assert(!bad2, label+": name changed")
	vsym.Assert(vsym.EqBytes(got.Encode(), data), label+": second encoding differs")
}

// H_PostNames: lists of standard and custom names.
//
//gosym: quick=12 thorough=120
func H_PostNames() {
	n := int(vsym.Choose(5))
	names := make([]string, n)
	for i := range names {
		switch vsym.Choose(4) {
		case 0:
			names[i] = rx.MacNames[[]int{0, 1, 3, 36, 68, 257}[vsym.Choose(6)]]
		case 1:
			names[i] = string(vsym.Bytes(int(vsym.Choose(4))))
		case 2:
			names[i] = []string{"A.alt", "uni0041", "", ".nul", "nonmarkingreturn2", "dcroat0", "A"}[vsym.Choose(7)]
		case 3:
			if i > 0 {
				names[i] = names[i-1]
			}
		}
	}
	checkNames(names, "post")
}

// H_PostStandard: every standard name, in any position.
//
//gosym: quick=8 thorough=30
func H_PostStandard() {
	i := int(vsym.Choose(258))
	switch vsym.Choose(4) {
	case 0:
		checkNames([]string{"x", rx.MacNames[i], "y", rx.MacNames[257-i]}, "post: standard")
	case 1: // everything but one
		names := append([]string{}, rx.MacNames[:]...)
		names[i] = string(vsym.Bytes(1))
		checkNames(names, "post: replaced")
	case 2: // a prefix
		checkNames(rx.MacNames[:i], "post: prefix")
	case 3: // swapped
		names := append([]string{}, rx.MacNames[:]...)
		j := (i + 1) % 258
		names[i], names[j] = names[j], names[i]
		checkNames(names, "post: swapped")
	}
}

// H_PostOrder: the standard Macintosh order and more.
//
//gosym: quick=3 thorough=10
func H_PostOrder() {
	switch vsym.Choose(3) {
	case 0:
		checkNames(rx.MacNames[:], "post: standard order")
	case 1:
		checkNames(append(append([]string{}, rx.MacNames[:]...), string(vsym.Bytes(2))), "post: extended")
	case 2:
		checkNames(append(append([]string{}, rx.MacNames[:]...), ".notdef"), "post: extended")
	}
	info := &post.Info{}
	data := info.Encode()
	got, err := post.Read(bytes.NewReader(data))
	vsym.Assert(err == nil && got.Names == nil, "post: no names")
	vsym.Assert(hx.U32(data, 0) == 0x30000, "post: version without names")
}

// H_PostLong: long names.
//
//gosym: quick=4 thorough=10
func H_PostLong() {
	l := []int{63, 64, 127, 128, 254, 255}[vsym.Choose(6)]
	b := bytes.Repeat([]byte{'x'}, l)
	b[0] = vsym.Byte()
	b[l-1] = vsym.Byte()
	checkNames([]string{".notdef", string(b), "z", string(b[1:])}, "post: long")
}

// H_PostMany: many glyphs.
//
//gosym: quick=8 thorough=30 steps=80000000
func H_PostMany() {
	n := []int{255, 256, 257, 300, 32768, 65278, 65535}[vsym.Choose(7)]
	names := make([]string, n)
	c := string(vsym.Bytes(1))
	distinct := n <= 300
	for i := range names {
		switch {
		case distinct:
			names[i] = "g" + strconv.Itoa(i)
		case i%2 == 0:
			names[i] = rx.MacNames[i%258]
		default:
			names[i] = "g" + strconv.Itoa(i)
		}
	}
	names[n-1] = "last" + c
	if n > 32768 && vsym.Bool() {
		// few different names
		for i := range names {
			names[i] = "same"
		}
		names[n-1] = "last" + c
		label := "post: repeated"
		checkNames(names, label)
		return
	}
	checkNames(names, "post: many")
}

// H_PostDistinct: more custom names than the format can number.
//
//gosym: quick=6 thorough=10 steps=80000000
func H_PostDistinct() {
	n := []int{65278, 65279}[vsym.Choose(2)]
	names := make([]string, n)
	for i := range names {
		names[i] = "g" + strconv.Itoa(i)
	}
	if n <= 65278 {
		checkNames(names, "post: distinct")
	} else {
		checkNames(names, "post: too many custom names")
	}
}

// H_PostRead: tables written by others.
//
//gosym: quick=8 thorough=60
func H_PostRead() {
	n := 1 + int(vsym.Choose(3))
	k := int(vsym.Choose(4))
	data := make([]byte, 32)
	data[1] = 2
	data = append(data, 0, byte(n))
	strs := make([]string, k)
	var tail []byte
	for i := range strs {
		b := vsym.Bytes(int(vsym.Choose(3)))
		strs[i] = string(b)
		tail = append(append(tail, byte(len(b))), b...)
	}
	want := make([]string, n)
	for i := range want {
		x := int(vsym.Choose(k + 2))
		if x < k {
			want[i] = strs[x]
			x += 258
		} else {
			x = []int{0, 257}[x-k]
			want[i] = rx.MacNames[x]
		}
		data = append(data, byte(x>>8), byte(x))
	}
	data = append(data, tail...)
	info, err := post.Read(bytes.NewReader(data))
	vsym.Assert(err == nil, "post: valid table rejected")
	vsym.Assert(len(info.Names) == n, "post: number of names read")
	for i, s := range want {
		vsym.Assert(info.Names[i] == s, "post: wrong name read")
	}
}
