// Package c05 checks the Type 2 charstring interpreter against a reference
// interpreter.
package c05

import (
	"bytes"
	"math"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/verifh/t2"
	"seehuhn.de/go/sfnt/internal/vsym"
)

const (
	hstem, vmoveto, vstem              = 1, 4, 3
	rlineto, hlineto, vlineto          = 5, 6, 7
	rrcurveto, callsubr, ret           = 8, 10, 11
	endchar, hstemhm, hintmask         = 14, 18, 19
	cntrmask, rmoveto, hmoveto         = 20, 21, 22
	vstemhm, rcurveline, rlinecurve    = 23, 24, 25
	vvcurveto, hhcurveto, callgsubr    = 26, 27, 29
	vhcurveto, hvcurveto               = 30, 31
	and, or, not, abs                  = 3, 4, 5, 9
	add, sub, div, neg, eq             = 10, 11, 12, 14, 15
	drop, put, get, ifelse             = 18, 20, 21, 22
	random, mul, sqrt, dup, exch       = 23, 24, 26, 27, 28
	index, roll, hflex, flex, hflex1   = 29, 30, 34, 35, 36
	flex1, notdefWidth, defaultW, nomW = 37, 100, 500, 600
)

func near(a, b float64, exact bool) bool {
	if exact {
		return a == b
	}
	return math.Abs(a-b) < 1.0/256
}

// same compares the glyph the library has read with the reference.
func same(got *cff.Glyph, want *t2.Glyph, label string) {
	exact := !want.Inexact
	vsym.Assert(near(got.Width, want.Width, exact), label+": width")
	stems(got.HStem, want.HStem, exact, label+": hstem")
	stems(got.VStem, want.VStem, exact, label+": vstem")
	vsym.Assert(len(got.Cmds) == len(want.Ops), label+": number of path elements")
	kinds := map[cff.GlyphOpType]byte{cff.OpMoveTo: 'm', cff.OpLineTo: 'l', cff.OpCurveTo: 'c', cff.OpHintMask: 'h', cff.OpCntrMask: 'k'}
	for i, op := range want.Ops {
		g := got.Cmds[i]
		vsym.Assert(kinds[g.Op] == op.Kind, label+": kind of path element")
		vsym.Assert(len(g.Args) == len(op.Args), label+": number of arguments")
		for j := range op.Args {
			vsym.Assert(near(g.Args[j], op.Args[j], exact), label+": coordinate or mask byte")
		}
	}
}

func stems(got, want []float64, exact bool, label string) {
	vsym.Assert(len(got) == len(want), label+" count")
	for i := range want {
		vsym.Assert(near(got[i], want[i], exact), label)
	}
}

var notdef = []byte{14}

// check runs a program through the library and the reference.
func check(code []byte, local, global [][]byte, label string) {
	want, status := t2.Run(code, local, global, defaultW, nomW)
	fd := &t2.FD{Default: t2.Short(defaultW), Nominal: t2.Short(nomW), Subrs: local}
	data := t2.Simple([][]byte{notdef, code}, global, fd)
	f, err := cff.Read(bytes.NewReader(data))
	compare(f, err, want, status, 1, label)
}

func compare(f *cff.Font, err error, want *t2.Glyph, status t2.Status, gid int, label string) {
	switch status {
	case t2.OK:
		vsym.Reach("well-formed")
		if err != nil {
			vsym.Log(err.Error())
		}
		vsym.Assert(err == nil, label+": well-formed program rejected")
		same(f.Glyphs[gid], want, label)
	case t2.Malformed:
		vsym.Reach("malformed")
		vsym.Assert(err != nil, label+": malformed program accepted")
	default:
		vsym.Reach("unspecified")
	}
}

// num is an operand with a symbolic value, |x| <= lim.
func num(lim int16) []byte {
	x := vsym.Int16()
	vsym.Assume(vsym.And(x >= -lim, x <= lim))
	return []byte{28, byte(uint16(x) >> 8), byte(x)}
}

func nums(n int, lim int16) []byte {
	var res []byte
	for i := 0; i < n; i++ {
		res = append(res, num(lim)...)
	}
	return res
}

// H_Bytes: arbitrary bytes, alone or after a beginning.
//
//gosym: quick=20 thorough=400
func H_Bytes() {
	starts := [][]byte{
		nil,
		{139 + 10, 139 - 20, rmoveto},
		{139 + 10, 139 + 20, 139 + 1, 139 + 2, hstemhm},
		{139 + 7, 139 + 5, 139 + 3, 139 + 1},
		{139 + 3, 139 + 5, hmoveto, 139 + 1, 139 + 2, 139 + 3, 139 + 4, 139 + 5, 139 + 6, 139 + 7, 139 + 8},
	}
	n := 4
	if vsym.Thorough() {
		n = 6
	}
	code := hx.Clone(starts[vsym.Choose(len(starts))])
	code = append(code, vsym.Bytes(n)...)
	if vsym.Choose(2) == 1 {
		code = append(code, endchar)
	}
	sub := [][]byte{{139 + 9, ret}, {139 + 6, hlineto, ret}}
	check(code, sub, sub[1:], "bytes")
}

// H_Number: all encodings of numbers.
//
//gosym: quick=8 thorough=30
func H_Number() {
	var code []byte
	for i := 0; i < 2; i++ {
		switch vsym.Choose(5) {
		case 0:
			b := vsym.Byte()
			vsym.Assume(vsym.And(b >= 32, b <= 246))
			code = append(code, b)
		case 1:
			b := vsym.Byte()
			vsym.Assume(vsym.And(b >= 247, b <= 250))
			code = append(code, b, vsym.Byte())
		case 2:
			b := vsym.Byte()
			vsym.Assume(vsym.And(b >= 251, b <= 254))
			code = append(code, b, vsym.Byte())
		case 3:
			code = append(code, 28, vsym.Byte(), vsym.Byte())
		case 4:
			code = append(code, 255, vsym.Byte(), vsym.Byte(), vsym.Byte(), vsym.Byte())
		}
	}
	if vsym.Choose(2) == 0 {
		code = append(code, hmoveto) // the first number is the width
	} else {
		code = append(code, rmoveto)
	}
	code = append(code, 139+1, hlineto, endchar)
	check(code, nil, nil, "number")
}

var pathOps = []struct {
	op     byte
	esc    bool
	counts []int
	name   string
}{
	{rlineto, false, []int{0, 1, 2, 4, 6, 48}, "rlineto"},
	{hlineto, false, []int{0, 1, 2, 3, 4, 47, 48}, "hlineto"},
	{vlineto, false, []int{0, 1, 2, 3, 4, 47, 48}, "vlineto"},
	{rrcurveto, false, []int{0, 5, 6, 12, 48}, "rrcurveto"},
	{rcurveline, false, []int{2, 6, 7, 8, 14, 44}, "rcurveline"},
	{rlinecurve, false, []int{2, 6, 7, 8, 10, 12, 48}, "rlinecurve"},
	{hhcurveto, false, []int{3, 4, 5, 8, 9, 12, 48}, "hhcurveto"},
	{vvcurveto, false, []int{3, 4, 5, 8, 9, 12, 48}, "vvcurveto"},
	{hvcurveto, false, []int{3, 4, 5, 8, 9, 12, 13, 16, 17, 45, 48}, "hvcurveto"},
	{vhcurveto, false, []int{3, 4, 5, 8, 9, 12, 13, 16, 17, 45, 48}, "vhcurveto"},
	{hflex, true, []int{6, 7}, "hflex"},
	{flex, true, []int{12, 13}, "flex"},
	{hflex1, true, []int{8, 9}, "hflex1"},
	{flex1, true, []int{10, 11}, "flex1"},
	{rmoveto, false, []int{0, 1, 2}, "rmoveto"},
	{hmoveto, false, []int{0, 1}, "hmoveto"},
	{vmoveto, false, []int{0, 1}, "vmoveto"},
}

func opcode(op byte, esc bool) []byte {
	if esc {
		return []byte{12, op}
	}
	return []byte{op}
}

// H_Path: every path operator with every shape of its operand list, twice in
// a row, with arbitrary operands, and with or without a moveto.
//
//gosym: quick=20 thorough=240
func H_Path() {
	var code []byte
	switch vsym.Choose(4) {
	case 0: // no moveto
	case 1:
		code = append(nums(2, 3000), rmoveto)
	case 2:
		code = append(nums(2, 3000), hmoveto) // with width
	case 3:
		code = append(num(3000), vmoveto)
	}
	p := pathOps[vsym.Choose(len(pathOps))]
	code = append(code, nums(p.counts[vsym.Choose(len(p.counts))], 600)...)
	code = append(code, opcode(p.op, p.esc)...)
	name := p.name
	switch vsym.Choose(3) {
	case 1:
		code = append(code, 139-7, hlineto)
	case 2:
		q := pathOps[vsym.Choose(len(pathOps))]
		code = append(code, nums(q.counts[1+vsym.Choose(len(q.counts)-1)], 600)...)
		code = append(code, opcode(q.op, q.esc)...)
		name += "+" + q.name
	}
	if vsym.Choose(6) != 5 {
		code = append(code, endchar)
	}
	check(code, nil, nil, name)
}

// H_Wide: operands over the full range of numbers.
//
//gosym: quick=4 thorough=30
func H_Wide() {
	var code []byte
	n := 2
	for i := 0; i < n; i++ {
		code = append(code, 28, vsym.Byte(), vsym.Byte())
	}
	code = append(code, rmoveto)
	x := vsym.Uint32()
	code = append(code, 255, byte(x>>24), byte(x>>16), byte(x>>8), byte(x), hlineto, endchar)
	check(code, nil, nil, "wide")
}

// H_Hints: stem hints, masks, and the width.
//
//gosym: quick=20 thorough=240
func H_Hints() {
	var code []byte
	if vsym.Choose(2) == 1 {
		code = append(code, num(1000)...)
	}
	masks := vsym.Choose(3) // 0=none, 1=hintmask, 2=cntrmask
	nh := []int{0, 1, 2, 7, 8, 23}[vsym.Choose(6)]
	nv := []int{0, 1, 2, 7, 8, 23}[vsym.Choose(6)]
	opH, opV := byte(hstem), byte(vstem)
	if masks > 0 {
		opH, opV = hstemhm, vstemhm
	}
	total := nh + nv
	if nh > 0 {
		code = append(append(code, nums(2*nh, 300)...), opH)
		if vsym.Choose(3) == 2 {
			// a second hstem operator
			code = append(append(code, nums(2, 300)...), opH)
			total++
		}
	}
	if nv > 0 {
		code = append(code, nums(2*nv, 300)...)
		if masks == 0 || vsym.Choose(2) == 0 {
			code = append(code, opV)
		}
	}
	mask := func(kind int) {
		code = append(code, byte(hintmask+kind-1))
		code = append(code, vsym.Bytes((total+7)/8-vsym.Choose(2))...)
	}
	if masks > 0 && total > 0 {
		mask(masks)
	}
	code = append(append(code, nums(1+vsym.Choose(2), 300)...), hmoveto)
	if masks > 0 && total > 0 && vsym.Choose(2) == 1 {
		mask(1 + vsym.Choose(2))
		code = append(code, 139+5, hlineto)
	}
	code = append(code, endchar)
	check(code, nil, nil, "hints")
}

// H_EndWidth: endchar and masks as the first stack clearing operator.
//
//gosym: quick=3 thorough=10
func H_EndWidth() {
	code := nums(vsym.Choose(3), 2000)
	switch vsym.Choose(4) {
	case 0:
	case 1:
		code = append(code, hstemhm)
	case 2:
		code = append(code, hintmask, vsym.Byte())
	case 3:
		code = append(code, cntrmask, vsym.Byte(), 139+3, vmoveto)
	}
	code = append(code, endchar)
	check(code, nil, nil, "width")
}

var arith = []byte{and, or, not, abs, add, sub, neg, eq, drop, put, get, ifelse, mul, dup, exch, index, roll}

// H_Arith: arithmetic, storage and conditional operators.  The contents of the
// stack are made visible by a final hlineto.
//
//gosym: quick=24 thorough=240
func H_Arith() {
	code := []byte{139, hmoveto}
	k := vsym.Choose(6)
	for i := 0; i < k; i++ {
		if vsym.Choose(2) == 0 {
			b := vsym.Byte()
			vsym.Assume(vsym.And(b >= 130, b <= 148))
			code = append(code, b)
		} else {
			code = append(code, num(40)...)
		}
	}
	steps := 2
	if vsym.Thorough() {
		steps = 3
	}
	name := "arith"
	for i := 0; i < steps; i++ {
		code = append(code, 12, arith[vsym.Choose(len(arith))])
		if vsym.Choose(2) == 1 {
			b := vsym.Byte()
			vsym.Assume(vsym.And(b >= 134, b <= 145))
			code = append(code, b)
		}
	}
	code = append(code, hlineto, endchar)
	check(code, nil, nil, name)
}

// H_Roll: index and roll with arbitrary arguments.
//
//gosym: quick=8 thorough=60
func H_Roll() {
	code := []byte{139, hmoveto}
	k := 1 + vsym.Choose(5)
	code = append(code, nums(k, 100)...)
	n, j := byte(137+vsym.Choose(10)), byte(130+vsym.Choose(21))
	if vsym.Choose(2) == 0 {
		code = append(code, n, j, 12, roll)
	} else {
		code = append(code, n, 12, index)
	}
	code = append(code, hlineto, endchar)
	check(code, nil, nil, "roll/index")
}

// H_Store: put and get with arbitrary indices.
//
//gosym: quick=4 thorough=20
func H_Store() {
	code := []byte{139, hmoveto}
	i, j, k := vsym.Byte(), vsym.Byte(), vsym.Byte()
	for _, x := range []byte{i, j, k} {
		vsym.Assume(vsym.And(x >= 136, x <= 174))
	}
	code = append(append(code, num(1000)...), i, 12, put)
	code = append(append(code, num(1000)...), j, 12, put)
	code = append(code, k, 12, get, hlineto, endchar)
	check(code, nil, nil, "put/get")
}

// H_Inexact: division and square roots.
//
//gosym: quick=6 thorough=30
func H_Inexact() {
	vals := [][]byte{{139 + 1}, {139 + 3}, {139 - 7}, {139 + 100}, t2.Short(1000), t2.Short(-32000), {255, 0, 0, 0x80, 0}, {139}, {255, 0, 0, 0, 1}}
	code := []byte{139, hmoveto}
	code = append(code, vals[vsym.Choose(len(vals))]...)
	switch vsym.Choose(3) {
	case 0:
		code = append(code, 12, sqrt)
	case 1:
		code = append(code, vals[vsym.Choose(len(vals))]...)
		code = append(code, 12, div)
	case 2:
		code = append(code, vals[vsym.Choose(len(vals))]...)
		code = append(code, 12, mul)
	}
	if vsym.Choose(2) == 1 {
		code = append(code, 139+10, 12, mul)
	}
	code = append(code, hlineto, endchar)
	want, status := t2.Run(code, nil, nil, defaultW, nomW)
	if status == t2.OK {
		for _, op := range want.Ops {
			for _, a := range op.Args {
				vsym.Assume(math.Abs(a) <= 32000)
			}
		}
	}
	check(code, nil, nil, "inexact")
}

// H_Random: the result of random is in (0, 1].
//
//gosym: quick=2 thorough=4
func H_Random() {
	code := []byte{139, hmoveto, 12, random, hlineto, endchar}
	f, err := cff.Read(bytes.NewReader(t2.Simple([][]byte{notdef, code}, nil, &t2.FD{})))
	vsym.Assert(err == nil && len(f.Glyphs[1].Cmds) == 2, "random rejected")
	x := f.Glyphs[1].Cmds[1].Args[0]
	vsym.Assert(x > 0 && x <= 1, "random out of range")
}

// H_Stack: the limits of the operand stack.
//
//gosym: quick=4 thorough=20
func H_Stack() {
	code := []byte{139, hmoveto}
	n := 46 + vsym.Choose(4)
	for i := 0; i < n; i++ {
		code = append(code, 139+byte(i))
	}
	switch vsym.Choose(5) {
	case 0:
		code = append(code, hlineto)
	case 1:
		code = append(code, 12, dup, 12, drop, hlineto)
	case 2:
		code = append(code, 12, add, hlineto)
	case 3:
		code = append(code, 139-107, callsubr)
	case 4:
		code = append(code, 28, 0, 9, 12, drop, hlineto)
	}
	code = append(code, endchar)
	check(code, [][]byte{{hlineto, ret}}, nil, "stack")
}

// H_Subr: subroutine calls, with the number of subroutines around the limits
// of the bias rule.
//
//gosym: quick=20 thorough=200
func H_Subr() {
	sizes := []int{0, 1, 2, 1239, 1240}
	if vsym.Thorough() {
		sizes = append(sizes, 1241, 33899, 33900, 40000)
	}
	n := sizes[vsym.Choose(len(sizes))]
	b := 107
	if n >= 1240 {
		b = 1131
	}
	if n >= 33900 {
		b = 32768
	}
	subrs := make([][]byte, n)
	for i := range subrs {
		subrs[i] = []byte{28, byte((i + 1) >> 9), byte((i + 1) >> 1), hlineto, ret}
	}
	idx := []int{0, 1, n - 1, n, n + 1, -1, n / 2, 107, 1131}[vsym.Choose(9)] - b
	vsym.Assume(idx >= -32768 && idx <= 32767)
	code := append([]byte{139, hmoveto}, t2.Short(idx)...)
	var local, global [][]byte
	if vsym.Choose(2) == 0 {
		local, global = subrs, [][]byte{{139 + 44, vlineto, ret}}
		code = append(code, callsubr)
	} else {
		global, local = subrs, [][]byte{{139 + 44, vlineto, ret}}
		code = append(code, callgsubr)
	}
	code = append(code, endchar)
	check(code, local, global, "subr")
}

// H_SubrIndex: arbitrary subroutine numbers.
//
//gosym: quick=5 thorough=30
func H_SubrIndex() {
	var subrs [][]byte
	for i := 0; i < 4; i++ {
		subrs = append(subrs, []byte{139 + byte(i), hlineto, ret})
	}
	x := vsym.Int16()
	vsym.Assume(vsym.Or(vsym.And(x >= -110, x <= -100), vsym.Or(x >= 32760, x <= -32760)))
	code := []byte{139, hmoveto, 28, byte(uint16(x) >> 8), byte(x), byte(callsubr)}
	if vsym.Choose(2) == 1 {
		code[len(code)-1] = callgsubr
	}
	code = append(code, endchar)
	check(code, subrs, subrs[:3], "subr index")
}

// H_Nested: operands, the width, hints and endchar inside subroutines, and
// nesting up to and beyond the limit.
//
//gosym: quick=8 thorough=60
func H_Nested() {
	switch vsym.Choose(3) {
	case 0:
		// subroutine i calls subroutine i+1, alternating between the two tables
		depth := 8 + vsym.Choose(5)
		both := vsym.Choose(2) == 1
		local := make([][]byte, 16)
		global := make([][]byte, 16)
		for i := range local {
			call := byte(callsubr)
			if both && i%2 == 0 {
				call = callgsubr
			}
			s := []byte{139 - 107 + byte(i+1), call, 139 + byte(i), hlineto, ret}
			if i+1 >= depth {
				s = []byte{139 + 77, vlineto, ret}
			}
			local[i], global[i] = s, s
		}
		code := []byte{139, hmoveto, 139 - 107, callsubr, 139 - 6, vlineto, endchar}
		check(code, local, global, "nested")
	case 1:
		parts := [][]byte{
			append(nums(1+vsym.Choose(4), 200), ret),
			{hstemhm, ret},
			append(append(nums(2*vsym.Choose(2), 200), hintmask), append(vsym.Bytes(1), ret)...),
			append(nums(1+vsym.Choose(2), 200), hmoveto, ret),
			{139 - 5, hlineto, endchar},
		}
		var code []byte
		for i := range parts {
			code = append(code, 139-107+byte(i), callsubr)
		}
		if vsym.Choose(2) == 0 {
			code = append(code, 139+9, hlineto, endchar) // not reached
		}
		check(code, parts, nil, "parts in subroutines")
	case 2:
		subrs := [][]byte{
			{139 + 3, 139 - 106, callgsubr, ret},
			{12, add, ret},
		}
		code := append(append([]byte{}, nums(2, 200)...), 139-107, callsubr, rmoveto)
		if vsym.Choose(2) == 0 {
			code = append(code, endchar)
		} else {
			code = append(code, 139+2, hlineto, ret)
		}
		check(code, subrs, subrs, "operands in subroutines")
	}
}

// H_CID: the private DICTs of a CID-keyed font: widths and subroutines.
//
//gosym: quick=8 thorough=60
func H_CID() {
	widths := func() ([]byte, float64) {
		switch vsym.Choose(3) {
		case 0:
			return nil, 0
		case 1:
			x := vsym.Int16()
			return []byte{28, byte(uint16(x) >> 8), byte(x)}, float64(x)
		}
		return []byte{30, 0x12, 0xA2, 0x5F}, 12.25
	}
	var fds []*t2.FD
	var def, nom []float64
	n := 2 + vsym.Choose(2)
	for i := 0; i < n; i++ {
		fd := &t2.FD{}
		var d, m float64
		fd.Default, d = widths()
		fd.Nominal, m = widths()
		def, nom = append(def, d), append(nom, m)
		if vsym.Choose(3) > 0 {
			fd.Subrs = [][]byte{{139 + byte(i), hlineto, ret}, {139 + byte(i), vlineto, ret}}
		}
		fds = append(fds, fd)
	}
	global := [][]byte{{139 - 107, callsubr, ret}}
	codes := [][]byte{
		notdef,
		{139, hmoveto, 139 - 107, callsubr, endchar},
		append(num(1000), 139, hmoveto, 139-106, callsubr, endchar),
		{139, hmoveto, 139 - 107, callgsubr, endchar},
	}
	sel := make([]byte, len(codes))
	for i := range sel {
		sel[i] = byte(vsym.Choose(n))
	}
	f, err := cff.Read(bytes.NewReader(t2.CID(codes, global, fds, sel)))
	for i, code := range codes {
		fd := sel[i]
		want, status := t2.Run(code, fds[fd].Subrs, global, def[fd], nom[fd])
		if status == t2.Malformed {
			vsym.Reach("malformed")
			vsym.Assert(err != nil, "CID: malformed glyph accepted")
			return
		}
		if err != nil {
			continue
		}
		vsym.Reach("well-formed")
		same(f.Glyphs[i], want, "CID")
	}
	vsym.Assert(err == nil, "CID: font rejected")
}

// H_Mutate: single faults in well-formed programs.
//
//gosym: quick=20 thorough=240
func H_Mutate() {
	progs := [][]byte{
		{139 + 30, 139 + 1, 139 + 2, 139 + 3, 139 + 4, hstemhm, 139 + 5, 139 + 6, hintmask, 0xE0, 139 + 10, 139 + 20, rmoveto,
			139 + 5, 139 + 6, 139 + 7, hlineto, cntrmask, 0x60, 139 + 1, 139 + 2, 139 + 3, 139 + 4, 139 + 5, 139 + 6, rrcurveto, endchar},
		{139 + 10, hmoveto, 139 + 1, 139 + 2, 139 + 3, 139 + 4, 139 + 5, hvcurveto, 139 + 1, 139 + 2, 139 + 3, 139 + 4, 139 + 5, 139 + 6, 139 + 7, 12, hflex,
			139 - 107, callsubr, 139 + 2, 139 + 4, 12, sub, vlineto, endchar},
		{139 + 10, vmoveto, 139 + 1, 139 + 2, 139 + 3, 139 + 4, 139 + 5, 139 + 6, 139 + 7, 139 + 8, 139 + 9, 139 + 10, 139 + 11, 12, flex1,
			139 - 106, callgsubr, rlineto, endchar},
	}
	code := hx.Clone(progs[vsym.Choose(len(progs))])
	p := vsym.Choose(len(code))
	switch vsym.Choose(4) {
	case 0:
		code = code[:p]
	case 1:
		code = append(code[:p:p], code[p+1:]...)
	case 2:
		code[p] = vsym.Byte()
	case 3:
		code = append(append(code[:p:p], vsym.Byte()), code[p:]...)
	}
	subrs := [][]byte{{139 + 3, hlineto, ret}, {139 + 3, 139 + 4, ret}}
	check(code, subrs, subrs, "mutation")
}
