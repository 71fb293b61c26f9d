// Package c04 checks that compiled charstrings describe the original glyph.
package c04

import (
	"bytes"
	"math"

	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/verifh/t2"
	"seehuhn.de/go/sfnt/internal/vsym"
)

func font(glyphs []*cff.Glyph) *cff.Font {
	return &cff.Font{
		FontInfo: &type1.FontInfo{FontName: "Test", FontMatrix: [6]float64{0.001, 0, 0, 0.001, 0, 0}},
		Outlines: &cff.Outlines{
			Glyphs:   glyphs,
			Private:  []*type1.PrivateDict{{BlueShift: 7, BlueFuzz: 1, BlueScale: 0.039625}},
			FDSelect: func(glyph.ID) int { return 0 },
		},
	}
}

// near allows for one rounding to 16.16.
func near(a, b float64) bool {
	d := a - b
	return vsym.And(d <= 1.0/65536, d >= -1.0/65536)
}

var kinds = map[cff.GlyphOpType]byte{cff.OpMoveTo: 'm', cff.OpLineTo: 'l', cff.OpCurveTo: 'c', cff.OpHintMask: 'h', cff.OpCntrMask: 'k'}

func stems(got, want []float64, label string) {
	vsym.Assert(len(got) == len(want), label+" count")
	for i := range want {
		vsym.Assert(near(got[i], want[i]), label)
	}
}

// check writes the font and compares every glyph with what the emitted
// charstring draws under the specification, and with what cff.Read gives.
func check(glyphs []*cff.Glyph, label string) {
	if write(glyphs, label) != nil {
		vsym.Fail(label + ": glyph refused")
	}
}

func write(glyphs []*cff.Glyph, label string) error {
	buf := &hx.Buf{}
	err := font(glyphs).Write(buf)
	if err != nil {
		return err
	}
	p, msg := t2.Parse(buf.B)
	vsym.Assert(msg == "", label+": "+msg)
	vsym.Assert(len(p.Glyphs) == len(glyphs), label+": number of glyphs")
	back, err := cff.Read(bytes.NewReader(buf.B))
	vsym.Assert(err == nil, label+": not readable")
	for i, g := range glyphs {
		fd := p.FD[p.Select[i]]
		res, status := t2.Run(p.Glyphs[i], fd.Subrs, p.Global, fd.Default, fd.Nominal)
		vsym.Assert(status == t2.OK, label+": charstring not valid")
		vsym.Assert(res.MaxStack <= 48, label+": stack overflow")
		vsym.Assert(res.Used == len(p.Glyphs[i]), label+": data after endchar")
		vsym.Assert(near(res.Width, g.Width), label+": width")
		stems(res.HStem, g.HStem, label+": hstem")
		stems(res.VStem, g.VStem, label+": vstem")
		b := back.Glyphs[i]
		vsym.Assert(near(b.Width, g.Width), label+": width read back")
		stems(b.HStem, g.HStem, label+": hstem read back")
		stems(b.VStem, g.VStem, label+": vstem read back")
		vsym.Assert(len(res.Ops) == len(g.Cmds), label+": number of path elements")
		vsym.Assert(len(b.Cmds) == len(g.Cmds), label+": number of path elements read back")
		for j, cmd := range g.Cmds {
			op := res.Ops[j]
			vsym.Assert(op.Kind == kinds[cmd.Op] && b.Cmds[j].Op == cmd.Op, label+": kind of path element")
			vsym.Assert(len(op.Args) == len(cmd.Args) && len(b.Cmds[j].Args) == len(cmd.Args), label+": number of arguments")
			for k, a := range cmd.Args {
				vsym.Assert(near(op.Args[k], a), label+": coordinate or mask")
				vsym.Assert(near(b.Cmds[j].Args[k], a), label+": coordinate or mask read back")
			}
		}
	}
	return nil
}

func notdef(w float64) *cff.Glyph { return cff.NewGlyph(".notdef", w) }

// pen builds paths from relative coordinates.
type pen struct {
	g    *cff.Glyph
	x, y float64
}

func (p *pen) move(dx, dy float64) {
	p.x += dx
	p.y += dy
	p.g.MoveTo(p.x, p.y)
}

func (p *pen) line(dx, dy float64) {
	p.x += dx
	p.y += dy
	p.g.LineTo(p.x, p.y)
}

func (p *pen) curve(a, b, c, d, e, f float64) {
	x1, y1 := p.x+a, p.y+b
	x2, y2 := x1+c, y1+d
	p.x, p.y = x2+e, y2+f
	p.g.CurveTo(x1, y1, x2, y2, p.x, p.y)
}

// small is an arbitrary nonzero number in the one-byte range.
func small() float64 {
	x := vsym.Int16D(5)
	vsym.Assume(vsym.And(vsym.And(x >= -107, x <= 107), x != 0))
	return float64(x) * unit
}

// unit is the unit of the numbers returned by small.
var unit float64

func chooseUnit() {
	unit = 1
	if vsym.Choose(2) == 1 {
		unit = 1.0 / 256
	}
}

// delta is zero or an arbitrary nonzero number.
func delta() float64 {
	if vsym.Choose(2) == 0 {
		return 0
	}
	return small()
}

// num is an arbitrary number of one of the encoded forms.
func num() float64 {
	x := vsym.Int16D(7)
	switch vsym.Choose(7) {
	case 0:
		vsym.Assume(vsym.And(x >= -107, x <= 107))
	case 1:
		vsym.Assume(vsym.And(x >= 108, x <= 1131))
	case 2:
		vsym.Assume(vsym.And(x >= -1131, x <= -108))
	case 3:
		vsym.Assume(vsym.And(x >= 1132, x <= 16000))
	case 4:
		vsym.Assume(vsym.And(x >= -16000, x <= -1132))
	case 5: // 16.16
		y := vsym.Int32D(70000)
		vsym.Assume(vsym.And(y >= -1000<<16, y <= 1000<<16))
		return float64(y) / 65536
	case 6: // needs rounding
		y := vsym.Int32D(70001)
		vsym.Assume(vsym.And(y >= -1000<<19, y <= 1000<<19))
		return float64(y) / (1 << 19)
	}
	return float64(x)
}

func glyphA() (*cff.Glyph, *pen) {
	g := cff.NewGlyph("A", 500)
	return g, &pen{g: g}
}

// H_Short: up to four path elements with every pattern of zero and nonzero
// differences.
//
//gosym: quick=20 thorough=300
func H_Short() {
	chooseUnit()
	g, p := glyphA()
	p.move(delta(), delta())
	n := 1 + vsym.Choose(3)
	if vsym.Thorough() {
		n = 1 + vsym.Choose(4)
	}
	for i := 0; i < n; i++ {
		switch vsym.Choose(3) {
		case 0:
			p.line(delta(), delta())
		case 1:
			p.curve(delta(), delta(), delta(), delta(), delta(), delta())
		case 2:
			p.move(delta(), delta())
		}
	}
	check([]*cff.Glyph{notdef(500), g}, "short path")
}

// H_Curves: two and three curves with every pattern of zero and nonzero
// end tangents, and vertical distances which can cancel.
//
//gosym: quick=20 thorough=240
func H_Curves() {
	chooseUnit()
	g, p := glyphA()
	p.move(1, 2)
	n := 2 + vsym.Choose(2)
	if vsym.Choose(2) == 1 {
		p.line(delta(), delta())
	}
	prev := float64(7)
	for i := 0; i < n; i++ {
		a, b, e, f := delta(), delta(), delta(), delta()
		d := prev
		switch vsym.Choose(3) {
		case 0:
			d = -prev
		case 1:
			d = small()
		case 2:
			d = -prev - b - f
		}
		prev = d
		p.curve(a, b, small(), d, e, f)
	}
	if vsym.Choose(2) == 1 {
		p.line(delta(), delta())
	}
	check([]*cff.Glyph{notdef(500), g}, "curves")
}

// H_Flex: two curves which start and end at the same height.
//
//gosym: quick=10 thorough=100
func H_Flex() {
	chooseUnit()
	g, p := glyphA()
	p.move(small(), small())
	dy1, dy2, dy5 := delta(), delta(), delta()
	dy6 := delta()
	switch vsym.Choose(4) {
	case 0:
		dy6 = -dy1 - dy2 - dy5
	case 1:
		dy5 = -dy2
	case 2:
		dy5 = -dy2 - dy1
	}
	dy3, dy4 := 0.0, 0.0
	if vsym.Choose(3) == 0 {
		dy3, dy4 = delta(), delta()
	}
	p.curve(delta(), dy1, small(), dy2, delta(), dy3)
	p.curve(delta(), dy4, small(), dy5, delta(), dy6)
	if vsym.Choose(2) == 1 {
		p.curve(delta(), dy4, small(), dy5, delta(), dy6)
	}
	check([]*cff.Glyph{notdef(500), g}, "flex")
}

// H_Numbers: differences of every encoded form, including ones which need
// rounding.
//
//gosym: quick=16 thorough=240
func H_Numbers() {
	g, p := glyphA()
	if vsym.Choose(2) == 0 {
		p.move(num(), num())
		p.line(num(), 0)
		p.line(1, num())
	} else {
		p.move(0, 0)
		p.curve(num(), 0, num(), num(), 0, 2)
	}
	check([]*cff.Glyph{notdef(500), g}, "numbers")
}

// H_Rounding: the rounding errors do not add up along the path.
//
//gosym: quick=16 thorough=240
func H_Rounding() {
	g, p := glyphA()
	frac := func() float64 {
		// strictly between two integers
		x := vsym.Int32D(3)
		vsym.Assume(vsym.And(x >= 1<<4, x < 1<<18-1<<4))
		return float64(x)/(1<<18) + float64(int(vsym.Choose(2))*3-2)
	}
	p.move(frac(), frac())
	for i := 0; i < 3; i++ {
		switch vsym.Choose(2) {
		case 0:
			p.line(frac(), frac())
		case 1:
			p.curve(frac(), frac(), frac(), frac(), frac(), frac())
		}
	}
	check([]*cff.Glyph{notdef(500), g}, "rounding")
}

// H_Long: runs of lines and curves longer than the operand stack.
//
//gosym: quick=20 thorough=240
func H_Long() {
	chooseUnit()
	g, p := glyphA()
	p.move(3, 4)
	s := small()
	switch vsym.Choose(8) {
	case 0: // rlineto
		n := 22 + vsym.Choose(5)
		for i := 0; i < n; i++ {
			p.line(s, float64(i+1))
		}
		if vsym.Choose(2) == 1 {
			p.curve(1, 2, 3, s, 5, 6)
		}
	case 1: // hlineto, vlineto
		n := 46 + vsym.Choose(5)
		h := vsym.Choose(2)
		for i := 0; i < n; i++ {
			if (i+h)%2 == 0 {
				p.line(s, 0)
			} else {
				p.line(0, float64(i+1))
			}
		}
	case 2: // rrcurveto
		n := 6 + vsym.Choose(4)
		for i := 0; i < n; i++ {
			p.curve(s, 1, 2, 3, 4, float64(i+5))
		}
		if vsym.Choose(2) == 1 {
			p.line(1, s)
		}
	case 3: // hhcurveto
		n := 10 + vsym.Choose(4)
		p.curve(1, delta(), 2, 3, s, 0)
		for i := 0; i < n; i++ {
			p.curve(s, 0, 2, 3, float64(i+5), 0)
		}
	case 4: // vvcurveto
		n := 10 + vsym.Choose(4)
		p.curve(delta(), 1, 2, 3, 0, s)
		for i := 0; i < n; i++ {
			p.curve(0, s, 2, 3, 0, float64(i+5))
		}
	case 5, 6: // hvcurveto, vhcurveto
		n := 9 + vsym.Choose(6)
		h := vsym.Choose(2)
		for i := 0; i < n; i++ {
			var last float64
			if i == n-1 {
				last = delta()
			}
			if (i+h)%2 == 0 {
				p.curve(s, 0, 2, 3, last, 5)
			} else {
				p.curve(0, s, 2, 3, 5, last)
			}
		}
	case 7: // mixture
		n := 5 + vsym.Choose(3)
		for i := 0; i < n; i++ {
			p.line(s, 1)
			p.line(0, s)
			p.curve(1, 2, 3, s, 0, 6)
			p.curve(1, 0, 3, -s, 4, 0)
		}
	}
	if vsym.Choose(2) == 1 {
		p.move(0, 1)
	}
	check([]*cff.Glyph{notdef(500), g}, "long path")
}

// H_Hints: stem hints, masks and the width.
//
//gosym: quick=20 thorough=240
func H_Hints() {
	chooseUnit()
	g, p := glyphA()
	counts := []int{0, 1, 2, 7, 23, 24, 25, 48}
	if vsym.Choose(2) == 1 {
		g.Width = 523
	}
	fill := func(n int) []float64 {
		var res []float64
		x := 0.0
		for i := 0; i < n; i++ {
			switch i {
			case 0:
				x += small()
			case 1:
				x += float64(vsym.Choose(2)) * (0.25 + 1.0/(1<<19))
			default:
				x += 10 + 1.0/(1<<18)
			}
			y := x + 20 + 1.0/(1<<18)
			if i == 0 && vsym.Choose(2) == 1 {
				y = x - 20 // ghost hint
			}
			res = append(res, x, y)
			x = y
		}
		return res
	}
	g.HStem = fill(counts[vsym.Choose(len(counts))])
	g.VStem = fill(counts[vsym.Choose(len(counts))])
	n := (len(g.HStem) + len(g.VStem)) / 2
	mask := func() {
		if n == 0 {
			return
		}
		op := cff.GlyphOp{Op: cff.OpHintMask}
		if vsym.Choose(2) == 1 {
			op.Op = cff.OpCntrMask
		}
		for i := 0; i < (n+7)/8; i++ {
			b := byte(0xA5)
			if i == 0 {
				b = vsym.Byte()
			}
			op.Args = append(op.Args, float64(b))
		}
		g.Cmds = append(g.Cmds, op)
	}
	when := vsym.Choose(8)
	if when&1 != 0 {
		mask()
	}
	if vsym.Choose(4) > 0 {
		p.move(delta(), 3)
		p.line(1, 2)
		if when&2 != 0 {
			mask()
		}
		p.line(1, 2)
		p.move(4, 5)
		if when&4 != 0 {
			mask()
		}
		p.curve(1, 2, 3, 4, 5, 6)
	}
	check([]*cff.Glyph{notdef(500), g}, "hints")
}

// H_Widths: arbitrary advance widths.
//
//gosym: quick=20 thorough=240
func H_Widths() {
	vsym.NoMerge(true)
	// The mean width is an exact number for 1, 2 and 4 glyphs.
	n := []int{1, 2, 4, 3, 5}[vsym.Choose(5)]
	exact := n&(n-1) == 0
	nSym := 0
	var glyphs []*cff.Glyph
	for i := 0; i < n; i++ {
		var w float64
		k := vsym.Choose(6)
		if k >= 4 && (!exact || nSym >= 2 && !vsym.Thorough()) {
			k -= 4
		}
		switch k {
		case 0:
			w = 500
		case 1:
			w = 333.25
		case 2:
			w = 0
		case 3:
			w = 1000.75
		case 4:
			x := vsym.Int16D(500)
			vsym.Assume(vsym.And(x >= 0, x <= 16000))
			w = float64(x)
			nSym++
		case 5:
			x := vsym.Int32D(500<<16 + 1<<14)
			vsym.Assume(vsym.And(x >= 0, x <= 16000<<16))
			w = float64(x) / 65536
			nSym++
		}
		name := ".notdef"
		if i > 0 {
			name = string(rune('A' + i))
		}
		glyphs = append(glyphs, cff.NewGlyph(name, w))
	}
	check(glyphs, "widths")
}

// H_Range: coordinates over the whole range.  Differences which do not fit
// into the number format must be refused.
//
//gosym: quick=10 thorough=60
func H_Range() {
	coord := func() float64 {
		x := vsym.Int16()
		vsym.Assume(vsym.And(x >= -32000, x <= 32000))
		if vsym.Choose(2) == 1 {
			return float64(x) + 0.5
		}
		return float64(x)
	}
	g, _ := glyphA()
	x, y := coord(), coord()
	g.MoveTo(x, 0)
	g.LineTo(y, 0)
	err := write([]*cff.Glyph{notdef(500), g}, "range")
	d := y - x
	if err != nil {
		vsym.Reach("refused")
		vsym.Assert(vsym.Or(d < -32768, d >= 32767.99999), "representable glyph refused")
	} else {
		vsym.Reach("written")
	}
}

// H_WidthRange: widths far apart.
//
//gosym: quick=4 thorough=20
func H_WidthRange() {
	ws := []float64{0, 1, 500, 32767, 32000.5, -32000, 65535, 20000, -5.25, 32767.75}
	var glyphs []*cff.Glyph
	for i := 0; i < 3; i++ {
		name := ".notdef"
		if i > 0 {
			name = string(rune('A' + i))
		}
		glyphs = append(glyphs, cff.NewGlyph(name, ws[vsym.Choose(len(ws))]))
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, g := range glyphs {
		lo, hi = min(lo, g.Width), max(hi, g.Width)
	}
	if err := write(glyphs, "width range"); err != nil {
		vsym.Reach("refused")
		vsym.Assert(hi-lo > 65534, "representable width refused")
	}
}
