// Package t2 contains a reference interpreter for Type 2 charstrings, written
// from Adobe TN5177, and a minimal reader and builder for CFF files, written
// from Adobe TN5176.
package t2

import "math"

// Op is a path element: 'm', 'l', 'c' with absolute coordinates, or a mask
// ('h' for hintmask, 'k' for cntrmask) with the mask bytes.
type Op struct {
	Kind byte
	Args []float64
}

// Glyph is the result of running a charstring.
type Glyph struct {
	HStem, VStem []float64
	Ops          []Op
	Width        float64
	Inexact      bool // the program used results which are not 16.16 numbers
	MaxStack     int
	Used         int // number of bytes of the top level charstring executed
}

// Status classifies programs.
type Status int

// The possible values of Status.
const (
	OK          Status = iota
	Malformed          // must be rejected
	Unspecified        // the specification does not say what happens
)

type machine struct {
	g             *Glyph
	local, global [][]byte
	stack         []float64
	store         [32]float64
	stored        [32]bool
	x, y          float64
	nominal       float64
	widthDone     bool
	moved         bool
	stage         int // 0=start, 1=hstem, 2=vstem, 3=masks or path
	nStems        int
	steps         int
	unspecified   bool
	top           bool
}

// Run executes the program.
func Run(code []byte, local, global [][]byte, defaultWidth, nominalWidth float64) (*Glyph, Status) {
	m := &machine{g: &Glyph{Width: defaultWidth}, local: local, global: global, nominal: nominalWidth}
	done, st := m.run(code, 0)
	if st != OK {
		if m.unspecified {
			st = Unspecified
		}
		return nil, st
	}
	if m.unspecified {
		return nil, Unspecified
	}
	if !done {
		return nil, Malformed
	}
	return m.g, OK
}

func bias(n int) int {
	if n < 1240 {
		return 107
	}
	if n < 33900 {
		return 1131
	}
	return 32768
}

func (m *machine) push(x float64) {
	m.stack = append(m.stack, x)
	if len(m.stack) > m.g.MaxStack {
		m.g.MaxStack = len(m.stack)
	}
}

// args takes the operands of a stack clearing operator which may be preceded
// by the width.
func (m *machine) args(width bool) []float64 {
	s := m.stack
	m.stack = nil
	if !m.widthDone && width {
		m.g.Width = m.nominal + s[0]
		s = s[1:]
	}
	m.widthDone = true
	return s
}

func (m *machine) move(dx, dy float64) {
	m.moved = true
	m.stage = 3
	m.x += dx
	m.y += dy
	m.g.Ops = append(m.g.Ops, Op{'m', []float64{m.x, m.y}})
}

func (m *machine) line(dx, dy float64) {
	m.x += dx
	m.y += dy
	m.g.Ops = append(m.g.Ops, Op{'l', []float64{m.x, m.y}})
}

func (m *machine) curve(a, b, c, d, e, f float64) {
	x1, y1 := m.x+a, m.y+b
	x2, y2 := x1+c, y1+d
	m.x, m.y = x2+e, y2+f
	m.g.Ops = append(m.g.Ops, Op{'c', []float64{x1, y1, x2, y2, m.x, m.y}})
}

func (m *machine) stems(s []float64, vertical bool) {
	var pos float64
	for i := 0; i+1 < len(s); i += 2 {
		a := pos + s[i]
		pos = a + s[i+1]
		if vertical {
			m.g.VStem = append(m.g.VStem, a, pos)
		} else {
			m.g.HStem = append(m.g.HStem, a, pos)
		}
		m.nStems++
	}
}

func isInt(x float64) bool {
	return x == math.Trunc(x)
}

// run executes one charstring or subroutine.
func (m *machine) run(code []byte, depth int) (done bool, st Status) {
	total := len(code)
	for len(code) > 0 {
		m.steps++
		if m.steps > 2000 {
			m.unspecified = true
			return false, Unspecified
		}
		b := int(code[0])
		code = code[1:]
		switch {
		case b >= 32 && b <= 246:
			m.push(float64(b - 139))
		case b >= 247 && b <= 250:
			if len(code) < 1 {
				return false, Malformed
			}
			m.push(float64((b-247)*256 + int(code[0]) + 108))
			code = code[1:]
		case b >= 251 && b <= 254:
			if len(code) < 1 {
				return false, Malformed
			}
			m.push(float64(-(b-251)*256 - int(code[0]) - 108))
			code = code[1:]
		case b == 255:
			if len(code) < 4 {
				return false, Malformed
			}
			v := int32(uint32(code[0])<<24 | uint32(code[1])<<16 | uint32(code[2])<<8 | uint32(code[3]))
			m.push(float64(v) / 65536)
			code = code[4:]
		case b == 28:
			if len(code) < 2 {
				return false, Malformed
			}
			m.push(float64(int16(uint16(code[0])<<8 | uint16(code[1]))))
			code = code[2:]
		default:
			if len(m.stack) > 48 {
				return false, Malformed
			}
			if b == 12 {
				if len(code) < 1 {
					return false, Malformed
				}
				b = 256 + int(code[0])
				code = code[1:]
			}
			n := len(m.stack)
			switch b {
			case 10, 29: // callsubr, callgsubr
				if n < 1 {
					return false, Malformed
				}
				table := m.local
				if b == 29 {
					table = m.global
				}
				f := m.stack[n-1]
				if !isInt(f) {
					m.unspecified = true
					return false, Unspecified
				}
				idx := int(f) + bias(len(table))
				m.stack = m.stack[:n-1]
				if idx < 0 || idx >= len(table) {
					return false, Malformed
				}
				if depth >= 10 {
					return false, Malformed
				}
				done, st := m.run(table[idx], depth+1)
				if st != OK {
					return false, st
				}
				if done {
					if depth == 0 {
						m.g.Used = total - len(code)
					}
					return true, OK
				}
			case 11: // return
				if depth == 0 {
					return false, Malformed
				}
				return false, OK
			case 14: // endchar
				if n >= 4 && !(n == 5 && m.widthDone) {
					m.unspecified = true // the deprecated seac form
				}
				if n > 1 || n == 1 && m.widthDone {
					m.unspecified = true
				}
				m.args(n == 1)
				if depth == 0 {
					m.g.Used = total - len(code)
				}
				return true, OK
			case 19, 20: // hintmask, cntrmask
				if m.stage == 3 && m.nStems >= 0 && n > 0 && (n > 1 || m.widthDone) {
					m.unspecified = true // stem hints after the first mask
				}
				s := m.args(n%2 == 1)
				if len(s)%2 != 0 {
					m.unspecified = true
				}
				m.stems(s, true)
				m.stage = 3
				if m.nStems == 0 || m.nStems > 96 {
					m.unspecified = true
					return false, Unspecified
				}
				k := (m.nStems + 7) / 8
				if len(code) < k {
					return false, Malformed
				}
				op := Op{Kind: 'h'}
				if b == 20 {
					op.Kind = 'k'
				}
				for _, c := range code[:k] {
					op.Args = append(op.Args, float64(c))
				}
				m.g.Ops = append(m.g.Ops, op)
				code = code[k:]
			default:
				if st := m.operator(b); st != OK {
					return false, st
				}
			}
		}
	}
	if depth > 0 {
		m.unspecified = true // subroutine without return
		return false, OK
	}
	return false, OK
}

// minArgs gives the smallest number of operands of the path operators.
func minArgs(op int) int {
	switch op {
	case 21, 5:
		return 2
	case 22, 4, 6, 7:
		return 1
	case 8:
		return 6
	case 24, 25:
		return 8
	case 26, 27, 30, 31:
		return 4
	case 256 + 34:
		return 7
	case 256 + 35:
		return 13
	case 256 + 36:
		return 9
	case 256 + 37:
		return 11
	case 1, 3, 18, 23:
		return 2
	}
	return 0
}

func (m *machine) operator(op int) Status {
	n := len(m.stack)
	bad := func(cond bool) { // wrong, but not too few, operands
		if cond {
			m.unspecified = true
		}
	}
	if n < minArgs(op) {
		return Malformed
	}
	switch op {
	case 1, 18, 3, 23: // hstem, hstemhm, vstem, vstemhm
		vertical := op == 3 || op == 23
		bad(m.stage == 3 || m.stage == 2 && !vertical)
		s := m.args(n%2 == 1)
		bad(len(s)%2 != 0)
		m.stems(s, vertical)
		if m.stage < 3 {
			m.stage = 1
			if vertical {
				m.stage = 2
			}
		}
		return OK
	case 21: // rmoveto
		s := m.args(n > 2)
		bad(len(s) != 2)
		m.move(s[0], s[1])
		return OK
	case 22: // hmoveto
		s := m.args(n > 1)
		bad(len(s) != 1)
		m.move(s[0], 0)
		return OK
	case 4: // vmoveto
		s := m.args(n > 1)
		bad(len(s) != 1)
		m.move(0, s[0])
		return OK
	}

	path := op == 5 || op == 6 || op == 7 || op == 8 || op >= 24 && op <= 27 || op == 30 || op == 31 || op >= 256+34 && op <= 256+37
	if path {
		if !m.moved {
			return Malformed
		}
		s := m.stack
		m.stack = nil
		switch op {
		case 5:
			bad(n%2 != 0)
			for ; len(s) >= 2; s = s[2:] {
				m.line(s[0], s[1])
			}
		case 6, 7:
			h := op == 6
			for _, d := range s {
				if h {
					m.line(d, 0)
				} else {
					m.line(0, d)
				}
				h = !h
			}
		case 8:
			bad(n%6 != 0)
			for ; len(s) >= 6; s = s[6:] {
				m.curve(s[0], s[1], s[2], s[3], s[4], s[5])
			}
		case 24: // rcurveline
			bad(n%6 != 2)
			for ; len(s) >= 8; s = s[6:] {
				m.curve(s[0], s[1], s[2], s[3], s[4], s[5])
			}
			m.line(s[0], s[1])
		case 25: // rlinecurve
			bad(n%2 != 0)
			for ; len(s) >= 8; s = s[2:] {
				m.line(s[0], s[1])
			}
			if len(s) == 6 {
				m.curve(s[0], s[1], s[2], s[3], s[4], s[5])
			}
		case 27: // hhcurveto: dy1? {dxa dxb dyb dxc}+
			bad(n%4 > 1)
			var dy float64
			if n%4 == 1 {
				dy, s = s[0], s[1:]
			}
			for ; len(s) >= 4; s = s[4:] {
				m.curve(s[0], dy, s[1], s[2], s[3], 0)
				dy = 0
			}
		case 26: // vvcurveto: dx1? {dya dxb dyb dyc}+
			bad(n%4 > 1)
			var dx float64
			if n%4 == 1 {
				dx, s = s[0], s[1:]
			}
			for ; len(s) >= 4; s = s[4:] {
				m.curve(dx, s[0], s[1], s[2], 0, s[3])
				dx = 0
			}
		case 31, 30: // hvcurveto, vhcurveto
			bad(n%4 > 1)
			h := op == 31
			for ; len(s) >= 4; s = s[4:] {
				var last float64
				if len(s) == 5 {
					last = s[4]
				}
				if h {
					m.curve(s[0], 0, s[1], s[2], last, s[3])
				} else {
					m.curve(0, s[0], s[1], s[2], s[3], last)
				}
				h = !h
			}
		case 256 + 35: // flex
			bad(n != 13)
			m.curve(s[0], s[1], s[2], s[3], s[4], s[5])
			m.curve(s[6], s[7], s[8], s[9], s[10], s[11])
		case 256 + 34: // hflex
			bad(n != 7)
			y0 := m.y
			m.curve(s[0], 0, s[1], s[2], s[3], 0)
			m.curve(s[4], 0, s[5], y0-m.y, s[6], 0)
		case 256 + 36: // hflex1
			bad(n != 9)
			y0 := m.y
			m.curve(s[0], s[1], s[2], s[3], s[4], 0)
			m.curve(s[5], 0, s[6], s[7], s[8], y0-(m.y+s[7]))
		case 256 + 37: // flex1
			bad(n != 11)
			x0, y0 := m.x, m.y
			dx := s[0] + s[2] + s[4] + s[6] + s[8]
			dy := s[1] + s[3] + s[5] + s[7] + s[9]
			m.curve(s[0], s[1], s[2], s[3], s[4], s[5])
			if math.Abs(dx) > math.Abs(dy) {
				// The last argument is a horizontal distance, the end point
				// has the same y-coordinate as the starting point.
				m.curve(s[6], s[7], s[8], s[9], s[10], y0-(m.y+s[7]+s[9]))
			} else {
				m.curve(s[6], s[7], s[8], s[9], x0-(m.x+s[6]+s[8]), s[10])
			}
		}
		return OK
	}

	// Arithmetic, storage and conditional operators.
	need := map[int]int{
		256 + 3: 2, 256 + 4: 2, 256 + 5: 1, 256 + 9: 1, 256 + 10: 2, 256 + 11: 2, 256 + 12: 2, 256 + 14: 1, 256 + 15: 2,
		256 + 18: 1, 256 + 20: 2, 256 + 21: 1, 256 + 22: 4, 256 + 23: 0, 256 + 24: 2, 256 + 26: 1, 256 + 27: 1, 256 + 28: 2,
		256 + 29: 1, 256 + 30: 2,
	}
	k, ok := need[op]
	if !ok {
		m.unspecified = true // reserved
		return Unspecified
	}
	if n < k {
		return Malformed
	}
	a := append([]float64{}, m.stack[n-k:]...)
	m.stack = m.stack[:n-k]
	switch op {
	case 256 + 3: // and
		m.push(truth(a[0] != 0 && a[1] != 0))
	case 256 + 4: // or
		m.push(truth(a[0] != 0 || a[1] != 0))
	case 256 + 5: // not
		m.push(truth(a[0] == 0))
	case 256 + 9: // abs
		m.result(math.Abs(a[0]))
	case 256 + 10:
		m.result(a[0] + a[1])
	case 256 + 11:
		m.result(a[0] - a[1])
	case 256 + 12:
		if a[1] == 0 {
			m.unspecified = true
			return Unspecified
		}
		m.g.Inexact = true
		m.result(a[0] / a[1])
	case 256 + 14:
		m.result(-a[0])
	case 256 + 15: // eq
		m.push(truth(a[0] == a[1]))
	case 256 + 18: // drop
	case 256 + 20: // put: val i
		if !isInt(a[1]) {
			m.unspecified = true
			return Unspecified
		}
		if a[1] < 0 || a[1] >= 32 {
			m.unspecified = true
			return Unspecified
		}
		m.store[int(a[1])] = a[0]
		m.stored[int(a[1])] = true
	case 256 + 21: // get
		if !isInt(a[0]) || a[0] < 0 || a[0] >= 32 || !m.stored[int(a[0])] {
			m.unspecified = true
			return Unspecified
		}
		m.push(m.store[int(a[0])])
	case 256 + 22: // ifelse: s1 s2 v1 v2
		if a[2] <= a[3] {
			m.push(a[0])
		} else {
			m.push(a[1])
		}
	case 256 + 23: // random: any number in (0,1]
		m.unspecified = true
		m.push(0.5)
	case 256 + 24:
		p := a[0] * a[1]
		if !isInt(p * 65536) {
			m.g.Inexact = true // products are rounded to 16.16
		}
		m.result(p)
	case 256 + 26:
		if a[0] < 0 {
			m.unspecified = true
			return Unspecified
		}
		m.g.Inexact = true
		m.push(math.Sqrt(a[0]))
	case 256 + 27: // dup
		m.push(a[0])
		m.push(a[0])
	case 256 + 28: // exch
		m.push(a[1])
		m.push(a[0])
	case 256 + 29: // index
		if !isInt(a[0]) {
			m.unspecified = true
			return Unspecified
		}
		i := int(a[0])
		if i < 0 {
			i = 0
		}
		if i >= len(m.stack) {
			return Malformed
		}
		m.push(m.stack[len(m.stack)-1-i])
	case 256 + 30: // roll: N J
		if !isInt(a[0]) || !isInt(a[1]) || a[0] < 0 {
			m.unspecified = true
			return Unspecified
		}
		cnt, j := int(a[0]), int(a[1])
		if cnt > len(m.stack) {
			return Malformed
		}
		if cnt == 0 {
			return OK
		}
		s := m.stack[len(m.stack)-cnt:]
		old := append([]float64{}, s...)
		for i := range old {
			s[((i+j)%cnt+cnt)%cnt] = old[i]
		}
	}
	return OK
}

// result pushes the result of an arithmetic operation.  The specification
// does not define results outside the range of 16.16 numbers.
func (m *machine) result(v float64) {
	if v < -32768 || v >= 32768 {
		m.unspecified = true
	}
	m.push(v)
}

func truth(b bool) float64 {
	if b {
		return 1
	}
	return 0
}
