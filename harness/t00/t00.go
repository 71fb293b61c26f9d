// Package t00 exercises the symbolic executor itself (engine self test).
package t00

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"seehuhn.de/go/sfnt/internal/vsym"
)

type shape interface{ Area() int }
type sq struct{ a int }
type rc struct{ a, b int }

func (s sq) Area() int  { return s.a * s.a }
func (r *rc) Area() int { return r.a * r.b }

type emb struct {
	sq
	name string
}

func gen[T int | uint16 | string](xs []T, f func(T) T) []T {
	var out []T
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

func obs(x any) { vsym.ObserveStr(fmt.Sprint(x)) }

// H_Lang runs concrete language features.
//gosym: quick=5
func H_Lang() {
	var ss []shape
	ss = append(ss, sq{3}, &rc{4, 5}, emb{sq{6}, "x"})
	t := 0
	for _, s := range ss {
		t += s.Area()
		switch v := s.(type) {
		case sq:
			t += v.a
		case *rc:
			t -= v.b
		}
	}
	obs(t)
	m := map[string][]int{}
	for i := range 10 {
		k := strconv.Itoa(i % 3)
		m[k] = append(m[k], i)
	}
	delete(m, "1")
	obs(len(m))
	ks := make([]string, 0)
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	obs(ks)
	obs(m["0"])
	obs(gen([]int{1, 2, 3}, func(x int) int { return x * t }))
	obs(gen([]string{"a", "b"}, strings.ToUpper))
	f := func() (res int, err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered: %v", r)
				res = 7
			}
		}()
		var a []int
		return a[t], nil
	}
	r, err := f()
	obs(r)
	vsym.Log(fmt.Sprint("err=",err))
	e2 := fmt.Errorf("wrap: %w", io.EOF)
	obs(errors.Is(e2, io.EOF))
	var buf bytes.Buffer
	binary.Write(&buf, binary.BigEndian, struct {
		A uint16
		B int32
		C [2]uint8
	}{1, -2, [2]uint8{3, 4}})
	vsym.ObserveBytes(buf.Bytes())
	buf.WriteString("héllo")
	for i, r := range buf.String() {
		vsym.Observe(uint64(i)<<32 | uint64(r))
	}
	var arr [5]int
	p := &arr[2]
	*p = 9
	b := arr
	b[2]++
	obs(arr)
	obs(b)
	obs(math.Round(2.5))
	obs(math.Floor(-2.5))
	obs(1.0 / 3)
	obs(float32(1.0) / 3)
	x := uint8(200)
	x += 100
	obs(x)
	obs(int8(x) << 2)
	obs(-7 / 2)
	obs(-7 % 3)
	obs(uint32(1) << 31)
	ch := make(chan int)
	done := make(chan bool)
	go func() {
		s := 0
		for v := range ch {
			s += v
		}
		obs(s)
		close(done)
	}()
	for i := 0; i < 5; i++ {
		ch <- i
	}
	close(ch)
	<-done
	obs(vsym.Quiesce())
	fns := []func() int{}
	for i := 0; i < 3; i++ {
		fns = append(fns, func() int { i *= 2; return i })
	}
	for _, f := range fns {
		obs(f())
	}
	sl := make([]int, 3, 10)
	sl2 := append(sl, 1)
	sl3 := append(sl, 2)
	obs(sl2)
	obs(sl3)
	copy(sl2[1:], sl2)
	obs(sl2)
	obs(strings.Split("a,b,c", ","))
	obs(fmt.Sprintf("%05d|%x|%q|%v|%-5s|%8.3f|%t|%c|%U", 42, 255, "hi", []string{"q"}, "ab", 3.14159, true, 'x', 0x1F600))
	type key struct {
		a, b uint16
	}
	mm := map[key]bool{{1, 2}: true}
	obs(mm[key{1, 2}])
	obs(mm[key{2, 1}])
	goto end
end:
	lbl := 0
outer:
	for i := 0; i < 5; i++ {
		for j := 0; j < 5; j++ {
			if j == 3 {
				continue outer
			}
			if i == 3 {
				break outer
			}
			lbl += i*j + 1
		}
	}
	obs(lbl)
	obs(min(3, 1, 2))
	obs(max(3.5, 1))
	clear(m)
	obs(len(m))
	sort.Slice(sl2, func(i, j int) bool { return sl2[i] < sl2[j] })
	obs(sl2)
	var ip *rc
	var sh shape = ip
	obs(sh == nil)
	obs([]byte("abc"))
	obs(string([]rune{72, 0x4e16}))
	var ar2 [3][2]uint8
	ar2[1][1] = 4
	ar3 := ar2
	ar3[1][1] = 5
	obs(ar2)
	obs(ar3)
	obs(*(&ar3[1]))
	obs(fmt.Sprintf("%+v %T", rc{1, 2}, sq{1}))
}

// H_Sym covers symbolic arithmetic.
//gosym: quick=10
func H_Sym() {
	a := vsym.Uint32()
	b := vsym.Int16()
	c := int(vsym.Byte())
	d := uint64(a)*uint64(c) + uint64(b)
	vsym.Observe(d)
	if a > 1000 && b < 0 {
		vsym.Observe(uint64(int64(b) * int64(c)))
		if a%7 == 3 {
			vsym.Observe(uint64(a / 7))
		}
	}
	s := a >> (c & 31)
	vsym.Observe(uint64(s))
	vsym.Observe(uint64(int32(a) >> 3))
	vsym.Assert(uint64(s)<<(c&31) <= uint64(a), "shift")
	arr := []int{5, 6, 7, 8}
	vsym.Observe(uint64(arr[c&3]))
	if c < 4 {
		arr[c] = int(b)
		vsym.Observe(uint64(arr[0]))
		vsym.Observe(uint64(arr[3]))
	}
	buf := vsym.Bytes(4)
	x := binary.BigEndian.Uint32(buf)
	vsym.Observe(uint64(x))
	if x == 0x01020304 {
		vsym.Reach("magic")
		vsym.Assert(buf[3] == 4, "magic3")
	}
	f := float64(b) / 16
	vsym.Observe(math.Float64bits(f * 3))
	if f > 100.25 {
		vsym.Observe(1)
	}
	vsym.Observe(uint64(int64(math.Round(f))))
	m := map[byte]int{1: 10, 2: 20}
	m[buf[0]] += 5
	vsym.Observe(uint64(m[1]))
	vsym.Observe(uint64(len(m)))
	str := string(buf)
	if strings.HasPrefix(str, "ab") {
		vsym.Observe(77)
	}
	vsym.ObserveStr(str)
	n := vsym.Int(0, 5)
	z := make([]byte, n)
	for i := range z {
		z[i] = byte(i) + buf[0]
	}
	vsym.ObserveBytes(z)
	k := vsym.Choose(3)
	vsym.Observe(uint64(k))
}

// H_Bug must be found.
//gosym: quick=10
func H_Bug() {
	a := vsym.Uint16()
	b := vsym.Uint16()
	if a*b == 0x1234 && a > 100 && b > 100 && a&1 == 0 {
		if a^b == 0x55 {
			return
		}
		vsym.Reach("deep")
		var x []int
		vsym.Observe(uint64(x[a]))
	}
}

type rd struct{}

func (rd) Read(b []byte) (int, error) { return 0, io.EOF }

// H_EOF tests errors.
func H_EOF() {
	vsym.Choose(3)
	var r io.Reader = rd{}
	for i := range 3 {
		l, err := r.Read(make([]byte, 4))
		if err == io.EOF {
			if l > 0 {
				err = nil
			} else {
				err = io.ErrUnexpectedEOF
			}
		}
		obs(i)
		vsym.Log(fmt.Sprint("err=",err))
		if err != nil {
			return
		}
	}
}

type sf struct {
	data []byte
	pos  int64
}

func (f *sf) Read(buf []byte) (int, error) {
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(buf, f.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

type prs struct {
	r         io.Reader
	buf       []byte
	from      int64
	pos, used int
}

func (p *prs) rb(n int) ([]byte, error) {
	it := 0
	for p.pos+n > p.used {
		it++
		if it > 3 {
			vsym.Fail("loop")
		}
		if len(p.buf) == 0 {
			p.buf = make([]byte, 1024)
		}
		k := copy(p.buf, p.buf[p.pos:p.used])
		p.from += int64(p.pos)
		p.pos = 0
		p.used = k

		l, err := p.r.Read(p.buf[p.used:])
		vsym.Log(fmt.Sprint("err=",err))
		vsym.Log(fmt.Sprint("l=",l))
		if err == io.EOF {
			if l > 0 {
				err = nil
			} else {
				err = io.ErrUnexpectedEOF
			}
		}
		vsym.Log(fmt.Sprint("err=",err))
		if err != nil {
			return nil, err
		}
		p.used += l
	}

	res := p.buf[p.pos : p.pos+n]
	p.pos += n
	return res, nil
}

func H_EOF2() {
	p := &prs{r: &sf{}}
	p.rb(2)
}

func (f *sf) Read2(buf []byte) (int, error) {
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	return 0, nil
}
func (f *sf) Read3(buf []byte) (int, error) {
	if f.pos >= 0 {
		vsym.Log(fmt.Sprint(io.EOF))
		return 0, io.EOF
	}
	return 1, nil
}
func (f *sf) Read4(buf []byte) (int, error) {
	return 0, io.EOF
}

func H_EOF3() {
	f := &sf{}
	_, err := f.Read2(nil)
	vsym.Log(fmt.Sprint("2 err=", err))
	_, err = f.Read3(nil)
	vsym.Log(fmt.Sprint("3 err=", err))
	_, err = f.Read4(nil)
	vsym.Log(fmt.Sprint("4 err=", err))
}
