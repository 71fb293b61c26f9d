// Package vsym is the interface between the verification harnesses and the
// symbolic executor in /verif/engine.  The executor intercepts every function
// of this package; the bodies below are used when a harness is compiled
// natively to replay an input found by the solver against the real code.
package vsym

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"reflect"
	"runtime"
	"sync"
	"time"
)

// Val is one recorded draw.
type Val struct {
	K string `json:"k"`
	W int    `json:"w,omitempty"`
	V uint64 `json:"v"`
	N string `json:"n,omitempty"`
}

// Violation is the panic value of a failed assertion.
type Violation struct{ Msg string }

// AssumeFailed is the panic value of a failed assumption.
type AssumeFailed struct{}

// Desync is the panic value if the replay vector does not fit the harness.
type Desync struct{ Msg string }

var (
	in       []Val
	pos      int
	obs      []uint64
	thorough bool
	race     bool
	baseG    int
	allocMax uint64
	alloc0   uint64
	stepT    time.Time
)

// Start prepares a replay.
func Start(input []Val, thor, withRace bool) {
	in, pos, obs, thorough, race = input, 0, nil, thor, withRace
	baseG = runtime.NumGoroutine()
	allocMax = 0
}

// Obs returns the observations made so far.
func Obs() []uint64 { return obs }

func draw(kind string, def uint64) uint64 {
	if pos >= len(in) {
		pos++
		return def
	}
	v := in[pos]
	pos++
	if v.K != kind {
		panic(Desync{fmt.Sprintf("draw %d: have %q, want %q", pos-1, v.K, kind)})
	}
	return v.V
}

func Byte() byte                { return byte(draw("v", 0)) }
func Uint16() uint16            { return uint16(draw("v", 0)) }
func Int16() int16              { return int16(draw("v", 0)) }
func Uint32() uint32            { return uint32(draw("v", 0)) }
func Int32() int32              { return int32(draw("v", 0)) }
func Uint64() uint64            { return draw("v", 0) }
func Int64() int64              { return int64(draw("v", 0)) }
func ByteD(d byte) byte         { return byte(draw("v", uint64(d))) }
func Uint16D(d uint16) uint16   { return uint16(draw("v", uint64(d))) }
func Int16D(d int16) int16      { return int16(draw("v", uint64(d))) }
func Uint32D(d uint32) uint32   { return uint32(draw("v", uint64(d))) }
func Int32D(d int32) int32      { return int32(draw("v", uint64(d))) }
func Uint64D(d uint64) uint64   { return draw("v", d) }
func Int64D(d int64) int64      { return int64(draw("v", uint64(d))) }
func Bool() bool                { return draw("v", 0) != 0 }

// Int returns an arbitrary value between lo and hi (inclusive).
func Int(lo, hi int) int {
	if lo > hi {
		panic(AssumeFailed{})
	}
	if lo == hi {
		draw("c", uint64(lo))
		return lo
	}
	v := int(draw("v", uint64(lo)))
	if v < lo || v > hi {
		panic(AssumeFailed{})
	}
	return v
}

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	res := make([]byte, n)
	for i := range res {
		res[i] = Byte()
	}
	return res
}

// Choose returns an arbitrary value 0 <= v < n, different on each path.
func Choose(n int) int {
	return int(draw("c", 0))
}

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Violation{msg})
	}
}

// AssertEqual fails if the two values are not structurally equal.  Nil and
// empty slices and maps are the same, functions and values of type time.Time
// are skipped.
func AssertEqual(a, b any, msg string) {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() || va.Type() != vb.Type() {
		if va.IsValid() || vb.IsValid() {
			panic(Violation{msg + ": type differs"})
		}
		return
	}
	deepEq(va, vb, msg, "")
}

func deepEq(a, b reflect.Value, msg, path string) {
	bad := func(s string) { panic(Violation{msg + ": " + s + " differs"}) }
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			bad(path)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			bad(path)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			bad(path)
		}
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() {
			bad(path)
		}
	case reflect.String:
		if a.String() != b.String() {
			bad(path)
		}
	case reflect.Func:
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				bad(path)
			}
			return
		}
		if a.Pointer() != b.Pointer() {
			deepEq(a.Elem(), b.Elem(), msg, path)
		}
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				bad(path)
			}
			return
		}
		a, b = a.Elem(), b.Elem()
		if a.Type() != b.Type() {
			bad(path + " (type)")
		}
		deepEq(a, b, msg, path)
	case reflect.Struct:
		if a.Type() == reflect.TypeFor[time.Time]() {
			return
		}
		for i := range a.NumField() {
			deepEq(a.Field(i), b.Field(i), msg, path+"."+a.Type().Field(i).Name)
		}
	case reflect.Array, reflect.Slice:
		if a.Len() != b.Len() {
			bad("length of " + path)
		}
		for i := range a.Len() {
			deepEq(a.Index(i), b.Index(i), msg, fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			bad("length of " + path)
		}
		for it := a.MapRange(); it.Next(); {
			v := b.MapIndex(it.Key())
			if !v.IsValid() {
				bad("keys of " + path)
			}
			deepEq(it.Value(), v, msg, path+"[...]")
		}
	default:
		panic("vsym: cannot compare " + a.Type().String())
	}
}

func Fail(msg string) { panic(Violation{msg}) }

// Reach marks a point which the exploration must reach.
func Reach(label string) {}

func Observe(x uint64) { obs = append(obs, x) }

func ObserveBytes(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	obs = append(obs, h.Sum64())
}

func ObserveStr(s string) { ObserveBytes([]byte(s)) }

func And(cc ...bool) bool {
	for _, c := range cc {
		if !c {
			return false
		}
	}
	return true
}

func Or(cc ...bool) bool {
	for _, c := range cc {
		if c {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// ErrorText returns err.Error().  In the symbolic executor, symbolic parts of
// the text are those of the representative input of the path.
func ErrorText(err error) string { return err.Error() }

// IsConcrete is true if none of the bytes is symbolic.
func IsConcrete(b []byte) bool { return true }

// Symbolic is true inside the symbolic executor.
func Symbolic() bool { return false }

// Thorough is true for the thorough tier.
func Thorough() bool { return thorough }

func Concrete(x int) int { return x }

func ConcreteBytes(b []byte) []byte { return b }

// Freeze declares everything allocated so far (and all globals) read-only.
func Freeze(msg string) {}

func Thaw() {}

// AllocLimit bounds the memory allocated until AllocCheck.
func AllocLimit(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	alloc0 = ms.TotalAlloc
	allocMax = uint64(n)
}

func AllocCheck() {
	if allocMax == 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if d := ms.TotalAlloc - alloc0; d > allocMax {
		panic(Violation{fmt.Sprintf("allocated %d bytes, limit %d", d, allocMax)})
	}
	allocMax = 0
}

// StepLimit bounds the number of instructions until StepCheck (natively: one
// second per 20 million instructions, at least two seconds).
func StepLimit(n int) {
	stepT = time.Now().Add(2*time.Second + time.Duration(n)*time.Microsecond/20)
}

func StepCheck() {
	if !stepT.IsZero() && time.Now().After(stepT) {
		panic(Violation{"step limit exceeded"})
	}
	stepT = time.Time{}
}

// MapOrder selects the iteration order of maps in the symbolic executor.
func MapOrder(mode int) {}

// Quiesce waits for other goroutines to finish or block, and returns how many
// are left.
func Quiesce() int {
	n := 0
	for i := 0; i < 200; i++ {
		runtime.Gosched()
		n = runtime.NumGoroutine() - baseG
		if n <= 0 {
			return 0
		}
		time.Sleep(time.Duration(i/20) * time.Millisecond)
	}
	return n
}

func NoMerge(on bool) {}

// Repeat is the number of repetitions needed to expose nondeterminism.
func Repeat() int { return 20 }

// Parallel runs f and g: one after the other in the symbolic executor,
// concurrently in a replay with the race detector.
func Parallel(f, g func()) {
	if !race {
		f()
		g()
		return
	}
	var wg sync.WaitGroup
	var p [2]any
	wg.Add(2)
	start := make(chan struct{})
	for i, h := range []func(){f, g} {
		go func() {
			defer wg.Done()
			defer func() { p[i] = recover() }()
			<-start
			h()
		}()
	}
	close(start)
	wg.Wait()
	for _, x := range p {
		if x != nil {
			panic(x)
		}
	}
}

func Log(s string) {}

// RuntimeError stands for the runtime's own errors in the symbolic executor.
type RuntimeError struct{ S string }

func (e RuntimeError) Error() string { return e.S }
func (e RuntimeError) RuntimeError() {}
