package main

// Goroutines and channels. Every interpreted goroutine runs on its own Go
// goroutine, but only the one holding the baton runs.

import (
	"math"

	"golang.org/x/tools/go/ssa"
)

type G struct {
	id    int
	fr    *frame
	stack []Value
	top   int
	saved []stackSave
	wake  chan bool // true: run, false: die
	ready func() bool
	done  bool
	main  bool
}

type ChanV struct {
	cap    int
	elem   *TInfo
	buf    []Value
	closed bool
	sendq  []*sendItem
	recvW  int // receivers waiting
}

type sendItem struct {
	v     Value
	taken bool
	dead  bool
}

func (m *Machine) newG() *G {
	g := &G{id: len(m.gs), stack: make([]Value, 4096), wake: make(chan bool)}
	m.gs = append(m.gs, g)
	return g
}

// spawn creates a goroutine; it starts running when the current one blocks.
func (m *Machine) spawn(f func()) {
	g := m.newG()
	g.stack = make([]Value, 1024)
	go func() {
		if !<-g.wake {
			g.done = true
			m.dead <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if m.killing {
				m.dead <- struct{}{}
				return
			}
			if r != nil {
				m.pending = r
				// hand over to the main goroutine, which re-raises
				m.g = m.gs[0]
				m.gs[0].wake <- true
				return
			}
			next := m.pick(g)
			if next == nil {
				m.pending = &targetPanic{msg: "all goroutines are asleep - deadlock!", rt: true}
				next = m.gs[0]
			}
			m.g = next
			next.wake <- true
		}()
		f()
	}()
	m.goCount++
}

// pick chooses the next goroutine to run after g.
func (m *Machine) pick(g *G) *G {
	n := len(m.gs)
	for k := 1; k <= n; k++ {
		c := m.gs[(g.id+k)%n]
		if c.done {
			continue
		}
		if c.ready == nil || c.ready() {
			return c
		}
	}
	return nil
}

// block suspends the current goroutine until ready returns true.
func (m *Machine) block(ready func() bool) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if ready() {
		return
	}
	g := m.g
	g.ready = ready
	m.switchFrom(g)
	g.ready = nil
}

func (m *Machine) switchFrom(g *G) {
	next := m.pick(g)
	if next == nil {
		tp := &targetPanic{msg: "all goroutines are asleep - deadlock!", rt: true, trace: m.trace()}
		if g.main {
			panic(tp)
		}
		m.pending = tp
		next = m.gs[0]
	}
	if next == g {
		return
	}
	m.g = next
	next.wake <- true
	if !<-g.wake {
		panic(&pathAbort{kind: abKill})
	}
	if g.main && m.pending != nil {
		p := m.pending
		m.pending = nil
		panic(p)
	}
}

// yieldG lets other goroutines run.
func (m *Machine) yieldG() {
	if m.spec > 0 {
		panic(specAbort{})
	}
	g := m.g
	g.ready = nil
	m.switchFrom(g)
}

// quiesce runs the other goroutines until they are all blocked or finished
// and returns the number of live ones.
func (m *Machine) quiesce() int {
	g := m.g
	first := true
	g.ready = func() bool {
		if first {
			return false
		}
		return true
	}
	for {
		// is some other goroutine runnable?
		var next *G
		for _, c := range m.gs {
			if c != g && !c.done && (c.ready == nil || c.ready()) {
				next = c
				break
			}
		}
		if next == nil {
			break
		}
		first = true
		g.ready = func() bool {
			for _, c := range m.gs {
				if c != g && !c.done && (c.ready == nil || c.ready()) {
					return false
				}
			}
			return true
		}
		m.g = next
		next.wake <- true
		if !<-g.wake {
			panic(&pathAbort{kind: abKill})
		}
		if g.main && m.pending != nil {
			p := m.pending
			m.pending = nil
			panic(p)
		}
	}
	g.ready = nil
	n := 0
	for _, c := range m.gs {
		if c != g && !c.done {
			n++
		}
	}
	return n
}

// killAll ends all remaining goroutines of a run.
func (m *Machine) killAll() {
	m.killing = true
	for _, g := range m.gs {
		if !g.main && !g.done {
			m.g = g
			g.wake <- false
			<-m.dead
		}
	}
	m.killing = false
	m.gs = m.gs[:0]
}

func (m *Machine) chanV(v Value) *ChanV {
	c, _ := v.r.(*ChanV)
	return c
}

func (m *Machine) chanSend(cv, v Value) {
	c := m.chanV(cv)
	if m.spec > 0 {
		panic(specAbort{})
	}
	if c == nil {
		m.block(func() bool { return false })
	}
	if c.closed {
		m.plainPanic("send on closed channel")
	}
	v = m.cloneVal(v, c.elem)
	if c.cap > 0 {
		m.block(func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			m.plainPanic("send on closed channel")
		}
		c.buf = append(c.buf, v)
		return
	}
	it := &sendItem{v: v}
	c.sendq = append(c.sendq, it)
	m.block(func() bool { return it.taken || c.closed })
	if !it.taken {
		m.plainPanic("send on closed channel")
	}
}

func (c *ChanV) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (m *Machine) takeRecv(c *ChanV) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if len(c.sendq) > 0 {
		it := c.sendq[0]
		c.sendq = c.sendq[1:]
		it.taken = true
		return it.v, true
	}
	return m.zero(c.elem), false
}

func (m *Machine) chanRecv(cv Value, elem *TInfo) (Value, bool) {
	c := m.chanV(cv)
	if m.spec > 0 {
		panic(specAbort{})
	}
	if c == nil {
		m.block(func() bool { return false })
	}
	if !c.canRecv() {
		c.recvW++
		m.block(c.canRecv)
		c.recvW--
	}
	return m.takeRecv(c)
}

func (m *Machine) chanClose(cv Value) {
	c := m.chanV(cv)
	if c == nil {
		m.plainPanic("close of nil channel")
	}
	if c.closed {
		m.plainPanic("close of closed channel")
	}
	c.closed = true
}

func (m *Machine) selectStmt(fr *frame, in *ins) Value {
	sel := in.x.(*ssa.Select)
	if m.spec > 0 {
		panic(specAbort{})
	}
	type cs struct {
		c    *ChanV
		send bool
		v    Value
	}
	var cases []cs
	nrecv := 0
	for i, s := range sel.States {
		c := cs{c: m.chanV(fr.get(in.args[2*i]))}
		if in.args[2*i+1] != math.MaxInt32 {
			c.send = true
			c.v = fr.get(in.args[2*i+1])
		} else {
			nrecv++
		}
		_ = s
		cases = append(cases, c)
	}
	find := func() int {
		for i, c := range cases {
			if c.c == nil {
				continue
			}
			if c.send {
				if c.c.closed || c.c.cap > 0 && len(c.c.buf) < c.c.cap || c.c.cap == 0 && c.c.recvW > len(c.c.sendq) {
					return i
				}
			} else if c.c.canRecv() {
				return i
			}
		}
		return -1
	}
	k := find()
	if k < 0 && sel.Blocking {
		for _, c := range cases {
			if c.c != nil && !c.send {
				c.c.recvW++
			}
		}
		m.block(func() bool { return find() >= 0 })
		for _, c := range cases {
			if c.c != nil && !c.send {
				c.c.recvW--
			}
		}
		k = find()
	}
	// result: index, recvOk, one value per receive case
	res := []Value{{n: uint64(int64(k))}, {}}
	for i, c := range cases {
		if c.send {
			if i == k {
				m.chanSend(fr.get(in.args[2*i]), c.v)
			}
			continue
		}
		et := tinfo(sel.States[i].Chan.Type().Underlying()).elem
		v := m.zero(et)
		if i == k {
			var ok bool
			v, ok = m.takeRecv(c.c)
			res[1] = Value{n: b2u(ok)}
		}
		res = append(res, v)
	}
	return Value{r: res}
}
