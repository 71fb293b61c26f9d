package main

// If-conversion: a branch on a symbolic condition whose two sides are pure
// and rejoin (or return) is evaluated on both sides and merged with
// if-then-else terms instead of forking the path.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

type specAbort struct{}

type region struct {
	blocks []*Blk // topological order
	join   *Blk   // nil: all sides return
	pos    map[*Blk]int
}

const (
	maxRegionBlocks = 24
	maxRegionIns    = 120
)

func pureIns(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.BinOp:
		return true
	case *ssa.UnOp:
		return i.Op != token.ARROW
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.Field,
		*ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.DebugRef, *ssa.Phi, *ssa.Lookup, *ssa.TypeAssert, *ssa.Slice:
		return true
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return true
			}
		}
		return false
	}
	return false
}

func (x *Fn) findRegions() {
	f := x.f
	n := len(f.Blocks)
	if n < 3 || x.hasDefer {
		return
	}
	// post-dominators by a simple iterative set computation on the reverse
	// graph, with a virtual exit n
	pure := make([]bool, n)
	for i, b := range f.Blocks {
		pure[i] = true
		if b.Comment == "recover" {
			pure[i] = false
		}
		for k, in := range b.Instrs {
			if k == len(b.Instrs)-1 {
				switch in.(type) {
				case *ssa.Jump, *ssa.If, *ssa.Return:
				default:
					pure[i] = false
				}
				break
			}
			if !pureIns(in) {
				pure[i] = false
				break
			}
		}
	}
	for bi, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
			continue
		}
		blk := x.blocks[bi]
		in := &blk.ins[len(blk.ins)-1]
		in.reg = x.region(b, pure)
	}
}

func (x *Fn) region(b *ssa.BasicBlock, pure []bool) *region {
	// Candidate joins: try blocks in breadth-first order from b. A block is a
	// join if everything reachable from b's successors without passing it is
	// pure, acyclic, and has all predecessors inside.
	s0, s1 := b.Succs[0], b.Succs[1]
	if s0 == s1 {
		return nil
	}
	order := []*ssa.BasicBlock{}
	seen := map[*ssa.BasicBlock]bool{}
	q := []*ssa.BasicBlock{s0, s1}
	seen[s0], seen[s1] = true, true
	for len(q) > 0 && len(order) < 60 {
		c := q[0]
		q = q[1:]
		order = append(order, c)
		for _, s := range c.Succs {
			if !seen[s] {
				seen[s] = true
				q = append(q, s)
			}
		}
	}
	for _, j := range order {
		if r := x.tryRegion(b, j, pure); r != nil {
			return r
		}
	}
	return x.tryRegion(b, nil, pure)
}

func (x *Fn) tryRegion(b, join *ssa.BasicBlock, pure []bool) *region {
	if join == b {
		// a loop back to b itself would need re-evaluation
		return nil
	}
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	nIns := 0
	ok := true
	hasRet := false
	var dfs func(c *ssa.BasicBlock)
	dfs = func(c *ssa.BasicBlock) {
		if !ok || c == join {
			return
		}
		switch state[c] {
		case 1:
			ok = false // cycle
			return
		case 2:
			return
		}
		if c == b || !pure[c.Index] {
			ok = false
			return
		}
		state[c] = 1
		nIns += len(c.Instrs)
		if nIns > maxRegionIns || len(post) > maxRegionBlocks {
			ok = false
			return
		}
		if len(c.Succs) == 0 {
			hasRet = true
			if join != nil {
				ok = false
				return
			}
		}
		for _, s := range c.Succs {
			dfs(s)
		}
		state[c] = 2
		post = append(post, c)
	}
	dfs(b.Succs[0])
	dfs(b.Succs[1])
	if !ok || (join == nil && !hasRet) {
		return nil
	}
	in := map[*ssa.BasicBlock]bool{b: true}
	for _, c := range post {
		in[c] = true
	}
	for _, c := range post {
		for _, p := range c.Preds {
			if !in[p] {
				return nil
			}
		}
	}
	r := &region{pos: map[*Blk]int{}}
	for i := len(post) - 1; i >= 0; i-- {
		r.pos[x.blocks[post[i].Index]] = len(r.blocks)
		r.blocks = append(r.blocks, x.blocks[post[i].Index])
	}
	if join != nil {
		r.join = x.blocks[join.Index]
	}
	return r
}

type inEdge struct {
	pred int
	cond *Term
}

// tryMerge evaluates the region of in under condition t. It returns the join
// block to continue at, or (nil, result, true) if the function returns.
func (m *Machine) tryMerge(fr *frame, in *ins, t *Term) (nb *Blk, res Value, done bool) {
	r := in.reg
	g := m.g
	stack, top, nsaved := g.stack, g.top, len(g.saved)
	m.spec++
	defer func() {
		m.spec--
		if e := recover(); e != nil {
			if _, ok := e.(specAbort); ok {
				g.fr = fr
				g.stack, g.top, g.saved = stack, top, g.saved[:nsaved]
				nb, res, done = nil, Value{}, false
				return
			}
			panic(e)
		}
	}()
	tc := m.tc
	inc := make([][]inEdge, len(r.blocks))
	var join []inEdge
	type ret struct {
		cond *Term
		vals []Value
	}
	var rets []ret
	add := func(e *edge, c *Term) {
		if c == tc.f {
			return
		}
		if e.to == r.join {
			join = append(join, inEdge{e.pred, c})
			return
		}
		k := r.pos[e.to]
		inc[k] = append(inc[k], inEdge{e.pred, c})
	}
	add(in.succ[0], t)
	add(in.succ[1], tc.BNot(t))
	for k, b := range r.blocks {
		es := inc[k]
		if len(es) == 0 {
			continue
		}
		cond := es[0].cond
		for _, e := range es[1:] {
			cond = tc.BOr(cond, e.cond)
		}
		m.mergePhis(fr, b, es)
		last := len(b.ins) - 1
		for i := 0; i < last; i++ {
			ci := &b.ins[i]
			m.steps++
			fr.pos = ci.pos
			m.step(fr, ci)
		}
		li := &b.ins[last]
		switch li.op {
		case iJump:
			add(li.succ[0], cond)
		case iIf:
			c := tc.norm(m.boolTerm(fr.get(li.a)))
			add(li.succ[0], tc.BAnd(cond, c))
			add(li.succ[1], tc.BAnd(cond, tc.BNot(c)))
		case iReturn:
			rt := ret{cond: cond}
			for _, a := range li.args {
				rt.vals = append(rt.vals, fr.get(a))
			}
			rets = append(rets, rt)
		default:
			panic(specAbort{})
		}
	}
	if r.join != nil {
		if len(join) == 0 {
			panic(specAbort{})
		}
		m.mergePhis(fr, r.join, join)
		m.merges++
		return r.join, Value{}, false
	}
	if len(rets) == 0 {
		panic(specAbort{})
	}
	n := len(fr.fn.resT)
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		v := rets[len(rets)-1].vals[i]
		for k := len(rets) - 2; k >= 0; k-- {
			v = m.iteValue(rets[k].cond, rets[k].vals[i], v, fr.fn.resT[i])
		}
		out[i] = v
	}
	m.merges++
	switch n {
	case 0:
		return nil, Value{}, true
	case 1:
		return nil, out[0], true
	}
	return nil, Value{r: out}, true
}

func (m *Machine) mergePhis(fr *frame, b *Blk, es []inEdge) {
	if len(b.phis) == 0 {
		return
	}
	vs := make([]Value, len(b.phis))
	for i := range b.phis {
		p := &b.phis[i]
		v := fr.get(p.src[es[len(es)-1].pred])
		for k := len(es) - 2; k >= 0; k-- {
			v = m.iteValue(es[k].cond, fr.get(p.src[es[k].pred]), v, p.ti)
		}
		vs[i] = v
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = vs[i]
	}
}

func (m *Machine) iteValue(c *Term, x, y Value, t *TInfo) Value {
	switch t.kind {
	case KBool, KInt:
		if x.r == nil && y.r == nil && x.n == y.n {
			return x
		}
		return m.wrap(m.tc.Ite(c, m.term(x, t), m.term(y, t)), t)
	case KFloat:
		if x.r == y.r && x.n == y.n {
			return x
		}
		return m.iteFloat(c, x, y)
	case KString:
		if x.r == y.r {
			return x
		}
		a, aok := x.r.(*Str)
		b, bok := y.r.(*Str)
		if aok && bok && a.lazy == nil && b.lazy == nil && a.t == nil && b.t == nil && a.s == b.s {
			return x
		}
		panic(specAbort{})
	case KTuple:
		a, aok := x.r.([]Value)
		b, bok := y.r.([]Value)
		if aok && bok && len(a) == len(b) && len(a) == len(t.fields) {
			r := make([]Value, len(a))
			for i := range a {
				r[i] = m.iteValue(c, a[i], b[i], t.fields[i])
			}
			return Value{r: r}
		}
		panic(specAbort{})
	case KSlice:
		a, aok := x.r.(*SliceV)
		b, bok := y.r.(*SliceV)
		if aok && bok && *a == *b {
			return x
		}
		if x.r == nil && y.r == nil {
			return x
		}
		panic(specAbort{})
	case KIface:
		a, aok := x.r.(*Iface)
		b, bok := y.r.(*Iface)
		if aok && bok && a.t == b.t && a.t.kind == KPtr && a.v.r == b.v.r && a.v.n == b.v.n {
			return x
		}
		if x.r == nil && y.r == nil {
			return x
		}
		panic(specAbort{})
	case KStruct, KArray:
		if x.r == y.r {
			return x
		}
		panic(specAbort{})
	}
	if _, ok := x.r.([]Value); ok {
		panic(specAbort{})
	}
	if x.r == y.r && x.n == y.n {
		return x
	}
	panic(specAbort{})
}
