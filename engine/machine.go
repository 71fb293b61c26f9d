package main

import (
	"fmt"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var methMu sync.Mutex

// Machine is an interpreter instance; one per worker.
type Machine struct {
	prog      *ssa.Program
	ex        *Explorer
	fns       map[*ssa.Function]*Fn
	globals   map[*ssa.Global]*Obj
	inited    map[*ssa.Package]bool
	initing   int
	initNow   *ssa.Function
	compiled  int
	rtErrType *TInfo
	solver    *Solver
	solver2   *Solver
	notes     map[string]int
	rcache    map[string]any

	// per run
	tc             *TermCtx
	g              *G
	gs             []*G
	dead           chan struct{}
	pending        any
	killing        bool
	goCount        int
	undo           []undoEntry
	curSerial      uint32
	freeze         uint32
	freezeMsg      string
	lockDepth      int
	steps          int64
	stepCheck      int64
	stepLimit      int64
	deadline       time.Time
	spec           int
	loose          int // >0: symbolic values are replaced by those of the representative input
	noMerge        int
	merges         int
	mapOrder       int
	node           *shapeNode
	fpUsed         bool
	allocd         int64
	allocMax       int64 // 0: no limit; bytes
	allocT         bool
	item           *workItem
	ndec           int
	decs           []decision
	groups         []*pcGroup
	npc            int
	draws          []draw
	obs            []uint64
	reaches        map[string]bool
	asserts        int // discharged by solver on this path
	trivial        int
	pathIncomplete bool
	inAssert       bool
	frozenIgnore   map[string]bool
	curCheck       string
	fsWrites       []string
	lastInput      []uint64
	hangLimit      int64
	locks          map[mutexKey]int
	onces          map[mutexKey]int
	initOnces      map[mutexKey]bool
	wgs            map[mutexKey]int
}

type draw struct {
	kind byte // 'v': variable, 'c': choice
	t    *Term
	v    uint64
	name string
}

type pcGroup struct {
	vars []uint64
	cs   []*Term
}

func newMachine(ex *Explorer) *Machine {
	m := &Machine{
		prog: ex.prog, ex: ex,
		fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{},
		notes: map[string]int{}, rcache: map[string]any{},
		dead: make(chan struct{}),
	}
	m.solver = newSolver(ex.solverTimeout, "z3-new", "-in")
	m.solver2 = newSolver(ex.solverTimeout*3, "z3", "-in")
	if ex.rtErr != nil {
		m.rtErrType = tinfo(ex.rtErr)
	}
	m.tc = newTermCtx()
	return m
}

func (m *Machine) note(s string) {
	if m.ex.debug && m.notes[s] == 0 {
		debugf("NOTE %s\n", s)
	}
	m.notes[s]++
}

func (m *Machine) lookupFunc(pkg, name string) *Fn {
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		for _, q := range m.prog.AllPackages() {
			if q.Pkg.Path() == pkg {
				p = q
				break
			}
		}
	}
	if p == nil || p.Func(name) == nil {
		m.unsupported("function " + pkg + "." + name + " not loaded")
	}
	return m.fn(p.Func(name))
}

func (m *Machine) checkBudget() {
	m.stepCheck = m.steps + 20000
	if m.hangLimit > 0 {
		if m.steps > m.hangLimit {
			m.violation("hang", "step limit exceeded (non-termination or excessive work)"+m.where(), nil)
		}
		if m.hangLimit < m.stepCheck {
			m.stepCheck = m.hangLimit + 1
		}
	}
	if m.steps > m.stepLimit {
		panic(&pathAbort{abBudget, "step limit" + m.where()})
	}
	if time.Now().After(m.deadline) || m.ex.stopped.Load() {
		panic(&pathAbort{abDeadline, "deadline"})
	}
}

func (m *Machine) alloc(n int64) {
	if m.initing > 0 {
		return
	}
	m.allocd += n
	if m.allocMax > 0 && m.allocd > m.allocMax {
		if m.spec > 0 {
			panic(specAbort{})
		}
		m.violation("alloc", fmt.Sprintf("allocation limit exceeded: %d > %d bytes%s", m.allocd, m.allocMax, m.where()), nil)
	}
}

// allocSym accounts for an allocation of t elements of esz bytes.
func (m *Machine) allocSym(t *Term, esz int64) {
	if m.allocMax == 0 {
		return
	}
	room := (m.allocMax - m.allocd) / esz
	if room < 0 {
		room = 0
	}
	c := m.tc.BNot(m.tc.Ult(m.tc.Const(uint64(room), 64), t))
	m.assertT(c, "alloc", fmt.Sprintf("allocation limit exceeded: make of up to %d*%d bytes with %d left%s", t.uhi, esz, m.allocMax-m.allocd, m.where()))
	// account for the smallest possible amount
	m.allocd += int64(m.tc.norm(t).ulo) * esz
}

func (m *Machine) frozenWrite(what string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	m.violation("frozen", m.freezeMsg+": "+what+m.where(), nil)
}

// ------------------------------------------------------------- path condition

func (m *Machine) addPC(c *Term) {
	if c.op == OpConst {
		return
	}
	m.npc++
	if c.op == OpBAnd {
		m.addPC(c.a)
		m.addPC(c.b)
		return
	}
	var tgt *pcGroup
	out := m.groups[:0]
	for _, g := range m.groups {
		if intersects(g.vars, c.vars) {
			if tgt == nil {
				tgt = g
				out = append(out, g)
			} else {
				tgt.vars = unionVars(tgt.vars, g.vars)
				tgt.cs = append(tgt.cs, g.cs...)
			}
		} else {
			out = append(out, g)
		}
	}
	if tgt == nil {
		tgt = &pcGroup{vars: c.vars}
		out = append(out, tgt)
	}
	tgt.vars = unionVars(tgt.vars, c.vars)
	tgt.cs = append(tgt.cs, c)
	m.groups = out
}

func intersects(a, b []uint64) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

// query decides pc ∧ cs and returns a full model if satisfiable.
func (m *Machine) query(cs ...*Term) (Result, []uint64) {
	var vars []uint64
	for _, c := range cs {
		if c == m.tc.f {
			return Unsat, nil
		}
		vars = unionVars(vars, c.vars)
	}
	var all []*Term
	for _, c := range cs {
		all = append(all, c)
	}
	used := make([]bool, len(m.groups))
	for ch := true; ch; {
		ch = false
		for i, g := range m.groups {
			if !used[i] && intersects(g.vars, vars) {
				used[i] = true
				all = append(all, g.cs...)
				// groups are mutually disjoint, so one pass suffices
			}
		}
	}
	if time.Now().After(m.deadline) || m.ex.stopped.Load() {
		panic(&pathAbort{abDeadline, "deadline"})
	}
	res, vs, vals := m.solver.check(all)
	if res == Unknown {
		res, vs, vals = m.solver2.check(all)
		if res == Unknown {
			m.pathIncomplete = true
			m.ex.unknowns.Add(1)
			m.note("solver returned unknown" + m.where())
		}
	}
	if res != Sat {
		return res, nil
	}
	model := make([]uint64, len(m.tc.vars))
	for i, v := range m.tc.vars {
		model[i] = v.cv
	}
	for i, v := range vs {
		model[v.k] = vals[i]
	}
	return Sat, model
}

type decKind uint8

const (
	dFree   decKind = iota // branch, both sides possible
	dForced                // branch, other side infeasible
	dConc                  // concretization, or choice
	dConc1                 // concretization with a single possible value
)

type decision struct {
	kind decKind
	dir  bool
	val  uint64
}

type workItem struct {
	decs  []decision // prefix to follow
	model []uint64
	excl  []uint64 // for a concretization at the end of the prefix
	spawn bool     // the last decision still has alternatives to explore
	fresh bool     // spawned by vsym.Choose: the next alternative
	node  *shapeNode
	depth int
}

// branch decides a symbolic condition.
func (m *Machine) branch(t *Term) bool {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.initing > 0 {
		m.unsupported("symbolic branch during package initialisation")
	}
	dir := t.cv != 0
	if m.loose > 0 {
		return dir
	}
	c := t
	if !dir {
		c = m.tc.BNot(t)
	}
	i := m.ndec
	m.ndec++
	m.ex.branches.Add(1)
	if i < len(m.item.decs) {
		d := m.item.decs[i]
		if d.kind > dForced || d.dir != dir {
			m.divergence("branch")
		}
		m.decs = append(m.decs, d)
		if d.kind == dFree {
			m.addPC(c)
		}
		m.tc.assume(t, dir)
		return dir
	}
	res, model := m.query(m.tc.BNot(c))
	d := decision{kind: dFree, dir: dir}
	if res == Sat {
		it := &workItem{model: model, depth: len(m.decs), node: m.node}
		it.decs = make([]decision, len(m.decs)+1)
		copy(it.decs, m.decs)
		it.decs[len(m.decs)] = decision{kind: dFree, dir: !dir}
		m.ex.push(it)
	} else if res == Unsat {
		d.kind = dForced
	}
	m.decs = append(m.decs, d)
	if d.kind == dFree {
		m.addPC(c)
	}
	m.tc.assume(t, dir)
	return dir
}

func (m *Machine) divergence(what string) {
	m.ex.divergences.Add(1)
	panic(&pathAbort{abEngine, "divergence at " + what + m.where()})
}

// concretize picks the current value of t, exploring the others later.
func (m *Machine) concretize(t *Term) uint64 {
	t = m.tc.norm(t)
	if t.isConst() {
		return t.k
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.initing > 0 {
		m.unsupported("symbolic value during package initialisation")
	}
	v := t.cv
	if m.loose > 0 {
		return v
	}
	eq := m.tc.Eq(t, m.tc.Const(v, t.w))
	i := m.ndec
	m.ndec++
	m.ex.branches.Add(1)
	if i < len(m.item.decs) {
		d := m.item.decs[i]
		if d.kind < dConc || d.val != v {
			m.divergence("concretize")
		}
		m.decs = append(m.decs, d)
		if i == len(m.item.decs)-1 && m.item.spawn {
			m.spawnConc(t, append(append([]uint64(nil), m.item.excl...), v))
		}
		if d.kind == dConc {
			m.addPC(eq)
		}
		m.tc.assume(eq, true)
		return v
	}
	d := decision{kind: dConc, val: v}
	if m.spawnConc(t, []uint64{v}) == Unsat {
		d.kind = dConc1
	}
	m.decs = append(m.decs, d)
	if d.kind == dConc {
		m.addPC(eq)
	}
	m.tc.assume(eq, true)
	return v
}

func (m *Machine) spawnConc(t *Term, excl []uint64) Result {
	if len(excl) > m.ex.maxConc {
		m.pathIncomplete = true
		m.note(fmt.Sprintf("concretization limited to %d values%s", m.ex.maxConc, m.where()))
		return Unknown
	}
	var cs []*Term
	for _, v := range excl {
		cs = append(cs, m.tc.BNot(m.tc.Eq(t, m.tc.Const(v, t.w))))
	}
	res, model := m.query(cs...)
	if res == Sat {
		e := &evaluator{memo: map[*Term]uint64{}, env: func(v *Term) uint64 { return model[v.k] }}
		nv := e.eval(t)
		it := &workItem{model: model, excl: excl, spawn: true, depth: len(m.decs), node: m.node}
		it.decs = make([]decision, m.ndec)
		copy(it.decs, m.decs)
		it.decs[m.ndec-1] = decision{kind: dConc, val: nv}
		m.ex.push(it)
	}
	return res
}

// choose forks over 0..n-1 without involving the solver.
func (m *Machine) choose(n int) int {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if n <= 1 {
		return 0
	}
	i := m.ndec
	m.ndec++
	v := uint64(0)
	last := false
	if i < len(m.item.decs) {
		d := m.item.decs[i]
		if d.kind != dConc {
			m.divergence("choose")
		}
		v = d.val
		last = i == len(m.item.decs)-1 && m.item.spawn
		m.decs = append(m.decs, d)
	} else {
		m.decs = append(m.decs, decision{kind: dConc})
		last = true
	}
	if last && v+1 < uint64(n) {
		it := &workItem{spawn: true, fresh: true, depth: len(m.decs), node: m.node}
		it.model = make([]uint64, len(m.tc.vars))
		for k, x := range m.tc.vars {
			it.model[k] = x.cv
		}
		it.decs = make([]decision, len(m.decs))
		copy(it.decs, m.decs)
		it.decs[len(m.decs)-1] = decision{kind: dConc, val: v + 1}
		m.ex.push(it)
	}
	m.node = m.ex.child(m.node, int(v))
	return int(v)
}

// assume restricts the path to those inputs satisfying t.
func (m *Machine) assumeT(t *Term) {
	t = m.tc.norm(t)
	if t.isConst() {
		if t.k == 0 {
			panic(&pathAbort{abAssume, ""})
		}
		return
	}
	if t.cv != 0 {
		m.addPC(t)
		m.tc.assume(t, true)
		return
	}
	res, model := m.query(t)
	if res == Sat {
		it := &workItem{model: model, depth: len(m.decs), node: m.node}
		it.decs = append([]decision(nil), m.decs...)
		if m.ndec < len(m.item.decs) {
			// still replaying the prefix
			it.decs = append([]decision(nil), m.item.decs...)
			it.spawn, it.excl = m.item.spawn, m.item.excl
			// the model may disagree with later decisions of the prefix; keep
			// only the part executed so far
			it.decs = it.decs[:m.ndec]
			it.spawn = false
		}
		m.ex.push(it)
	}
	panic(&pathAbort{abAssume, ""})
}

// assertT requires t on every input of the current path.
func (m *Machine) assertT(t *Term, kind, msg string) {
	t = m.tc.norm(t)
	if t.isConst() {
		if t.k == 0 {
			m.violation(kind, msg, nil)
		}
		m.trivial++
		return
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	m.ex.assertQ.Add(1)
	if t.cv == 0 {
		m.violation(kind, msg, nil)
	}
	res, model := m.query(m.tc.BNot(t))
	switch res {
	case Unsat:
		m.asserts++
		if m.ex.crossEvery > 0 && m.ex.assertQ.Load()%int64(m.ex.crossEvery) == 0 {
			m.crossCheck(m.tc.BNot(t))
		}
		m.tc.assume(t, true)
	case Sat:
		m.violationModel(kind, msg, model)
		m.addPC(t)
		m.tc.assume(t, true)
	default:
		m.ex.assertUnknown.Add(1)
	}
}

// crossCheck repeats an unsat query with a second solver.
func (m *Machine) crossCheck(c *Term) {
	all := []*Term{c}
	for _, g := range m.groups {
		if intersects(g.vars, c.vars) {
			all = append(all, g.cs...)
		}
	}
	text, vars := queryText(all)
	res, _ := m.solver2.run(text, vars)
	m.ex.crossN.Add(1)
	if res == Sat {
		m.ex.crossBad.Add(1)
		m.note("solvers disagree" + m.where())
	}
}

func (m *Machine) inputVector(model []uint64) []InputVal {
	var res []InputVal
	for _, d := range m.draws {
		iv := InputVal{Kind: string(d.kind), V: d.v, Name: d.name}
		if d.t != nil && d.t.op == OpVar {
			iv.W = int(d.t.w)
			if model != nil && d.t.k < uint64(len(model)) {
				iv.V = model[d.t.k]
			} else {
				iv.V = d.t.cv
			}
		}
		res = append(res, iv)
	}
	return res
}

// violation reports a violation under the current model and ends the path.
func (m *Machine) violation(kind, msg string, model []uint64) {
	m.ex.report(m, &Finding{Kind: kind, Msg: msg, Input: m.inputVector(model), Trace: m.trace()})
	panic(&pathAbort{abStop, ""})
}

// violationModel reports a violation under another model of the same path.
func (m *Machine) violationModel(kind, msg string, model []uint64) {
	m.ex.report(m, &Finding{Kind: kind, Msg: msg, Input: m.inputVector(model), Trace: m.trace(), OtherModel: true})
}

// ----------------------------------------------------------------------- runs

type pathResult struct {
	kind       string // ok, assume, unsupported, budget, violation, deadline, engine
	msg        string
	incomplete bool
}

// runItem executes the harness once.
func (m *Machine) runItem(entry *ssa.Function, it *workItem) (pr pathResult) {
	m.tc = newTermCtx()
	m.gs = m.gs[:0]
	m.g = m.newG()
	m.g.main = true
	m.pending = nil
	m.goCount = 0
	m.undo = m.undo[:0]
	m.curSerial = 1
	m.freeze, m.lockDepth = 0, 0
	m.steps, m.stepCheck = 0, 20000
	m.stepLimit = m.ex.stepLimit
	m.spec, m.noMerge, m.merges, m.mapOrder = 0, 0, 0, 0
	m.fpUsed = false
	m.allocd, m.allocMax = 0, 0
	m.item, m.ndec = it, 0
	m.node = m.ex.root
	m.decs = m.decs[:0]
	m.groups, m.npc = nil, 0
	m.draws, m.obs = m.draws[:0], m.obs[:0]
	m.reaches = map[string]bool{}
	m.asserts, m.trivial = 0, 0
	m.pathIncomplete = false
	m.fsWrites = nil
	m.hangLimit = 0
	m.locks, m.onces, m.wgs = nil, nil, nil
	m.initing = 0
	defer func() {
		m.killAll()
		m.initing = 1 // no undo logging, no freeze checks
		for i := len(m.undo) - 1; i >= 0; i-- {
			u := m.undo[i]
			if u.f != nil {
				u.f()
			} else {
				m.rawSet(u.o, u.i, u.v)
			}
		}
		m.undo = m.undo[:0]
		m.initing = 0
		pr.incomplete = m.pathIncomplete
	}()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case *pathAbort:
			switch r.kind {
			case abAssume:
				pr.kind = "assume"
			case abUnsupported:
				pr.kind, pr.msg = "unsupported", r.msg
			case abBudget:
				pr.kind, pr.msg = "budget", r.msg
			case abStop:
				pr.kind = "violation"
			case abDeadline:
				pr.kind = "deadline"
			default:
				pr.kind, pr.msg = "engine", r.msg
			}
		case *targetPanic:
			// an uncaught panic in the program under test
			pr.kind = "violation"
			msg := m.panicText(r)
			f := &Finding{Kind: "panic", Msg: "panic: " + msg, Input: m.inputVector(nil), Trace: r.trace}
			m.ex.report(m, f)
		default:
			if m.ex.debug {
				panic(r)
			}
			pr.kind, pr.msg = "engine", fmt.Sprintf("engine panic: %v%s", r, m.where())
		}
	}()
	m.callFn(m.fn(entry), nil, nil)
	pr.kind = "ok"
	return pr
}
