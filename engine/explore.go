package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type InputVal struct {
	Kind string `json:"k"`
	W    int    `json:"w,omitempty"`
	V    uint64 `json:"v"`
	Name string `json:"n,omitempty"`
}

type Finding struct {
	Kind       string
	Msg        string
	Harness    string
	Input      []InputVal
	Trace      string
	OtherModel bool
	Replay     string
	Confirmed  bool
	Known      string
	Native     string
	NativeMsg  string
}

type Explorer struct {
	prog          *ssa.Program
	rtErr         types.Type
	entry         *ssa.Function
	solverTimeout int
	stepLimit     int64
	maxConc       int
	crossEvery    int
	debug         bool
	workers       int
	budget        time.Duration
	maxPaths      int64
	verbose       bool
	thorough      bool

	mu       sync.Mutex
	cond     *sync.Cond
	root     *shapeNode
	open     int
	openSize int64
	active   int
	stopped  atomic.Bool

	branches, divergences, unknowns, assertQ, assertUnknown, crossN, crossBad atomic.Int64
	startT                                                                    time.Time

	resMu     sync.Mutex
	paths     map[string]int64
	msgs      map[string]int
	reached   map[string]int64
	findings  []*Finding
	findKey   map[string]int
	incompl   int64
	asserts   int64
	trivial   int64
	merges    int64
	steps     int64
	maxFind   int
	samples   []PathSample
	nsample   int64
	sampleMax int
	notes     map[string]int
	funcs     map[string]bool
	maxVars   int
	left      int
	elapsed   time.Duration
	fpPaths   int64
	harness   string

	onFinding  func(f *Finding)
	bad        []PathSample // inputs of paths the interpreter could not finish
	solverSecs float64
	solverQ    int64
}

// PathSample is a completed path: an input satisfying its path condition and
// the values observed by the interpreter, for comparison with the real code.
type PathSample struct {
	Input []InputVal
	Obs   []uint64
	Kind  string
}

// shapeNode is a node in the tree of vsym.Choose values.  The time is shared
// evenly between the alternatives at every node, so that an early choice with
// many paths does not starve the others.
type shapeNode struct {
	parent  *shapeNode
	kids    map[int]*shapeNode
	order   []*shapeNode
	fresh   []*workItem // the next value of the choice to be made here
	queue   []*workItem // branches with exactly these choices made so far
	pending int         // length of the queues in this subtree
	visits  int64       // number of items taken from this subtree
	own     int64       // number of items taken from queue
}

// child returns the node for the next choice.
func (ex *Explorer) child(n *shapeNode, v int) *shapeNode {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.childLocked(n, v)
}

func (ex *Explorer) childLocked(n *shapeNode, v int) *shapeNode {
	c := n.kids[v]
	if c == nil {
		c = &shapeNode{parent: n}
		if n.kids == nil {
			n.kids = map[int]*shapeNode{}
		}
		n.kids[v] = c
		n.order = append(n.order, c)
	}
	return c
}

// maxOpen bounds the memory used for open states, in bytes.
const maxOpen = 2 << 30

func (it *workItem) size() int64 {
	return int64(16*len(it.decs) + 8*len(it.model) + 200)
}

func (ex *Explorer) push(it *workItem) {
	ex.mu.Lock()
	if it.fresh {
		it.node.fresh = append(it.node.fresh, it)
	} else {
		it.node.queue = append(it.node.queue, it)
	}
	ex.open++
	ex.openSize += it.size()
	for n := it.node; n != nil; n = n.parent {
		n.pending++
	}
	ex.mu.Unlock()
	ex.cond.Signal()
}

// take removes an item from the tree.
func (ex *Explorer) take() *workItem {
	n := ex.root
	full := ex.openSize > maxOpen
	for {
		n.visits++
		n.pending--
		q := &n.fresh
		k := 0
		if len(*q) == 0 || full {
			var best *shapeNode
			for _, c := range n.order {
				if c.pending > 0 && (best == nil || c.visits < best.visits) {
					best = c
				}
			}
			if best != nil && (full || len(n.queue) == 0 || best.visits < n.own) {
				n = best
				continue
			}
			if len(*q) == 0 {
				n.own++
				q = &n.queue
				k = len(*q) - 1
				// mix depth-first with breadth
				if n.own%4 == 0 {
					k = int((uint64(n.own) * 2654435761 >> 7) % uint64(len(*q)))
				}
			}
		}
		it := (*q)[k]
		(*q)[k] = (*q)[len(*q)-1]
		(*q)[len(*q)-1] = nil
		*q = (*q)[:len(*q)-1]
		ex.open--
		ex.openSize -= it.size()
		return it
	}
}

func (ex *Explorer) pop() *workItem {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped.Load() {
			return nil
		}
		if ex.open > 0 {
			it := ex.take()
			ex.active++
			return it
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) finish() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && ex.open == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) stop() {
	ex.stopped.Store(true)
	ex.mu.Lock()
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) report(m *Machine, f *Finding) {
	f.Harness = ex.harness
	ex.resMu.Lock()
	defer ex.resMu.Unlock()
	key := f.Kind + "|" + f.Msg
	if f.Kind == "panic" {
		key = f.Trace
	}
	if ex.findKey[key] >= 3 || len(ex.findings) >= ex.maxFind {
		return
	}
	ex.findKey[key]++
	f.Input = append([]InputVal(nil), f.Input...)
	ex.findings = append(ex.findings, f)
	if ex.onFinding != nil {
		ex.onFinding(f)
	}
	if len(ex.findings) >= ex.maxFind {
		ex.stop()
	}
}

type HarnessResult struct {
	Name     string           `json:"harness"`
	Complete bool             `json:"complete"`
	Paths    map[string]int64 `json:"paths"`
	Left     int              `json:"unexplored_states"`
	Branches int64            `json:"branch_decisions"`
	AssertQ  int64            `json:"assertion_queries"`
	Asserts  int64            `json:"assertions_proved_by_solver"`
	Trivial  int64            `json:"assertions_constant_on_path"`
	Unknown  int64            `json:"unknown_queries"`
	Merges   int64            `json:"merged_branches"`
	Steps    int64            `json:"instructions"`
	Secs     float64          `json:"seconds"`
	Reached  map[string]int64 `json:"reached,omitempty"`
	Msgs     map[string]int   `json:"messages,omitempty"`
	Notes    map[string]int   `json:"notes,omitempty"`
	MaxVars  int              `json:"max_symbolic_inputs"`
	CrossN   int64            `json:"cross_checked"`
	Diverge  int64            `json:"divergences,omitempty"`
	Incompl  int64            `json:"paths_with_reduced_bounds,omitempty"`
	Compared int              `json:"paths_compared_with_native"`
	Mismatch int              `json:"native_mismatches"`
	Fallback int              `json:"abandoned_paths_run_natively,omitempty"`
	Findings int              `json:"findings"`
	Spurious int              `json:"candidates_not_reproduced,omitempty"`
	SolverQ  int64            `json:"solver_queries"`
	SolverS  float64          `json:"solver_seconds"`
}

func (ex *Explorer) run(ms []*Machine) *HarnessResult {
	ex.cond = sync.NewCond(&ex.mu)
	ex.paths, ex.msgs, ex.reached, ex.findKey = map[string]int64{}, map[string]int{}, map[string]int64{}, map[string]int{}
	ex.notes = map[string]int{}
	ex.startT = time.Now()
	q0, t0 := stats.Queries.Load(), stats.Time.Load()
	ex.root = &shapeNode{}
	ex.open, ex.openSize = 0, 0
	ex.push(&workItem{node: ex.root})
	timer := time.AfterFunc(ex.budget, ex.stop)
	defer timer.Stop()
	// if a worker does not notice that the time is up, it may be waiting for
	// a solver which no longer reacts
	finished := make(chan struct{})
	defer close(finished)
	go func() {
		wait := ex.budget + 3*time.Second
		for i := 0; ; i++ {
			select {
			case <-finished:
				return
			case <-time.After(wait):
			}
			wait = time.Second
			if i%20 == 19 {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "harness %s does not stop:\n%s\n", ex.harness, buf[:runtime.Stack(buf, true)])
			}
			for _, m := range ms {
				m.solver.kill()
				m.solver2.kill()
			}
		}
	}()
	var wg sync.WaitGroup
	for _, m := range ms {
		m.ex = ex
		m.notes = map[string]int{}
		m.deadline = ex.startT.Add(ex.budget)
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			for {
				it := ex.pop()
				if it == nil {
					return
				}
				pr := m.runItem(ex.entry, it)
				ex.done(m, it, pr)
				ex.finish()
			}
		}(m)
	}
	wg.Wait()
	ex.left = ex.open
	ex.elapsed = time.Since(ex.startT)
	r := &HarnessResult{Name: ex.harness, Paths: ex.paths, Left: ex.left, Branches: ex.branches.Load(), AssertQ: ex.assertQ.Load(),
		Asserts: ex.asserts, Trivial: ex.trivial, Unknown: ex.unknowns.Load(), Merges: ex.merges, Steps: ex.steps,
		Secs: ex.elapsed.Seconds(), Reached: ex.reached, Msgs: ex.msgs, MaxVars: ex.maxVars, CrossN: ex.crossN.Load(),
		Diverge: ex.divergences.Load(), Incompl: ex.incompl, Findings: len(ex.findings)}
	for _, m := range ms {
		for k, v := range m.notes {
			ex.notes[k] += v
		}
	}
	r.Notes = ex.notes
	r.SolverQ = stats.Queries.Load() - q0
	r.SolverS = float64(stats.Time.Load()-t0) / 1e9
	ex.solverQ, ex.solverSecs = r.SolverQ, r.SolverS
	bad := ex.paths["unsupported"] + ex.paths["budget"] + ex.paths["engine"] + ex.paths["deadline"]
	r.Complete = ex.left == 0 && bad == 0 && ex.incompl == 0 && !ex.stopped.Load() && ex.unknowns.Load() == 0
	return r
}

func (ex *Explorer) done(m *Machine, it *workItem, pr pathResult) {
	ex.resMu.Lock()
	defer ex.resMu.Unlock()
	ex.paths[pr.kind]++
	if pr.msg != "" && len(ex.msgs) < 200 {
		ex.msgs[pr.kind+": "+pr.msg]++
	}
	if pr.incomplete {
		ex.incompl++
	}
	ex.asserts += int64(m.asserts)
	ex.trivial += int64(m.trivial)
	ex.merges += int64(m.merges)
	ex.steps += m.steps
	if m.fpUsed {
		ex.fpPaths++
	}
	if len(m.tc.vars) > ex.maxVars {
		ex.maxVars = len(m.tc.vars)
	}
	for k := range m.reaches {
		ex.reached[k]++
	}
	if pr.kind == "ok" {
		n := ex.paths["ok"]
		if len(ex.samples) < ex.sampleMax {
			ex.samples = append(ex.samples, PathSample{Input: m.inputVector(nil), Obs: append([]uint64(nil), m.obs...), Kind: pr.kind})
		} else if ex.sampleMax > 0 {
			// deterministic reservoir
			h := uint64(n) * 0x9e3779b97f4a7c15 >> 20
			if k := h % uint64(n); k < uint64(ex.sampleMax) {
				ex.samples[k] = PathSample{Input: m.inputVector(nil), Obs: append([]uint64(nil), m.obs...), Kind: pr.kind}
			}
		}
	}
	if (pr.kind == "unsupported" || pr.kind == "engine" || pr.kind == "budget") && len(ex.bad) < ex.sampleMax {
		ex.bad = append(ex.bad, PathSample{Input: m.inputVector(nil), Kind: pr.kind})
	}
	if ex.verbose && (ex.paths[pr.kind]%1000 == 0 || ex.debug || pr.kind == "engine" || pr.kind == "unsupported" && ex.paths[pr.kind] < 5) {
		fmt.Fprintf(os.Stderr, "  [%s] %v queue=%d steps=%d decs=%d %s %s\n", ex.harness, ex.paths, ex.open, m.steps, len(m.decs), pr.kind, pr.msg)
		if pr.kind != "ok" || ex.debug {
			for _, v := range m.inputVector(nil) {
				fmt.Fprintf(os.Stderr, " %s%d", v.Kind, v.V)
			}
			fmt.Fprintln(os.Stderr)
		}
	}
	if ex.maxPaths > 0 {
		t := int64(0)
		for _, v := range ex.paths {
			t += v
		}
		if t >= ex.maxPaths {
			ex.stop()
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
