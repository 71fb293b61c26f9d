package main

// Connection to an SMT solver over a pipe, SMT-LIB2 printing of terms.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int8

const (
	Unknown Result = iota
	Sat
	Unsat
)

type Solver struct {
	cmdline []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	timeout int // ms
	tabs    map[int]bool
	count   int
}

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits atomic.Int64
	Time                                       atomic.Int64 // ns
	Finite                                     atomic.Int64
	Errors                                     atomic.Int64
	lastErr                                    sync.Map
}

var stats SolverStats

// slowQuery enables logging of slow queries (GOSYM_SLOW).
var slowQuery, _ = time.ParseDuration(os.Getenv("GOSYM_SLOW"))

func newSolver(timeoutMs int, cmdline ...string) *Solver {
	s := &Solver{cmdline: cmdline, timeout: timeoutMs}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.tabs = map[int]bool{}
	s.count = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
}

// kill may be called from another goroutine.
func (s *Solver) kill() {
	if cmd := s.cmd; cmd != nil && cmd.Process != nil {
		cmd.Process.Kill()
	}
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

type printer struct {
	sb   strings.Builder
	ids  map[*Term]string
	vars []*Term
	tabs map[int]*Table
	n    int
}

func (p *printer) bv(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

// ref prints definitions for t (and its subterms) and returns a reference.
func (p *printer) ref(t *Term) string {
	if s, ok := p.ids[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return p.bv(t.k, t.w)
	case OpVar:
		// canonical names within the query: numbered by first occurrence
		s = "v" + strconv.Itoa(len(p.vars))
		p.vars = append(p.vars, t)
		if t.w == 0 {
			fmt.Fprintf(&p.sb, "(declare-const %s Bool)\n", s)
		} else {
			fmt.Fprintf(&p.sb, "(declare-const %s (_ BitVec %d))\n", s, t.w)
		}
		p.ids[t] = s
		return s
	}
	var a, b, c string
	if t.a != nil {
		a = p.ref(t.a)
	}
	if t.b != nil {
		b = p.ref(t.b)
	}
	if t.c != nil {
		c = p.ref(t.c)
	}
	var e string
	bin := func(op string) { e = "(" + op + " " + a + " " + b + ")" }
	fp := func(x string) string { return "((_ to_fp 11 53) " + x + ")" }
	switch t.op {
	case OpAdd:
		bin("bvadd")
	case OpSub:
		bin("bvsub")
	case OpMul:
		bin("bvmul")
	case OpUDiv:
		bin("bvudiv")
	case OpURem:
		bin("bvurem")
	case OpSDiv:
		bin("bvsdiv")
	case OpSRem:
		bin("bvsrem")
	case OpAnd:
		bin("bvand")
	case OpOr:
		bin("bvor")
	case OpXor:
		bin("bvxor")
	case OpNot:
		e = "(bvnot " + a + ")"
	case OpShl:
		bin("bvshl")
	case OpLshr:
		bin("bvlshr")
	case OpAshr:
		bin("bvashr")
	case OpConcat:
		bin("concat")
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, a)
	case OpSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	case OpIte:
		e = "(ite " + a + " " + b + " " + c + ")"
	case OpTab:
		e = p.table(t, a)
	case OpBNot:
		e = "(not " + a + ")"
	case OpBAnd:
		bin("and")
	case OpBOr:
		bin("or")
	case OpEq:
		bin("=")
	case OpUlt:
		bin("bvult")
	case OpSlt:
		bin("bvslt")
	case OpFAdd:
		e = "(fp.to_ieee_bv (fp.add RNE " + fp(a) + " " + fp(b) + "))"
	case OpFSub:
		e = "(fp.to_ieee_bv (fp.sub RNE " + fp(a) + " " + fp(b) + "))"
	case OpFMul:
		e = "(fp.to_ieee_bv (fp.mul RNE " + fp(a) + " " + fp(b) + "))"
	case OpFDiv:
		e = "(fp.to_ieee_bv (fp.div RNE " + fp(a) + " " + fp(b) + "))"
	case OpFSqrt:
		e = "(fp.to_ieee_bv (fp.sqrt RNE " + fp(a) + "))"
	case OpFRound:
		e = "(fp.to_ieee_bv (fp.roundToIntegral " + []string{"RNE", "RNA", "RTN", "RTP", "RTZ"}[t.k] + " " + fp(a) + "))"
	case OpFFromS:
		e = "(fp.to_ieee_bv ((_ to_fp 11 53) RNE " + a + "))"
	case OpFFromU:
		e = "(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE " + a + "))"
	case OpFToS:
		// amd64: out of range and NaN give 0x8000000000000000
		f := fp(a)
		lo := "((_ to_fp 11 53) #xc3e0000000000000)"
		hi := "((_ to_fp 11 53) #x43e0000000000000)"
		e = "(ite (and (fp.leq " + lo + " " + f + ") (fp.lt " + f + " " + hi + ")) ((_ fp.to_sbv 64) RTZ " + f + ") #x8000000000000000)"
	case OpFLt:
		e = "(fp.lt " + fp(a) + " " + fp(b) + ")"
	case OpFLe:
		e = "(fp.leq " + fp(a) + " " + fp(b) + ")"
	case OpFEq:
		e = "(fp.eq " + fp(a) + " " + fp(b) + ")"
	default:
		panic("smt: bad op")
	}
	if len(e) < 40 && t.op != OpTab {
		// inline small expressions
		p.ids[t] = e
		return e
	}
	s = "t" + strconv.Itoa(p.n)
	p.n++
	sort := "Bool"
	if t.w > 0 {
		sort = "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
	}
	p.sb.WriteString("(define-fun " + s + " () " + sort + " " + e + ")\n")
	p.ids[t] = s
	return s
}

// table prints a balanced decision tree over the index bits.
func (p *printer) table(t *Term, idx string) string {
	data := t.tab.data
	w := t.w
	var rec func(lo, n int, bit int) string
	rec = func(lo, n, bit int) string {
		if lo >= len(data) {
			return p.bv(0, w)
		}
		same := true
		for i := lo; i < lo+n; i++ {
			v := uint64(0)
			if i < len(data) {
				v = data[i]
			}
			if v != data[lo] {
				same = false
				break
			}
		}
		if same {
			return p.bv(data[lo], w)
		}
		h := n / 2
		return fmt.Sprintf("(ite (= ((_ extract %d %d) %s) #b1) %s %s)", bit, bit, idx, rec(lo+h, h, bit-1), rec(lo, h, bit-1))
	}
	nb := 0
	for 1<<nb < len(data) {
		nb++
	}
	if nb > int(t.a.w) {
		nb = int(t.a.w)
	}
	// the index is assumed to be in range (bounds are checked by the caller)
	return rec(0, 1<<nb, nb-1)
}

func queryText(cs []*Term) (string, []*Term) {
	p := &printer{ids: map[*Term]string{}}
	var as []string
	for _, c := range cs {
		as = append(as, p.ref(c))
	}
	for _, a := range as {
		p.sb.WriteString("(assert " + a + ")\n")
	}
	return p.sb.String(), p.vars
}

type cacheEntry struct {
	res  Result
	vals []uint64
}

type queryCache struct {
	mu sync.Mutex
	m  map[string]cacheEntry
	sz int
}

var qcache = &queryCache{m: map[string]cacheEntry{}}

// check decides the conjunction of cs. For Sat it returns values for vars.
func (s *Solver) check(cs []*Term) (Result, []*Term, []uint64) {
	text, vars := queryText(cs)
	qcache.mu.Lock()
	if e, ok := qcache.m[text]; ok {
		qcache.mu.Unlock()
		stats.CacheHits.Add(1)
		return e.res, vars, e.vals
	}
	qcache.mu.Unlock()
	res, vals := s.run(text, vars)
	if res != Unknown {
		qcache.mu.Lock()
		if qcache.sz < 512<<20 {
			qcache.m[text] = cacheEntry{res, vals}
			qcache.sz += len(text) + 8*len(vals) + 64
		}
		qcache.mu.Unlock()
	}
	return res, vars, vals
}

func (s *Solver) run(text string, vars []*Term) (Result, []uint64) {
	for try := 0; ; try++ {
		res, vals, err := s.run1(text, vars)
		if err == nil {
			return res, vals
		}
		stats.Errors.Add(1)
		stats.lastErr.Store("err", err.Error())
		s.stop()
		if try >= 1 {
			return Unknown, nil
		}
	}
}

func (s *Solver) run1(text string, vars []*Term) (Result, []uint64, error) {
	if s.cmd == nil || s.count > 20000 {
		s.stop()
		s.start()
	}
	s.count++
	t0 := time.Now()
	var sb strings.Builder
	sb.Grow(len(text) + 256)
	sb.WriteString("(push)\n")
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n")
	fresh := s.count == 1
	proc := s.cmd.Process
	timer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*2+2*time.Second, func() { proc.Kill() })
	defer timer.Stop()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return Unknown, nil, err
	}
	line, err := s.out.ReadString('\n')
	if slowQuery > 0 && time.Since(t0) > slowQuery {
		fmt.Fprintf(os.Stderr, "slow query (%v, %d bytes) %s: %.2000s\n", time.Since(t0), len(text), line, text)
	}
	if err != nil {
		stats.Time.Add(int64(time.Since(t0)))
		stats.Queries.Add(1)
		s.stop()
		if !fresh {
			// the solver may still have been busy with the previous query
			return Unknown, nil, err
		}
		stats.UnknownN.Add(1)
		return Unknown, nil, nil
	}
	line = strings.TrimSpace(line)
	var res Result
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	var vals []uint64
	if res == Sat && len(vars) > 0 {
		sb.Reset()
		sb.WriteString("(get-value (")
		for i := range vars {
			fmt.Fprintf(&sb, "v%d ", i)
		}
		sb.WriteString("))\n")
		if _, err := io.WriteString(s.in, sb.String()); err != nil {
			return Unknown, nil, err
		}
		vals, err = s.readValues(len(vars))
		if err != nil {
			return Unknown, nil, err
		}
	}
	if res == Unknown || time.Since(t0) > time.Second {
		// removing a large query can take a long time
		s.stop()
	} else if _, err := io.WriteString(s.in, "(pop)\n"); err != nil {
		return Unknown, nil, err
	}
	stats.Time.Add(int64(time.Since(t0)))
	stats.Queries.Add(1)
	switch res {
	case Sat:
		stats.SatN.Add(1)
	case Unsat:
		stats.UnsatN.Add(1)
	default:
		stats.UnknownN.Add(1)
	}
	return res, vals, nil
}

func (s *Solver) readValues(n int) ([]uint64, error) {
	depth := 0
	var tok strings.Builder
	var toks []string
	flush := func() {
		if tok.Len() > 0 {
			toks = append(toks, tok.String())
			tok.Reset()
		}
	}
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		switch b {
		case '(':
			depth++
			flush()
		case ')':
			depth--
			flush()
			if depth == 0 {
				s.out.ReadString('\n')
				goto done
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			tok.WriteByte(b)
		}
	}
done:
	if len(toks) != 2*n {
		return nil, fmt.Errorf("get-value: unexpected answer %v", toks)
	}
	vals := make([]uint64, n)
	for i := 0; i < n; i++ {
		if toks[2*i] != "v"+strconv.Itoa(i) {
			return nil, fmt.Errorf("get-value: bad var %v", toks[2*i])
		}
		v := toks[2*i+1]
		switch {
		case v == "true":
			vals[i] = 1
		case v == "false":
			vals[i] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			vals[i] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			vals[i] = x
		default:
			return nil, fmt.Errorf("get-value: bad value %q", v)
		}
	}
	return vals, nil
}

// evalTerms evaluates terms under an assignment for variables; used to
// validate solver models and for finite-domain decisions.
type evaluator struct {
	memo map[*Term]uint64
	env  func(*Term) uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return e.env(t)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var av, bv, cv uint64
	var aw, bw uint8
	if t.a != nil {
		av = e.eval(t.a)
		aw = t.a.w
	}
	if t.b != nil {
		bv = e.eval(t.b)
		bw = t.b.w
	}
	if t.c != nil {
		cv = e.eval(t.c)
	}
	v := evalVals(t.op, t.w, aw, bw, av, bv, cv, t.k, t.tab)
	e.memo[t] = v
	return v
}
