package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// native runs harnesses compiled by the Go compiler against the real code.
type native struct {
	c       *config
	bin     string
	raceBin string
	overlay string
	pkg     string
	tmp     string

	mu   sync.Mutex
	proc *nproc
	race *nproc
}

type nproc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Scanner
	errb *tailBuf
	line chan string
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

type job struct {
	H        string     `json:"h"`
	In       []InputVal `json:"in"`
	Thorough bool       `json:"t,omitempty"`
	Race     bool       `json:"r,omitempty"`
}

type nresult struct {
	Status string   `json:"status"` // ok, assume, assert, panic, crash, timeout, desync
	Msg    string   `json:"msg"`
	Stack  string   `json:"stack"`
	Obs    []uint64 `json:"obs"`
}

func (r *nresult) violation() bool {
	switch r.Status {
	case "assert", "panic", "crash", "timeout", "race":
		return true
	}
	return false
}

func (n *native) build(out string, race bool) error {
	args := []string{"build", "-overlay", n.overlay, "-o", out}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, n.pkg)...)
	cmd.Dir = n.c.repo
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

func (n *native) start(race bool) (*nproc, error) {
	var cmd *exec.Cmd
	if race {
		cmd = exec.Command(n.raceBin)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=8")
	} else {
		// bound the memory of the code under test
		cmd = exec.Command("/bin/bash", "-c", "ulimit -v 12000000; exec \"$0\"", n.bin)
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=6GiB", "GOMAXPROCS=4")
	}
	cmd.Dir = n.tmp
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p := &nproc{cmd: cmd, errb: &tailBuf{}, line: make(chan string, 1)}
	cmd.Stderr = p.errb
	var err error
	if p.in, err = cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	p.out = bufio.NewScanner(o)
	p.out.Buffer(nil, 1<<26)
	go func() {
		for p.out.Scan() {
			s := p.out.Text()
			if strings.HasPrefix(s, "@@") {
				p.line <- s[2:]
			}
		}
		close(p.line)
	}()
	return p, nil
}

func (p *nproc) kill() {
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	p.in.Close()
	go func() {
		for range p.line {
		}
	}()
	p.cmd.Wait()
}

func (n *native) close() {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.proc != nil {
		n.proc.kill()
		n.proc = nil
	}
	if n.race != nil {
		n.race.kill()
		n.race = nil
	}
}

func (n *native) run(j job, kind string) nresult {
	n.mu.Lock()
	defer n.mu.Unlock()
	pp := &n.proc
	if j.Race {
		pp = &n.race
	}
	timeout := 10 * time.Second
	if kind == "hang" {
		timeout = 20 * time.Second
	}
	if j.Race {
		timeout = 60 * time.Second
	}
	b, _ := json.Marshal(j)
	for try := 0; ; try++ {
		if *pp == nil {
			p, err := n.start(j.Race)
			if err != nil {
				return nresult{Status: "error", Msg: err.Error()}
			}
			*pp = p
		}
		p := *pp
		_, err := p.in.Write(append(b, '\n'))
		if err != nil && try == 0 {
			p.kill()
			*pp = nil
			continue
		}
		select {
		case s, ok := <-p.line:
			if ok {
				var r nresult
				if err := json.Unmarshal([]byte(s), &r); err != nil {
					return nresult{Status: "error", Msg: err.Error()}
				}
				return r
			}
			p.cmd.Wait()
			e := p.errb.String()
			p.kill()
			*pp = nil
			st := "crash"
			msg := firstLine(e)
			if i := strings.Index(e, "WARNING: DATA RACE"); i >= 0 {
				st = "race"
				msg = "data race"
				e = e[i:]
			}
			return nresult{Status: st, Msg: msg, Stack: e}
		case <-time.After(timeout):
			p.kill()
			*pp = nil
			return nresult{Status: "timeout", Msg: fmt.Sprintf("no result after %v", timeout)}
		}
	}
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func runnerSource(pkg string, hs []*harnessInfo) string {
	var b strings.Builder
	for _, h := range hs {
		fmt.Fprintf(&b, "\t%q: h.%s,\n", h.name, h.name)
	}
	return `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	h "` + harnessRoot + "/" + pkg + `"
	"` + vsymPath + `"
)

var hs = map[string]func(){
` + b.String() + `}

type job struct {
	H  string     ` + "`json:\"h\"`" + `
	In []vsym.Val ` + "`json:\"in\"`" + `
	T  bool       ` + "`json:\"t\"`" + `
	R  bool       ` + "`json:\"r\"`" + `
}

type result struct {
	Status string   ` + "`json:\"status\"`" + `
	Msg    string   ` + "`json:\"msg\"`" + `
	Stack  string   ` + "`json:\"stack\"`" + `
	Obs    []uint64 ` + "`json:\"obs\"`" + `
}

func one(j job) (r result) {
	defer func() {
		x := recover()
		r.Obs = vsym.Obs()
		switch x := x.(type) {
		case nil:
			r.Status = "ok"
		case vsym.Violation:
			r.Status, r.Msg = "assert", x.Msg
		case vsym.AssumeFailed:
			r.Status = "assume"
		case vsym.Desync:
			r.Status, r.Msg = "desync", x.Msg
		default:
			r.Status, r.Msg = "panic", fmt.Sprint(x)
			r.Stack = string(debug.Stack())
			// name the function which panicked
			seen := false
			for _, l := range strings.Split(r.Stack, "\n") {
				if strings.HasPrefix(l, "panic(") {
					seen = true
				} else if seen && strings.HasPrefix(l, "seehuhn.de/go/sfnt") {
					if i := strings.LastIndexByte(l, '('); i > 0 {
						l = l[:i]
					}
					r.Msg += " in " + l
					break
				}
			}
		}
	}()
	vsym.Start(j.In, j.T, j.R)
	hs[j.H]()
	return
}

func main() {
	debug.SetMaxStack(1 << 28)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var j job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		r := one(j)
		b, _ := json.Marshal(r)
		os.Stdout.WriteString("@@" + string(b) + "\n")
	}
}
`
}
