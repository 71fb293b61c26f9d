package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "seehuhn.de/go/sfnt"
const harnessRoot = modPath + "/internal/verifh"

// harnessInfo describes one harness function (func H_xxx in the package of the
// property), with the options given in its "//gosym:" comment.
type harnessInfo struct {
	name     string
	quick    float64
	thorough float64
	opts     map[string]string
	doc      string
	bounds   string
}

type config struct {
	repo, verif string
	prop        string
	tier        string
	only        string
	scale       float64
	workers     int
	verbose     bool
	debug       bool
	replay      string
	cpuprof     string
	seed        int
	keep        bool
	noNative    bool
	maxPaths    int64
}

func main() {
	var c config
	flag.StringVar(&c.repo, "repo", "/repo", "repository")
	flag.StringVar(&c.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&c.prop, "prop", "", "property id")
	flag.StringVar(&c.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&c.only, "only", "", "regexp: only these harnesses")
	flag.Float64Var(&c.scale, "scale", 1, "scale factor for time budgets")
	flag.IntVar(&c.workers, "workers", 0, "workers")
	flag.BoolVar(&c.verbose, "v", false, "verbose")
	flag.BoolVar(&c.debug, "debug", false, "do not catch engine panics")
	flag.StringVar(&c.replay, "replay", "", "replay a violation file against the real code")
	flag.StringVar(&c.cpuprof, "cpuprofile", "", "write cpu profile")
	flag.BoolVar(&c.noNative, "nonative", false, "skip native runs")
	flag.Int64Var(&c.maxPaths, "maxpaths", 0, "stop after this many paths")
	flag.Parse()
	if c.workers == 0 {
		c.workers = runtime.NumCPU()
		if c.workers > 8 {
			c.workers = 8
		}
	}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if c.cpuprof != "" {
		f, err := os.Create(c.cpuprof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if c.replay != "" {
		os.Exit(replayFile(&c))
	}
	code := run(&c)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+format+"\n", a...)
	os.Exit(2)
}

// harnessDirs returns the overlay: path below /repo -> file in /verif.
func overlayFiles(c *config) map[string]string {
	res := map[string]string{}
	add := func(dir, dst string) {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			res[filepath.Join(c.repo, dst, filepath.Base(f))] = f
		}
	}
	add(filepath.Join(c.verif, "vsym"), "internal/vsym")
	ds, _ := filepath.Glob(filepath.Join(c.verif, "harness", "*"))
	for _, d := range ds {
		add(d, "internal/verifh/"+filepath.Base(d))
	}
	return res
}

func parseHarnesses(dir string) []*harnessInfo {
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var res []*harnessInfo
	for _, f := range fs {
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
				continue
			}
			h := &harnessInfo{name: fd.Name.Name, quick: 5, thorough: 120, opts: map[string]string{}}
			if fd.Doc != nil {
				var txt []string
				for _, l := range fd.Doc.List {
					s := strings.TrimSpace(strings.TrimPrefix(l.Text, "//"))
					if strings.HasPrefix(s, "gosym:") {
						for _, o := range strings.Fields(strings.TrimPrefix(s, "gosym:")) {
							k, v, _ := strings.Cut(o, "=")
							switch k {
							case "quick":
								h.quick, _ = strconv.ParseFloat(v, 64)
							case "thorough":
								h.thorough, _ = strconv.ParseFloat(v, 64)
							default:
								h.opts[k] = v
							}
						}
					} else {
						txt = append(txt, s)
					}
				}
				h.doc = strings.Join(txt, " ")
			}
			res = append(res, h)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].name < res[j].name })
	return res
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness"`
	Match    string `json:"match"` // regexp on the message of the native replay
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re       *regexp.Regexp
	hre      *regexp.Regexp
	hit      bool
}

func loadKnown(c *config) []*known {
	var f struct {
		Findings []*known `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("known_findings.json: %v", err)
	}
	var res []*known
	for _, k := range f.Findings {
		if k.Property == c.prop && k.Status == "known" {
			k.re = regexp.MustCompile(k.Match)
			k.hre = regexp.MustCompile("^(" + k.Harness + ")$")
			res = append(res, k)
		}
	}
	return res
}

func run(c *config) int {
	t0 := time.Now()
	pkgName := strings.ToLower(c.prop)
	hdir := filepath.Join(c.verif, "harness", pkgName)
	hs := parseHarnesses(hdir)
	if len(hs) == 0 {
		die("no harnesses for %q", c.prop)
	}
	thorough := c.tier == "thorough"

	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	files := overlayFiles(c)
	mainFile := filepath.Join(tmp, "main.go")
	if err := os.WriteFile(mainFile, []byte(runnerSource(pkgName, hs)), 0o644); err != nil {
		die("%v", err)
	}
	files[filepath.Join(c.repo, "internal/verifh/run_"+pkgName, "main.go")] = mainFile
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	ovFile := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovFile, ov, 0o644)

	needRace := false
	for _, h := range hs {
		if _, ok := h.opts["race"]; ok {
			needRace = true
		}
	}
	nat := &native{c: c, bin: filepath.Join(tmp, "runner"), overlay: ovFile, pkg: harnessRoot + "/run_" + pkgName, tmp: tmp}
	built := make(chan error, 2)
	go func() { built <- nat.build(nat.bin, false) }()
	if needRace {
		nat.raceBin = filepath.Join(tmp, "runner-race")
		go func() { built <- nat.build(nat.raceBin, true) }()
	} else {
		built <- nil
	}

	overlay := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			die("%v", err)
		}
		overlay[dst] = b
	}
	pcfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: c.repo, Overlay: overlay}
	pkgs, err := packages.Load(pcfg, harnessRoot+"/"+pkgName, vsymPath)
	if err != nil {
		die("load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	})
	if bad {
		die("the harnesses do not compile against this tree")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	initTypes()
	var hp *ssa.Package
	for _, p := range spkgs {
		if p.Pkg.Path() == harnessRoot+"/"+pkgName {
			hp = p
		}
	}
	loadSecs := time.Since(t0).Seconds()
	for range 2 {
		if err := <-built; err != nil {
			die("native build: %v", err)
		}
	}
	defer nat.close()

	var filter *regexp.Regexp
	if c.only != "" {
		filter = regexp.MustCompile(c.only)
	}
	kn := loadKnown(c)

	proto := &Explorer{prog: prog, solverTimeout: 2000}
	if p := prog.ImportedPackage(vsymPath); p != nil {
		proto.rtErr = p.Type("RuntimeError").Type()
	}
	var ms []*Machine
	for range c.workers {
		ms = append(ms, newMachine(proto))
	}
	defer func() {
		for _, m := range ms {
			m.solver.stop()
			m.solver2.stop()
		}
	}()

	ev := &evidence{c: c, loadSecs: loadSecs}
	code := 0
	for _, h := range hs {
		if filter != nil && !filter.MatchString(h.name) {
			continue
		}
		if _, ok := h.opts["thoroughonly"]; ok && !thorough {
			continue
		}
		b := h.quick
		if thorough {
			b = h.thorough
		}
		b *= c.scale
		if b <= 0 {
			continue
		}
		ex := &Explorer{prog: prog, rtErr: proto.rtErr, harness: h.name, entry: hp.Func(h.name), solverTimeout: 2000,
			stepLimit: 20_000_000, maxConc: 70000, crossEvery: 50, debug: c.debug, workers: c.workers,
			budget: time.Duration(b * float64(time.Second)), verbose: c.verbose, thorough: thorough, maxFind: 60, sampleMax: 150,
			maxPaths: c.maxPaths}
		if thorough {
			ex.sampleMax = 600
			ex.stepLimit = 100_000_000
		}
		if s, ok := h.opts["steps"]; ok {
			n, _ := strconv.ParseFloat(s, 64)
			ex.stepLimit = int64(n)
		}
		if s, ok := h.opts["conc"]; ok {
			ex.maxConc, _ = strconv.Atoi(s)
		}
		race := false
		if _, ok := h.opts["race"]; ok {
			race = true
		}
		violated := false
		ex.onFinding = func(f *Finding) {
			// replay against the real code
			if c.noNative {
				f.Native = "not run"
				return
			}
			r := nat.run(job{H: h.name, In: f.Input, Thorough: thorough, Race: race}, f.Kind)
			f.Native = r.Status + ": " + r.Msg
			f.Confirmed = r.violation()
			if !f.Confirmed {
				return
			}
			f.NativeMsg = r.Msg
			for _, k := range kn {
				if k.hre.MatchString(h.name) && k.re.MatchString(r.Msg) {
					f.Known = k.What
					k.hit = true
					return
				}
			}
			violated = true
			ex.stop()
		}
		r := ex.run(ms)
		ev.add(h, r, ex)
		// translator validation: compare the interpreter's observations with
		// those of the real code
		if !c.noNative && !violated {
			ex.compareNative(nat, r, h, thorough, kn)
		}
		r.Findings = len(ex.findings)
		for _, f := range ex.findings {
			if !f.Confirmed {
				r.Spurious++
				if c.verbose || r.Spurious <= 3 {
					fmt.Printf("note: harness %s: candidate (%s) %s not reproduced by the real code (%s)\n", h.name, f.Kind, f.Msg, f.Native)
					if c.verbose {
						in, _ := json.Marshal(f.Input)
						fmt.Printf("   input %s\n%s\n", in, f.Trace)
					}
				}
			}
		}
		fmt.Printf("%s %s: %s\n", c.prop, h.name, summary(r))
		if c.verbose {
			for _, k := range sortedKeys(r.Notes) {
				fmt.Printf("   note %dx %s\n", r.Notes[k], k)
			}
			fmt.Printf("   reached %v\n", r.Reached)
		}
		for _, f := range ex.findings {
			if f.Confirmed && f.Known == "" {
				p := ev.violation(f)
				fmt.Printf("harness %s: %s [%s]\n", h.name, f.Msg, f.Native)
				if f.Trace != "" {
					fmt.Println(indent(f.Trace))
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
				code = 1
				break
			}
		}
		if code != 0 {
			break
		}
	}
	// A KNOWN-FINDING line for each listed finding
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.What)
	}
	ev.funcs = coveredFuncs(ms)
	ev.write(time.Since(t0).Seconds(), kn)
	return code
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n    ")
}

func summary(r *HarnessResult) string {
	st := "bounds exhausted"
	if !r.Complete {
		st = fmt.Sprintf("time-limited (%d states left)", r.Left)
	}
	return fmt.Sprintf("%s, %.1fs, paths %v, %d branch decisions, %d+%d assertions (solver+constant), %d unknown, %d merges, %d vars, native %d/%d match, notes %d, msgs %v",
		st, r.Secs, r.Paths, r.Branches, r.Asserts, r.Trivial, r.Unknown, r.Merges, r.MaxVars, r.Compared-r.Mismatch, r.Compared, len(r.Notes), r.Msgs)
}

// compareNative runs a sample of the explored paths in the real code.
func (ex *Explorer) compareNative(nat *native, r *HarnessResult, h *harnessInfo, thorough bool, kn []*known) {
	deadline := time.Now().Add(ex.budget/2 + 5*time.Second)
	for _, s := range append(ex.samples, ex.bad...) {
		if time.Now().After(deadline) {
			break
		}
		n := nat.run(job{H: h.name, In: s.Input, Thorough: thorough}, "sample")
		if s.Kind == "ok" {
			r.Compared++
		} else {
			r.Fallback++
		}
		if n.violation() && n.Status != "timeout" {
			f := &Finding{Kind: "native", Msg: "explored path fails in the real code: " + n.Msg, Harness: h.name, Input: s.Input,
				Native: n.Status + ": " + n.Msg, NativeMsg: n.Msg, Confirmed: true}
			for _, k := range kn {
				if k.hre.MatchString(h.name) && k.re.MatchString(n.Msg) {
					f.Known, k.hit = k.What, true
				}
			}
			ex.findings = append(ex.findings, f)
			continue
		}
		if s.Kind != "ok" {
			continue
		}
		if n.Status != "ok" || !equalU64(n.Obs, s.Obs) {
			r.Mismatch++
			if ex.verbose {
				in, _ := json.Marshal(s.Input)
				fmt.Printf("MISMATCH %s: interpreter %x, real code %s %s %x, input %s\n", h.name, s.Obs, n.Status, n.Msg, n.Obs, in)
			}
		}
	}
}

func equalU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func coveredFuncs(ms []*Machine) []string {
	set := map[string]bool{}
	for _, m := range ms {
		for f, x := range m.fns {
			if x.ready && x.ext == nil && f.Pkg != nil {
				p := f.Pkg.Pkg.Path()
				if strings.HasPrefix(p, modPath) && !strings.Contains(p, "/internal/verifh") && f.Name() != "init" {
					set[strings.TrimPrefix(f.String(), modPath)] = true
				}
			}
		}
	}
	return sortedKeys(set)
}

func replayFile(c *config) int {
	b, err := os.ReadFile(c.replay)
	if err != nil {
		die("%v", err)
	}
	var rf replayData
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	c.prop = rf.Property
	pkgName := strings.ToLower(c.prop)
	hs := parseHarnesses(filepath.Join(c.verif, "harness", pkgName))
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	files := overlayFiles(c)
	mainFile := filepath.Join(tmp, "main.go")
	os.WriteFile(mainFile, []byte(runnerSource(pkgName, hs)), 0o644)
	files[filepath.Join(c.repo, "internal/verifh/run_"+pkgName, "main.go")] = mainFile
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	ovFile := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovFile, ov, 0o644)
	nat := &native{c: c, bin: filepath.Join(tmp, "runner"), overlay: ovFile, pkg: harnessRoot + "/run_" + pkgName, tmp: tmp}
	if err := nat.build(nat.bin, false); err != nil {
		die("%v", err)
	}
	race := false
	for _, h := range hs {
		if h.name == rf.Harness {
			_, race = h.opts["race"]
		}
	}
	if race {
		nat.raceBin = nat.bin + "-race"
		if err := nat.build(nat.raceBin, true); err != nil {
			die("%v", err)
		}
	}
	defer nat.close()
	r := nat.run(job{H: rf.Harness, In: rf.Input, Thorough: rf.Tier == "thorough", Race: race}, rf.Kind)
	fmt.Printf("%s: %s\n%s\n", r.Status, r.Msg, r.Stack)
	if r.violation() {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, c.replay)
		return 1
	}
	return 0
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
}

var _ = exec.Command
