package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog *ssa.Program
	repo []*ssa.Package // dependency order
}

func loadProgram(dir string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog}
	for _, s := range spkgs {
		if s != nil && s.Pkg.Name() != "main" {
			p.repo = append(p.repo, s)
		}
	}
	for _, s := range spkgs {
		if s != nil && s.Pkg.Name() == "main" {
			p.repo = append(p.repo, s)
		}
	}
	return p, nil
}

func newExec(p *Program, opt Options, deadline time.Time) *Exec {
	c := NewCtx()
	if opt.QueryTmo == 0 {
		opt.QueryTmo = time.Duration(envInt("QT", 60)) * time.Second
	}
	if opt.Enum == 0 {
		opt.Enum = 40
	}
	x := &Exec{c: c, s: NewSolver(c, opt.QueryTmo, deadline), prog: p.prog, opt: opt, deadline: deadline,
		fns: map[*ssa.Function]*fnInfo{}, leafCache: map[types.Type]leafInfo{}, globals: map[*ssa.Global]int{},
		inited: map[*ssa.Package]bool{}, consts: map[*ssa.Const]Value{}, frozen: map[int]string{},
		reached: map[string]int{}, covered: map[string]int64{}, failWhy: map[string]int{}, forkAt: map[string]int{},
		files: map[string]int{}, pools: map[string]int{}, flags: map[string]flagDef{}}
	x.debug = os.Getenv("VERIF_DEBUG") != ""
	return x
}

type JobResult struct {
	Harness  string
	Params   []int
	Status   string // ok, violation, incomplete
	Why      string
	Viol     *Violation
	Paths    int
	Steps    int64
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Cached   int
	Errors   int
	Solver   time.Duration
	Wall     time.Duration
	Asserts  int
	AssertOK int
	Merges   int
	Forks    int
	Reached  map[string]int
	Covered  map[string]int64
	Vars     int
	Terms    int
	Unknowns []string

	Internal, Confirmed, Mismatch int
	SatTime                       time.Duration

	Sample map[string]uint64 // an assignment for which the harness ran to its end
	Stuck  map[string]uint64 // the assignment being executed when time ran out
}

func (x *Exec) assignment(m *Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, t := range x.c.vars {
		r[t.name] = m.Eval(t)
	}
	return r
}

func runJob(p *Program, harness string, params []int, opt Options, deadline time.Time) (jr *JobResult) {
	t0 := time.Now()
	x := newExec(p, opt, deadline)
	x.params = params
	jr = &JobResult{Harness: harness, Params: params, Status: "ok"}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case abort:
				jr.Status, jr.Why = "incomplete", e.why
				if e.why == "time limit" && x.lastSt != nil && x.lastSt.wit != nil {
					jr.Stuck = x.assignment(x.lastSt.wit)
				}
			case stopJob:
				jr.Status, jr.Viol = "violation", x.viol
			default:
				if x.debug {
					panic(r)
				}
				jr.Status, jr.Why = "incomplete", fmt.Sprintf("engine error: %v", r)
			}
		}
		if jr.Status == "ok" {
			x.s.Flush()
			if x.s.Mismatch > 0 {
				jr.Status, jr.Why = "incomplete", "the two solvers disagree"
			} else if x.s.Unconfirmed > 0 {
				jr.Status, jr.Why = "incomplete", "unsatisfiable answers not confirmed in time"
			}
		}
		if jr.Status == "ok" && len(x.unknowns) > 0 {
			jr.Status, jr.Why = "incomplete", x.unknowns[0]
		}
		jr.Steps, jr.Asserts, jr.AssertOK, jr.Merges, jr.Forks = x.steps, x.asserts, x.assertOK, x.merges, x.forks
		jr.Queries, jr.Sat, jr.Unsat, jr.Unknown, jr.Cached, jr.Errors, jr.Solver = x.s.Queries, x.s.Sat, x.s.Unsat, x.s.Unknown, x.s.Cached, x.s.Errors, x.s.Time
		jr.Reached, jr.Covered, jr.Vars, jr.Terms, jr.Unknowns = x.reached, x.covered, len(x.c.vars), x.c.nextID, x.unknowns
		jr.Internal, jr.Confirmed, jr.Mismatch, jr.SatTime = x.s.Internal, x.s.Confirmed, x.s.Mismatch, x.s.SatTime
		jr.Wall = time.Since(t0)
		x.s.Close()
		if x.debug {
			x.dump()
			type kv struct {
				k string
				v int64
			}
			var l []kv
			for k, v := range x.covered {
				l = append(l, kv{k, v})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
			for i := 0; i < len(l) && i < 12; i++ {
				dbg("  cov %9d %s", l[i].v, l[i].k)
			}
		}
	}()
	st, err := x.initProgram(p.repo)
	if err != nil {
		jr.Status, jr.Why = "incomplete", err.Error()
		return
	}
	var fn *ssa.Function
	for _, r := range p.repo {
		if f := r.Func(harness); f != nil {
			fn = f
		}
	}
	if fn == nil {
		jr.Status, jr.Why = "incomplete", "harness not found"
		return
	}
	x.steps = 0
	x.initID, x.initHeap = x.nextObj, st.heap
	res := x.call(st, &FuncV{fn: fn}, nil)
	for _, r := range res {
		if r.panic != nil {
			m := r.st.wit
			if m == nil {
				rs, mm := x.check(r.st, x.c.True)
				if rs == resUnsat {
					continue
				}
				if rs == resUnknown {
					x.unknowns = append(x.unknowns, "panic of unknown feasibility: "+r.panic.msg)
					continue
				}
				m = mm
			}
			kind := "panic"
			if r.panic.exit {
				kind = "exit"
			}
			x.report(r.st, m, kind, r.panic.msg+" at "+r.panic.pos, r.panic.pos)
		}
		jr.Paths++
		if r.panic == nil && jr.Sample == nil {
			if r.st.wit == nil {
				if rs, m := x.check(r.st, x.c.True); rs == resSat {
					r.st.wit = m
				}
			}
			if r.st.wit != nil {
				jr.Sample = x.assignment(r.st.wit)
			}
		}
	}
	return
}

func (x *Exec) dump() {
	type kv struct {
		k string
		v int
	}
	for _, m := range []map[string]int{x.failWhy, x.forkAt} {
		var l []kv
		for k, v := range m {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i, e := range l {
			if i >= 12 {
				break
			}
			dbg("  %6d %s", e.v, e.k)
		}
		dbg("  --")
	}
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMaxStack(8 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: engine run HARNESS [params...]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		devRun(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	}
}

func devRun(args []string) {
	ov, err := overlayFor(verifDir+"/harness", repoDir)
	if err != nil {
		panic(err)
	}
	p, err := loadProgram(repoDir, ov)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	opt := Options{Strict: envInt("STRICT", 1), Stub: map[string]string{}}
	if h := os.Getenv("HASH"); h != "" {
		opt.Stub["intHash"] = h
	}
	if f := os.Getenv("FORKIDX"); f != "" {
		opt.ForkIndex, _ = strconv.Atoi(f)
	}
	opt.LooseFns = map[string]bool{}
	for _, f := range strings.Split(os.Getenv("LOOSEFNS"), ",") {
		opt.LooseFns[f] = true
	}
	opt.StrictFns = map[string]bool{}
	for _, f := range strings.Split(os.Getenv("STRICTFNS"), ",") {
		opt.StrictFns[f] = true
	}
	var params []int
	for _, a := range args[1:] {
		n, _ := strconv.Atoi(a)
		params = append(params, n)
	}
	dl := 300 * time.Second
	if d := os.Getenv("DL"); d != "" {
		n, _ := strconv.Atoi(d)
		dl = time.Duration(n) * time.Second
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	jr := runJob(p, args[0], params, opt, time.Now().Add(dl))
	fmt.Printf("%s %v: %s %s\n", jr.Harness, jr.Params, jr.Status, jr.Why)
	if jr.Viol != nil {
		fmt.Printf("  VIOL %s: %s %v\n", jr.Viol.Kind, jr.Viol.Msg, jr.Viol.Model)
	}
	fmt.Printf("  paths=%d steps=%d asserts=%d/%d merges=%d forks=%d queries=%d (sat %d unsat %d unk %d cached %d err %d) solver=%.2fs wall=%.2fs terms=%d reached=%v unknowns=%d internal=%d conf=%d mism=%d satt=%.2f\n",
		jr.Paths, jr.Steps, jr.AssertOK, jr.Asserts, jr.Merges, jr.Forks, jr.Queries, jr.Sat, jr.Unsat, jr.Unknown, jr.Cached, jr.Errors, jr.Solver.Seconds(), jr.Wall.Seconds(), jr.Terms, jr.Reached, len(jr.Unknowns), jr.Internal, jr.Confirmed, jr.Mismatch, jr.SatTime.Seconds())
}

// overlayFor maps harness files into the packages they belong to: files
// directly below dir/root go to the repository root, dir/tool to cmd/dawgtool.
func overlayFor(dir, repo string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for _, t := range []struct{ sub, dst, pkg string }{
		{"root", repo, "dawg"}, {"tool", repo + "/cmd/dawgtool", "main"},
		{"common", repo, "dawg"}, {"common", repo + "/cmd/dawgtool", "main"}} {
		ents, err := os.ReadDir(dir + "/" + t.sub)
		if err != nil {
			continue
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(dir + "/" + t.sub + "/" + e.Name())
			if err != nil {
				return nil, err
			}
			b = []byte(strings.Replace(string(b), "package PKG", "package "+t.pkg, 1))
			ov[t.dst+"/"+verifPrefix+"_"+e.Name()] = b
		}
	}
	return ov, nil
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}
