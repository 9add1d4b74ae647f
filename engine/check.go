package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Job is one symbolic execution of a harness.
type Job struct {
	Harness string
	Params  []int
	Strict  int
	Hash    string // stub for the hash function: "" (real), "uf" (any function), "const"
	Limit   int    // seconds
}

func (j Job) String() string {
	s := j.Harness
	for _, p := range j.Params {
		s += " " + strconv.Itoa(p)
	}
	if j.Hash != "" {
		s += " hash=" + j.Hash
	}
	return s
}

// The environment variables are for trying things out on copies.
var verifDir, repoDir = envOr("VERIF_DIR", "/verif"), envOr("VERIF_REPO", "/repo")

func envOr(name, def string) string {
	if s := os.Getenv(name); s != "" {
		return s
	}
	return def
}

type tierLimits struct {
	job, total time.Duration
}

var limits = map[string]tierLimits{
	"quick":    {150 * time.Second, 300 * time.Second},
	"thorough": {700 * time.Second, 780 * time.Second},
}

// load builds the SSA form of the repository plus the harnesses.  Harness
// files that do not compile against the current tree (they may name
// internals) are left out.
func load() (*Program, map[string][]byte, []string, error) {
	ov, err := overlayFor(verifDir+"/harness", repoDir)
	if err != nil {
		return nil, nil, nil, err
	}
	var dropped []string
	re := regexp.MustCompile(verifPrefix + `_([a-z0-9]+\.go):`)
	for {
		p, err := loadProgram(repoDir, ov)
		if err == nil {
			return p, ov, dropped, nil
		}
		ms := re.FindAllStringSubmatch(err.Error(), -1)
		n := 0
		for _, m := range ms {
			if m[1] == "lib.go" || m[1] == "lexicon.go" {
				continue
			}
			for k := range ov {
				if strings.HasSuffix(k, verifPrefix+"_"+m[1]) {
					delete(ov, k)
					n++
				}
			}
			if n > 0 {
				dropped = append(dropped, m[1])
			}
		}
		if n == 0 {
			return nil, nil, dropped, err
		}
	}
}

// ---- native replay ----

type Replay struct {
	Harness string            `json:"harness"`
	Params  []int             `json:"params"`
	Vars    map[string]uint64 `json:"vars"`
}

type native struct {
	dir  string
	ov   map[string][]byte
	mu   sync.Mutex
	bins map[string]string
	err  map[string]error
	pkg  map[string]string // harness -> "root" | "tool"
}

func newNative(dir string, ov map[string][]byte) *native {
	n := &native{dir: dir, ov: ov, bins: map[string]string{}, err: map[string]error{}, pkg: map[string]string{}}
	re := regexp.MustCompile(`(?m)^func (H\w+)\(\)`)
	for f, b := range ov {
		p := "root"
		if strings.Contains(f, "/cmd/dawgtool/") {
			p = "tool"
		}
		for _, m := range re.FindAllSubmatch(b, -1) {
			n.pkg[string(m[1])] = p
		}
	}
	return n
}

const replayTest = `package PKG

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
)

var vHarnesses = map[string]func(){
TABLE}

func TestVerifReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_ASSIGN"))
	if err != nil {
		t.Fatal(err)
	}
	var list []*vReplay
	if err := json.Unmarshal(b, &list); err != nil {
		t.Fatal(err)
	}
	for i, r := range list {
		vAssign = r
		fmt.Fprintf(os.Stderr, "\nVERIF-START %d\n", i)
		fmt.Fprintf(os.Stderr, "\nVERIF-RESULT %d %s\n", i, vRun(vHarnesses[r.Harness]))
	}
	fmt.Fprintf(os.Stderr, "\nVERIF-END\n")
}

TOOL
func vRun(f func()) (res string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case vSkip:
				res = "skip " + e.why
			case vFail:
				res = "violation " + e.msg
			default:
				res = fmt.Sprintf("violation panic: %v", r)
			}
		}
	}()
	if f == nil {
		return "skip no such harness"
	}
	f()
	return "pass"
}
`

// The tool runs in a process of its own: the test binary, called again.
const replayTool = `
func init() { vNativeTool = vSpawn }

func vSpawn(args []string, limit int) ([]byte, bool) {
	b, _ := json.Marshal(args)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_TOOL_ARGS="+string(b), "VERIF_TOOL_LIMIT="+strconv.Itoa(limit))
	out, err := cmd.Output()
	return out, err != nil
}

func TestMain(m *testing.M) {
	a := os.Getenv("VERIF_TOOL_ARGS")
	if a == "" {
		os.Exit(m.Run())
	}
	var args []string
	json.Unmarshal([]byte(a), &args)
	if n, _ := strconv.Atoi(os.Getenv("VERIF_TOOL_LIMIT")); n >= 0 {
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)})
	}
	vSetArgs(args)
	main()
	os.Exit(0)
}
`

func (n *native) build(pkg string, race bool) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	key := pkg + fmt.Sprint(race)
	if b, ok := n.bins[key]; ok {
		return b, nil
	}
	if e, ok := n.err[key]; ok {
		return "", e
	}
	dst, pk := repoDir, "dawg"
	if pkg == "tool" {
		dst, pk = repoDir+"/cmd/dawgtool", "main"
	}
	rep := map[string]string{}
	i := 0
	var names []string
	for f, b := range n.ov {
		i++
		p := fmt.Sprintf("%s/%s_%d.go", n.dir, key, i)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return "", err
		}
		rep[f] = p
	}
	for h, p := range n.pkg {
		if p == pkg {
			names = append(names, h)
		}
	}
	sort.Strings(names)
	tab := ""
	for _, h := range names {
		tab += fmt.Sprintf("\t%q: %s,\n", h, h)
	}
	src := strings.Replace(strings.Replace(replayTest, "PKG", pk, 1), "TABLE", tab, 1)
	if pkg == "tool" {
		src = strings.Replace(src, "TOOL", replayTool, 1)
		src = strings.Replace(src, "import (", "import (\n\t\"os/exec\"\n\t\"os/signal\"\n\t\"strconv\"\n\t\"syscall\"", 1)
	} else {
		src = strings.Replace(src, "TOOL", "", 1)
	}
	p := n.dir + "/" + key + "_replay_test.go"
	os.WriteFile(p, []byte(src), 0o644)
	rep[dst+"/"+verifPrefix+"_replay_test.go"] = p
	oj, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := n.dir + "/" + key + "_overlay.json"
	os.WriteFile(ovf, oj, 0o644)
	bin := n.dir + "/" + key + ".test"
	args := []string{"test", "-c", "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = dst
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		if len(out) > 600 {
			out = out[:600]
		}
		err = fmt.Errorf("replay build: %v: %s", err, out)
		n.err[key] = err
		return "", err
	}
	n.bins[key] = bin
	return bin, nil
}

// run executes assignments against the compiled code and says for each what
// happened: pass, skip ..., violation ..., hang, lost.
func (n *native) run(list []Replay, race bool, timeout time.Duration) ([]string, error) {
	res := make([]string, len(list))
	for i := range res {
		res[i] = "lost"
	}
	if len(list) == 0 {
		return res, nil
	}
	pkg := n.pkg[list[0].Harness]
	bin, err := n.build(pkg, race)
	if err != nil {
		return res, err
	}
	tmp, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return res, err
	}
	defer os.RemoveAll(tmp)
	b, _ := json.Marshal(list)
	os.WriteFile(tmp+"/assign.json", b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestVerifReplay", "-test.timeout", "0")
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_ASSIGN="+tmp+"/assign.json", "VERIF_TMP="+tmp, "GOMEMLIMIT=4GiB")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = nil, &buf
	cmd.Run()
	out := buf.String()
	cur, ended := -1, false
	raced := false
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "VERIF-START "):
			cur, _ = strconv.Atoi(l[12:])
			raced = false
		case strings.HasPrefix(l, "WARNING: DATA RACE"):
			raced = true
		case strings.HasPrefix(l, "VERIF-RESULT "):
			f := strings.SplitN(l[13:], " ", 2)
			i, _ := strconv.Atoi(f[0])
			if i < len(res) {
				res[i] = f[1]
				if raced && f[1] == "pass" {
					res[i] = "violation data race between two queries"
				}
			}
		case strings.HasPrefix(l, "VERIF-END"):
			ended = true
		}
	}
	if !ended && cur >= 0 && cur < len(res) && res[cur] == "lost" {
		if ctx.Err() != nil {
			res[cur] = "hang"
		} else {
			tail := out
			if i := strings.LastIndex(tail, "VERIF-START"); i >= 0 {
				tail = tail[i:]
			}
			tail = strings.TrimSpace(tail)
			if k := strings.Index(tail, "\n"); k >= 0 {
				tail = strings.TrimSpace(tail[k:])
			}
			if k := strings.Index(tail, "\n"); k >= 0 {
				tail = tail[:k]
			}
			res[cur] = "violation the process ended: " + tail
		}
	}
	return res, nil
}

// ---- known findings ----

type known struct{ prop, harness, text string }

// known-findings.txt: lines "known: property=C01 harness=HFind <message>" are
// suppressed, lines "fixed: ..." are a record only.
func readKnown() []known {
	b, _ := os.ReadFile(verifDir + "/known-findings.txt")
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" {
			r = append(r, known{strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "harness="), f[3]})
		}
	}
	return r
}

// ---- the check ----

type done struct {
	job Job
	jr  *JobResult
}

func checkMain(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: engine check PROPERTY [quick|thorough]")
		return 2
	}
	prop, tier := args[0], "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	if _, ok := limits[tier]; !ok {
		fmt.Println("unknown tier", tier)
		return 2
	}
	start := time.Now()
	lim := limits[tier]
	hard := start.Add(lim.total)
	seed := envInt("VERIF_SEED", 1)
	jobs := jobsFor(prop, tier, seed)
	if len(jobs) == 0 {
		fmt.Println("unknown property", prop)
		return 2
	}
	work, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	os.MkdirAll(verifDir+"/evidence", 0o755)
	ev := &evidence{prop: prop, tier: tier, seed: seed, start: start, total: len(jobs)}
	p, ov, dropped, err := load()
	if err != nil {
		// The tree does not compile with the harnesses: nothing is decided.
		fmt.Println("cannot encode the current tree:", err)
		ev.note("the current tree could not be encoded: " + err.Error())
		ev.write()
		return 2
	}
	for _, d := range dropped {
		ev.note("harness file " + d + " does not compile against the current tree; its jobs were not run")
	}
	nat := newNative(work, ov)
	race := prop == "C16"
	var buildDone sync.WaitGroup
	buildDone.Add(1)
	go func() { // the replay binary is needed in any case
		defer buildDone.Done()
		nat.build(nat.pkg[jobs[0].Harness], race)
	}()
	knowns := readKnown()

	queue := make(chan Job)
	results := make(chan done, len(jobs)+16)
	quit := make(chan struct{})
	workers := runtime.NumCPU()
	if w := envInt("VERIF_WORKERS", 0); w > 0 {
		workers = w
	}
	for i := 0; i < workers; i++ {
		go func() {
			for j := range queue {
				results <- done{j, runOne(p, j, lim, hard)}
			}
		}()
	}
	go func() {
		for _, j := range jobs {
			select {
			case queue <- j:
			case <-quit:
				return
			}
		}
		close(queue)
	}()
	defer close(quit)
	left := len(jobs)
	code := 0
	timer := time.NewTimer(time.Until(hard) + 5*time.Second)
	mem := time.NewTicker(2 * time.Second)
	var samples []Replay
	var sampleOf []Job
	var pool sync.WaitGroup
loop:
	for left > 0 {
		select {
		case <-timer.C:
			ev.note(fmt.Sprintf("%d jobs did not end within the time of this check", left))
			ev.unfinished = left
			break loop
		case <-mem.C:
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 20<<30 {
				runtime.GC()
				runtime.ReadMemStats(&m)
			}
			if m.HeapAlloc > 20<<30 {
				ev.note(fmt.Sprintf("memory limit reached; %d jobs did not end", left))
				ev.unfinished = left
				break loop
			}
		case d := <-results:
			left--
			if os.Getenv("VERIF_VERBOSE") != "" {
				fmt.Printf("%-60s %-10s %6.1fs q=%d paths=%d %s\n", d.job, d.jr.Status, d.jr.Wall.Seconds(), d.jr.Queries, d.jr.Paths, d.jr.Why)
			}
			ev.add(d)
			switch {
			case d.jr.Status == "violation":
				msg, path, ok := confirmViolation(nat, prop, d, race, ev)
				if !ok && d.job.Hash != "" {
					// a counterexample for an arbitrary hash function: look for one
					// with the real one
					j := d.job
					j.Hash = ""
					if j.Limit == 0 || j.Limit > 90 {
						j.Limit = 90
					}
					left++
					pool.Add(1)
					go func() {
						defer pool.Done()
						results <- done{j, runOne(p, j, lim, hard)}
					}()
				}
				if ok {
					if k := isKnown(knowns, prop, d.job.Harness, msg); k {
						fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, d.job, msg)
						continue
					}
					fmt.Printf("%s: %s\n", d.job, msg)
					fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
					code = 1
					break loop
				}
			case d.jr.Stuck != nil && !strings.HasPrefix(d.job.Harness, "HTool"):
				r := Replay{d.job.Harness, d.job.Params, d.jr.Stuck}
				res, err := nat.run([]Replay{r}, race, 20*time.Second)
				if err == nil && res[0] != "pass" && !strings.HasPrefix(res[0], "skip") && res[0] != "lost" {
					msg := res[0]
					if msg == "hang" {
						msg = "does not terminate"
					}
					if strings.HasPrefix(msg, "violation ") || msg == "does not terminate" {
						path := writeReplay(prop, r, msg)
						fmt.Printf("%s: %s\n", d.job, msg)
						fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
						ev.violation(d.job, msg, path)
						code = 1
						break loop
					}
				}
			case d.jr.Sample != nil:
				samples = append(samples, Replay{d.job.Harness, d.job.Params, d.jr.Sample})
				sampleOf = append(sampleOf, d.job)
			}
		}
	}
	// translation check: the compiled code must agree on sampled paths
	if code == 0 {
		for k, s := range samples {
			if time.Until(hard) < 10*time.Second || ev.validated >= 40 {
				break
			}
			res, err := nat.run([]Replay{s}, race, 60*time.Second)
			if err != nil {
				ev.note(err.Error())
				break
			}
			switch {
			case res[0] == "pass":
				ev.validated++
			case strings.HasPrefix(res[0], "violation "):
				msg := res[0][10:]
				if isKnown(knowns, prop, s.Harness, msg) {
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, sampleOf[k], msg)
					continue
				}
				path := writeReplay(prop, s, msg)
				fmt.Printf("%s: the compiled code fails where the encoding does not: %s\n", sampleOf[k], msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
				ev.violation(sampleOf[k], msg, path)
				code = 1
			default:
				ev.note("native run of a sampled path of " + sampleOf[k].String() + ": " + res[0])
			}
			if code != 0 {
				break
			}
		}
	}
	ev.write()
	buildDone.Wait()
	ev.print()
	return code
}

func isKnown(ks []known, prop, harness, msg string) bool {
	for _, k := range ks {
		if k.prop == prop && k.harness == harness && strings.Contains(msg, k.text) {
			return true
		}
	}
	return false
}

func runOne(p *Program, j Job, lim tierLimits, hard time.Time) *JobResult {
	opt := Options{Strict: j.Strict, Stub: map[string]string{}}
	if j.Hash != "" {
		opt.Stub["intHash"] = j.Hash
	}
	opt.QueryTmo = 60 * time.Second
	dl := time.Now().Add(lim.job)
	if j.Limit > 0 {
		dl = time.Now().Add(time.Duration(j.Limit) * time.Second)
	}
	if dl.After(hard) {
		dl = hard
	}
	if !time.Now().Before(dl) {
		return &JobResult{Harness: j.Harness, Params: j.Params, Status: "incomplete", Why: "not started: the check's time was used up"}
	}
	return runJob(p, j.Harness, j.Params, opt, dl)
}

// confirmViolation replays a counterexample against the compiled code.
func confirmViolation(nat *native, prop string, d done, race bool, ev *evidence) (string, string, bool) {
	r := Replay{d.job.Harness, d.job.Params, d.jr.Viol.Model}
	res, err := nat.run([]Replay{r}, race, 60*time.Second)
	if err != nil {
		ev.note("counterexample of " + d.job.String() + " could not be replayed: " + err.Error())
		return "", "", false
	}
	if !strings.HasPrefix(res[0], "violation ") && res[0] != "hang" {
		ev.note(fmt.Sprintf("counterexample of %s (%s: %s) did not reproduce natively (%s)", d.job, d.jr.Viol.Kind, d.jr.Viol.Msg, res[0]))
		return "", "", false
	}
	msg := strings.TrimPrefix(res[0], "violation ")
	path := writeReplay(prop, r, msg)
	ev.violation(d.job, msg, path)
	return msg, path, true
}

func writeReplay(prop string, r Replay, msg string) string {
	path := verifDir + "/evidence/" + prop + ".replay.json"
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": r.Harness, "params": r.Params, "vars": r.Vars,
		"what": msg, "run": "bash check.sh replay evidence/" + prop + ".replay.json"}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func replayMain(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Replay
		Property string `json:"property"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	_, ov, _, err := load()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	work, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(work)
	res, err := newNative(work, ov).run([]Replay{r.Replay}, r.Property == "C16", 60*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Println(res[0])
	if strings.HasPrefix(res[0], "violation") || res[0] == "hang" {
		return 1
	}
	return 0
}

// ---- evidence ----

type evidence struct {
	prop, tier string
	seed       int
	start      time.Time
	total      int
	unfinished int
	notes      []string
	done       []done
	viols      []map[string]any
	validated  int
}

func (e *evidence) note(s string) { e.notes = append(e.notes, s) }
func (e *evidence) add(d done)    { e.done = append(e.done, d) }
func (e *evidence) violation(j Job, msg, path string) {
	e.viols = append(e.viols, map[string]any{"job": j.String(), "what": msg, "replay": path})
}

func (e *evidence) write() {
	var paths, queries, sat, unsat, unknown, cached, confirmed, asserts, forks, merges, vars int
	var steps int64
	var solver, satt time.Duration
	ok := 0
	fns := map[string]int64{}
	var incomplete, vacuous []string
	var list []map[string]any
	reached := map[string]int{}
	for _, d := range e.done {
		r := d.jr
		paths += r.Paths
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unknown += r.Unknown
		cached += r.Cached
		confirmed += r.Confirmed
		asserts += r.AssertOK
		forks += r.Forks
		merges += r.Merges
		vars += r.Vars
		steps += r.Steps
		solver += r.Solver
		satt += r.SatTime
		for f, n := range r.Covered {
			if !strings.Contains(f, ".v") && !strings.Contains(f, ".H") || strings.Contains(f, ").") {
				fns[f] += n
			}
		}
		for l, n := range r.Reached {
			reached[l] += n
		}
		if r.Status == "ok" {
			ok++
			if len(r.Reached) == 0 || r.AssertOK == 0 && r.Harness != "HReadOnly" && r.Harness != "HReadOnlyLoaded" {
				vacuous = append(vacuous, d.job.String())
			}
		} else {
			incomplete = append(incomplete, d.job.String()+": "+r.Status+" "+r.Why)
		}
		if len(list) < 400 {
			list = append(list, map[string]any{"job": d.job.String(), "status": r.Status, "paths": r.Paths, "queries": r.Queries, "symbolic_inputs": r.Vars, "wall_s": round(r.Wall.Seconds())})
		}
	}
	var names []string
	for f := range fns {
		if strings.Contains(f, "deNULL/dawg") {
			names = append(names, strings.ReplaceAll(f, "github.com/deNULL/", ""))
		}
	}
	sort.Strings(names)
	level := "model_checking"
	var samples []any
	for i, d := range e.done {
		if d.jr.Sample != nil && len(samples) < 3 && (i%3 == 0 || len(e.done) < 6) {
			samples = append(samples, map[string]any{"job": d.job.String(), "assignment_of_one_path": d.jr.Sample})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"jobs": len(e.done)})
	}
	cov := map[string]any{
		"states": paths, "transitions": steps, "traces_validated_against_impl": e.validated, "samples": samples,
		"jobs": e.total, "jobs_decided": ok, "jobs_not_decided": incomplete, "jobs_not_run": e.unfinished, "vacuous_jobs": vacuous,
		"functions_encoded": names, "symbolic_inputs": vars, "assertions_discharged": asserts, "forks": forks, "merges": merges,
		"queries": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unknown, "queries_answered_from_cache": cached,
		"unsat_confirmed_by_z3": confirmed, "solver_s": round(solver.Seconds()), "sat_front_end_s": round(satt.Seconds()),
		"reachability": reached, "bounds": boundsText[e.prop], "notes": e.notes, "job_list": list,
		"explanation": "states = complete symbolic paths (each stands for all inputs satisfying its path condition), transitions = SSA instructions executed symbolically",
	}
	if len(e.viols) > 0 {
		cov["violations"] = e.viols
	}
	b, _ := json.MarshalIndent(map[string]any{"property": e.prop, "tier": e.tier, "seed": e.seed, "level": level,
		"coverage": cov, "wall_s": round(time.Since(e.start).Seconds())}, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", e.prop+".json"), append(b, '\n'), 0o644)
}

func (e *evidence) print() {
	ok := 0
	for _, d := range e.done {
		if d.jr.Status == "ok" {
			ok++
		}
	}
	fmt.Printf("%s %s: %d of %d jobs decided, %d native validations, %.0f s\n", e.prop, e.tier, ok, e.total, e.validated, time.Since(e.start).Seconds())
	for _, n := range e.notes {
		fmt.Println("note:", n)
	}
	for _, d := range e.done {
		if d.jr.Status == "incomplete" {
			fmt.Println("not decided:", d.job, "-", d.jr.Why)
		}
	}
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
