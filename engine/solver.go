package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Model is an assignment of the variables; evaluation is memoised.
type Model struct {
	vals map[*Term]uint64
	ufs  map[string]uint64
	memo map[*Term]uint64
}

func newModel() *Model {
	return &Model{vals: map[*Term]uint64{}, ufs: map[string]uint64{}, memo: map[*Term]uint64{}}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Eval evaluates t under m (variables without a value take their minimum).
func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if v, ok := m.vals[t]; ok {
			return v
		}
		return t.mn
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var r uint64
	w := t.w
	switch t.op {
	case OIte:
		if m.Eval(t.a) != 0 {
			r = m.Eval(t.b)
		} else {
			r = m.Eval(t.c)
		}
	case OSelect:
		r = m.evalArr(t.arr, int(m.Eval(t.a)))
	case OBAnd:
		r = b2u(m.Eval(t.a) != 0 && m.Eval(t.b) != 0)
	case OBOr:
		r = b2u(m.Eval(t.a) != 0 || m.Eval(t.b) != 0)
	case OUF:
		k := t.name + "/" + fmt.Sprint(m.Eval(t.a))
		if t.b != nil {
			k += "/" + fmt.Sprint(m.Eval(t.b))
		}
		v, ok := m.ufs[k]
		if !ok {
			m.ufs[k] = 0
		}
		r = v
	default:
		a := m.Eval(t.a)
		var b uint64
		if t.b != nil {
			b = m.Eval(t.b)
		}
		switch t.op {
		case OAdd:
			r = a + b
		case OSub:
			r = a - b
		case OMul:
			r = a * b
		case OUDiv:
			if b == 0 {
				r = mask(w)
			} else {
				r = a / b
			}
		case OURem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OSDiv:
			x, y := sx(a, w), sx(b, w)
			if y == 0 {
				r = 1
				if x >= 0 {
					r = mask(w)
				}
			} else if y == -1 {
				r = uint64(-x)
			} else {
				r = uint64(x / y)
			}
		case OSRem:
			x, y := sx(a, w), sx(b, w)
			if y == 0 {
				r = a
			} else if y == -1 {
				r = 0
			} else {
				r = uint64(x % y)
			}
		case OAnd:
			r = a & b
		case OOr:
			r = a | b
		case OXor:
			r = a ^ b
		case ONot:
			r = ^a
		case ONeg:
			r = -a
		case OShl:
			if b < uint64(w) {
				r = a << b
			}
		case OLshr:
			if b < uint64(w) {
				r = a >> b
			}
		case OAshr:
			if b >= uint64(w) {
				b = uint64(w - 1)
			}
			r = uint64(sx(a, w) >> b)
		case OConcat:
			r = a<<uint(t.b.w) | b
		case OExtract:
			r = a >> uint(t.val&255)
		case OZExt:
			r = a
		case OSExt:
			r = uint64(sx(a, t.a.w))
		case OBNot:
			r = 1 - a
		case OEq:
			r = b2u(a == b)
		case OUlt:
			r = b2u(a < b)
		case OUle:
			r = b2u(a <= b)
		case OSlt:
			r = b2u(sx(a, t.a.w) < sx(b, t.a.w))
		case OSle:
			r = b2u(sx(a, t.a.w) <= sx(b, t.a.w))
		default:
			panic("eval op")
		}
	}
	if w > 0 {
		r &= mask(w)
	}
	m.memo[t] = r
	return r
}

func (m *Model) evalArr(v *ArrVer, i int) uint64 {
	for {
		if v.pure {
			if i >= v.n {
				return 0
			}
			return m.Eval(v.baseAt(i))
		}
		if v.kind == 1 {
			if int(m.Eval(v.idx)) == i {
				return m.Eval(v.val)
			}
			v = v.prev
			continue
		}
		if m.Eval(v.cond) != 0 {
			v = v.a
		} else {
			v = v.b
		}
	}
}

// ---- variable support ----

type varset map[*Term]struct{}

// support returns the variables (and uninterpreted symbols) of t, after
// expanding array reads.
func (s *Solver) support(t *Term) varset {
	if v, ok := s.sup[t]; ok {
		return v
	}
	var r varset
	switch t.op {
	case OConst:
		r = nil
	case OVar:
		r = varset{t: {}}
	case OSelect:
		r = s.support(s.c.lowerSelect(t))
	default:
		var parts []varset
		for _, k := range []*Term{t.a, t.b, t.c} {
			if k != nil {
				if v := s.support(k); len(v) > 0 {
					parts = append(parts, v)
				}
			}
		}
		if t.op == OUF {
			parts = append(parts, varset{s.ufTok(t.name): {}})
		}
		switch len(parts) {
		case 0:
		case 1:
			r = parts[0]
		default:
			// share when one contains the others
			big := parts[0]
			for _, p := range parts[1:] {
				if len(p) > len(big) {
					big = p
				}
			}
			same := true
		outer:
			for _, p := range parts {
				for k := range p {
					if _, ok := big[k]; !ok {
						same = false
						break outer
					}
				}
			}
			if same {
				r = big
			} else {
				r = varset{}
				for _, p := range parts {
					for k := range p {
						r[k] = struct{}{}
					}
				}
			}
		}
	}
	s.sup[t] = r
	return r
}

func (s *Solver) ufTok(name string) *Term {
	if t, ok := s.uftoks[name]; ok {
		return t
	}
	t := &Term{op: OVar, name: "uf:" + name}
	s.uftoks[name] = t
	return t
}

// ---- solver process ----

type Solver struct {
	c      *Ctx
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	defd   map[*Term]string
	ndefs  int
	sup    map[*Term]varset
	uftoks map[string]*Term
	buf    strings.Builder

	Queries     int
	Sat         int
	Unsat       int
	Unknown     int
	Cached      int
	Errors      int
	Time        time.Duration
	MaxTime     time.Duration
	timeout     time.Duration
	deadline    time.Time
	cache       map[string]cacheEnt
	bin         string
	log         io.Writer
	slow        time.Duration
	bl          *blaster
	sat         *sat
	lastCone    int
	noSat       bool // use the SMT solver only
	final       bool // the next query is a property assertion
	nUnsat      int
	SatTime     time.Duration
	Internal    int // unsatisfiable answers taken from the in-process solver
	Confirmed   int // unsatisfiable answers re-decided by the SMT solver
	Mismatch    int
	Unconfirmed int
	pend        [][]*Term
	pendSize    int
}

const pendMax = 128

type cacheEnt struct {
	res int
	m   *Model
}

const (
	resUnsat   = 0
	resSat     = 1
	resUnknown = 2
)

func NewSolver(c *Ctx, timeout time.Duration, deadline time.Time) *Solver {
	s := &Solver{c: c, sup: map[*Term]varset{}, uftoks: map[string]*Term{}, timeout: timeout,
		deadline: deadline, cache: map[string]cacheEnt{}, bin: solverBin()}
	if f := os.Getenv("VERIF_SMTLOG"); f != "" {
		if w, err := os.Create(f); err == nil {
			s.log = w
		}
	}
	return s
}

func solverBin() string {
	if b := os.Getenv("VERIF_SOLVER"); b != "" {
		return b
	}
	for _, b := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(b); err == nil {
			return p
		}
	}
	return "z3"
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-memory:3500")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.defd = map[*Term]string{}
	s.ndefs = 0
	io.WriteString(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(v uint64, w int) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite", OBNot: "not",
	OBAnd: "and", OBOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// ref makes sure t is defined in the solver and returns its name.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t.val, t.w)
	}
	if n, ok := s.defd[t]; ok {
		return n
	}
	if t.op == OVar {
		n := "|" + t.name + "|"
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", n, sortName(t.w))
		s.defd[t] = n
		return n
	}
	if t.op == OSelect {
		n := s.ref(s.c.lowerSelect(t))
		s.defd[t] = n
		return n
	}
	// iterative deepening is not needed: depth is bounded by Go's growable stack
	var a, b, d string
	if t.a != nil {
		a = s.ref(t.a)
	}
	if t.b != nil {
		b = s.ref(t.b)
	}
	if t.c != nil {
		d = s.ref(t.c)
	}
	if t.op == OUF {
		// applications become constants; query adds functional consistency
		n := fmt.Sprintf("|%s!%d|", t.name, t.id)
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", n, sortName(t.w))
		s.defd[t] = n
		return n
	}
	n := fmt.Sprintf("t%d", t.id)
	var e string
	switch t.op {
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&255, a)
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	default:
		e = "(" + opNames[t.op] + " " + a
		if t.b != nil {
			e += " " + b
		}
		if t.c != nil {
			e += " " + d
		}
		e += ")"
	}
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, sortName(t.w), e)
	s.defd[t] = n
	s.ndefs++
	return n
}

// collect variables and UF applications below the given terms
func (s *Solver) collect(lits []*Term) (vars []*Term, ufs []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar:
			vars = append(vars, t)
			return
		case OSelect:
			rec(s.c.lowerSelect(t))
			return
		case OUF:
			ufs = append(ufs, t)
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
	}
	for _, l := range lits {
		rec(l)
	}
	return
}

// slice keeps the literals connected to goal through shared variables.
func (s *Solver) slice(lits []*Term, goal *Term) []*Term {
	if goal == nil {
		return lits
	}
	cur := varset{}
	for v := range s.support(goal) {
		cur[v] = struct{}{}
	}
	used := make([]bool, len(lits))
	out := []*Term{}
	for {
		changed := false
		for i, l := range lits {
			if used[i] {
				continue
			}
			sp := s.support(l)
			hit := false
			for v := range sp {
				if _, ok := cur[v]; ok {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, l)
				for v := range sp {
					cur[v] = struct{}{}
				}
			}
		}
		if !changed {
			return out
		}
	}
}

// Check decides the conjunction of lits and goal. When pcSat is true the
// conjunction of lits alone is known to be satisfiable and unrelated literals
// are left out of the query. The model covers the variables of the query only.
func (s *Solver) Check(lits []*Term, goal *Term, pcSat bool) (int, *Model) {
	if goal != nil {
		if goal.isFalse() {
			return resUnsat, nil
		}
	}
	q := lits
	if pcSat && goal != nil {
		q = s.slice(lits, goal)
	}
	all := append([]*Term{}, q...)
	if goal != nil && !goal.isTrue() {
		all = append(all, goal)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	var kb strings.Builder
	last := -1
	for _, t := range all {
		if t.isFalse() {
			return resUnsat, nil
		}
		if t.id != last && !t.isTrue() {
			fmt.Fprintf(&kb, "%d ", t.id)
		}
		last = t.id
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Cached++
		return e.res, e.m
	}
	res, m := s.query(all)
	s.cache[key] = cacheEnt{res, m}
	return res, m
}

// query decides a conjunction. The in-process solver answers first; what it
// cannot decide quickly, every property assertion it finds unsatisfiable and
// one in crossEvery of its other unsatisfiable answers go to the SMT solver.
func (s *Solver) query(all []*Term) (int, *Model) {
	if s.noSat {
		return s.smt(all, nil)
	}
	t0 := time.Now()
	if s.bl == nil {
		s.bl = newBlaster(s.c)
	}
	if s.sat == nil || s.sat.nclauses > 100000 && s.sat.nclauses > 20*s.lastCone {
		s.sat = newSat(s.bl.g)
	}
	var as []lit
	for _, t := range all {
		as = append(as, s.bl.bits(t)[0])
	}
	vars, ufs := s.collect(all)
	for _, v := range vars {
		if c, ok := s.bl.rngv[v]; ok {
			as = append(as, c)
		}
		s.bl.bits(v)
	}
	for i, u := range ufs {
		for j := 0; j < i; j++ {
			v := ufs[j]
			if u.name != v.name {
				continue
			}
			eq := s.c.Eq(u.a, v.a)
			if u.b != nil {
				eq = s.c.BAnd(eq, s.c.Eq(u.b, v.b))
			}
			if !eq.isFalse() {
				as = append(as, s.bl.g.Or(s.bl.bits(eq)[0]^1, s.bl.eq(s.bl.bits(u), s.bl.bits(v))))
			}
		}
	}
	res := -1
	k := 0
	for _, l := range as {
		if l == litFalse {
			res = 0
		}
		if l != litTrue {
			as[k] = l
			k++
		}
	}
	as = as[:k]
	if res != 0 {
		res = s.sat.solve(as, 30000)
	}
	s.lastCone = s.sat.ncone
	d := time.Since(t0)
	s.SatTime += d
	switch res {
	case 1:
		m := newModel()
		get := func(ls []lit) uint64 {
			var v uint64
			for i, l := range ls {
				if l == litTrue || int(l) < len(s.sat.model) && s.sat.model[l] == 1 {
					v |= 1 << uint(i)
				}
			}
			return v
		}
		for _, v := range vars {
			m.vals[v] = get(s.bl.bits(v))
		}
		// arguments before applications
		sort.Slice(ufs, func(i, j int) bool { return ufs[i].id < ufs[j].id })
		for _, u := range ufs {
			k := u.name + "/" + fmt.Sprint(m.Eval(u.a))
			if u.b != nil {
				k += "/" + fmt.Sprint(m.Eval(u.b))
			}
			if _, ok := m.ufs[k]; !ok {
				m.ufs[k] = get(s.bl.bits(u))
			}
			m.memo = map[*Term]uint64{}
		}
		for _, t := range all {
			if m.Eval(t) == 0 {
				s.Mismatch++
				return s.smt(all, nil)
			}
		}
		s.Queries++
		s.Sat++
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
		return resSat, m
	case 0:
		s.nUnsat++
		if s.final || s.nUnsat%crossEvery == 0 {
			s.pend = append(s.pend, all)
			s.pendSize += len(all)
			if len(s.pend) >= pendMax {
				s.Flush()
			}
		}
		s.Queries++
		s.Unsat++
		s.Internal++
		s.Time += d
		return resUnsat, nil
	}
	return s.smt(all, nil)
}

const crossEvery = 1

// Flush has the SMT solver re-decide the unsatisfiable answers of the
// in-process solver that are pending: their disjunction has to be unsatisfiable.
func (s *Solver) Flush() {
	gs := s.pend
	s.pend, s.pendSize = nil, 0
	s.confirm(gs)
}

func (s *Solver) confirm(gs [][]*Term) {
	if len(gs) == 0 {
		return
	}
	var r int
	if len(gs) == 1 {
		r, _ = s.smt(gs[0], nil)
	} else {
		r, _ = s.smt(nil, gs)
	}
	switch {
	case r == resUnsat:
		s.Confirmed += len(gs)
	case len(gs) > 1 && time.Until(s.deadline) > time.Second:
		n := len(gs) / 2
		s.confirm(gs[:n])
		s.confirm(gs[n:])
	case r == resSat:
		s.Mismatch++
	default:
		s.Unconfirmed += len(gs)
	}
}

// smt decides the conjunction of all and of the disjunction of groups, each
// group a conjunction.
func (s *Solver) smt(all []*Term, groups [][]*Term) (int, *Model) {
	top := all
	for _, g := range groups {
		all = append(all[:len(all):len(all)], g...)
	}
	if s.cmd == nil || s.ndefs > 400000 {
		s.Close()
		if err := s.start(); err != nil {
			s.Errors++
			return resUnknown, nil
		}
	}
	t0 := time.Now()
	s.Queries++
	tmo := s.timeout
	if !s.deadline.IsZero() {
		if left := time.Until(s.deadline); left < tmo {
			tmo = left
		}
	}
	if tmo < 10*time.Millisecond {
		s.Unknown++
		return resUnknown, nil
	}
	vars, ufs := s.collect(all)
	s.buf.Reset()
	var names []string
	for _, t := range top {
		names = append(names, s.ref(t))
	}
	if len(groups) > 0 {
		var or strings.Builder
		or.WriteString("(or")
		for _, g := range groups {
			or.WriteString(" (and true")
			for _, t := range g {
				or.WriteString(" " + s.ref(t))
			}
			or.WriteString(")")
		}
		or.WriteString(")")
		names = append(names, or.String())
	}
	var vnames []string
	for _, v := range vars {
		vnames = append(vnames, s.ref(v))
	}
	var ufnames []string
	var ackEq [][3]string
	for _, u := range ufs {
		ufnames = append(ufnames, s.ref(u))
	}
	for i, u := range ufs {
		for j := 0; j < i; j++ {
			v := ufs[j]
			if u.name != v.name {
				continue
			}
			eq := s.c.Eq(u.a, v.a)
			if u.b != nil {
				eq = s.c.BAnd(eq, s.c.Eq(u.b, v.b))
			}
			if !eq.isFalse() {
				ackEq = append(ackEq, [3]string{s.ref(eq), ufnames[i], ufnames[j]})
			}
		}
	}
	s.buf.WriteString("(push)\n")
	for _, a := range ackEq {
		fmt.Fprintf(&s.buf, "(assert (=> %s (= %s %s)))\n", a[0], a[1], a[2])
	}
	for i, v := range vars {
		if v.w > 0 {
			if v.mn > 0 {
				fmt.Fprintf(&s.buf, "(assert (bvule %s %s))\n", constStr(v.mn, v.w), vnames[i])
			}
			if v.mx < mask(v.w) {
				fmt.Fprintf(&s.buf, "(assert (bvule %s %s))\n", vnames[i], constStr(v.mx, v.w))
			}
		}
	}
	for _, n := range names {
		fmt.Fprintf(&s.buf, "(assert %s)\n", n)
	}
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", tmo.Milliseconds())
	s.buf.WriteString("(check-sat-using qfbv)\n(echo \"done\")\n")
	text := s.buf.String()
	if s.log != nil {
		io.WriteString(s.log, text)
	}
	if s.log != nil {
		io.WriteString(s.log, "(pop)\n")
	}
	ans, ok := s.roundtrip(text, tmo+10*time.Second)
	res := resUnknown
	var m *Model
	if ok {
		for _, l := range ans {
			switch {
			case strings.HasPrefix(l, "(error"):
				res = resUnknown
				s.Errors++
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "solver:", l)
				}
			case l == "sat":
				res = resSat
			case l == "unsat":
				res = resUnsat
			}
		}
		for _, l := range ans {
			if strings.HasPrefix(l, "(error") {
				res = resUnknown
			}
		}
		if res == resSat {
			m = newModel()
			q := append(append([]string{}, vnames...), ufnames...)
			if len(q) > 0 {
				ans, ok = s.roundtrip("(get-value ("+strings.Join(q, " ")+"))\n(pop)\n(echo \"done\")\n", 60*time.Second)
				vs := parseValues(strings.Join(ans, " "))
				if !ok || len(vs) != len(q) {
					res, m = resUnknown, nil
					s.Errors++
					s.Close()
				} else {
					for i, v := range vars {
						m.vals[v] = vs[i]
					}
					for i, u := range ufs {
						k := u.name + "/" + fmt.Sprint(m.Eval(u.a))
						if u.b != nil {
							k += "/" + fmt.Sprint(m.Eval(u.b))
						}
						m.ufs[k] = vs[len(vars)+i]
					}
					m.memo = map[*Term]uint64{}
				}
			} else {
				s.roundtrip("(pop)\n(echo \"done\")\n", 20*time.Second)
			}
		} else {
			s.roundtrip("(pop)\n(echo \"done\")\n", 20*time.Second)
		}
	} else {
		s.Close()
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	switch res {
	case resSat:
		s.Sat++
	case resUnsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	return res, m
}

func (s *Solver) roundtrip(text string, tmo time.Duration) ([]string, bool) {
	type rr struct {
		lines []string
		ok    bool
	}
	ch := make(chan rr, 1)
	in, out := s.in, s.out
	go func() {
		if _, err := io.WriteString(in, text); err != nil {
			ch <- rr{nil, false}
			return
		}
		var lines []string
		for {
			l, err := out.ReadString('\n')
			if err != nil {
				ch <- rr{lines, false}
				return
			}
			l = strings.TrimSpace(l)
			if l == "done" {
				ch <- rr{lines, true}
				return
			}
			lines = append(lines, l)
		}
	}()
	select {
	case r := <-ch:
		return r.lines, r.ok
	case <-time.After(tmo):
		return nil, false
	}
}

// parseValues reads the answer of get-value in order.
func parseValues(s string) []uint64 {
	var out []uint64
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			i += j + 1
		case strings.HasPrefix(s[i:], "#x"), strings.HasPrefix(s[i:], "#b"):
			base := uint64(16)
			if s[i+1] == 'b' {
				base = 2
			}
			j := i + 2
			var v uint64
			for j < len(s) && s[j] != ')' && s[j] != ' ' {
				c := s[j]
				var d uint64
				switch {
				case c >= '0' && c <= '9':
					d = uint64(c - '0')
				case c >= 'a' && c <= 'f':
					d = uint64(c-'a') + 10
				}
				v = v*base + d
				j++
			}
			out = append(out, v)
			i = j - 1
		case strings.HasPrefix(s[i:], "true)"):
			out = append(out, 1)
			i += 3
		case strings.HasPrefix(s[i:], "false)"):
			out = append(out, 0)
			i += 4
		}
	}
	return out
}
