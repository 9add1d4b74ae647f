package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	Strict     int               // do not merge states whose live integer registers hold different constants
	StrictFns  map[string]bool   // per function name (short), overrides Strict=false
	LooseFns   map[string]bool   // overrides Strict=true
	Stub       map[string]string // function short name -> "uf" | "const"
	MaxSteps   int64
	MaxStates  int
	Enum       int // limit for solver enumeration when concretising
	ForkIndex  int // fork on ite-of-constants indexes with at most that many leaves
	QueryTmo   time.Duration
	NoMergeRet map[string]bool // never merge the results of these functions
}

type frameRec struct {
	fi   *fnInfo
	regs []Value
	blk  int
	ip   int
}

type Violation struct {
	Msg   string
	Kind  string // assert, panic, exit, nonterm, frozen
	Model map[string]uint64
	Pos   string
}

type Exec struct {
	intrCache map[*ssa.Function]intrinsic
	c         *Ctx
	s         *Solver
	prog      *ssa.Program
	opt       Options
	params    []int
	deadline  time.Time
	fns       map[*ssa.Function]*fnInfo
	leafCache map[types.Type]leafInfo
	bytes     [256]*Term
	nextObj   int
	initID    int
	initHeap  PVec[*Obj]
	globals   map[*ssa.Global]int
	inited    map[*ssa.Package]bool
	consts    map[*ssa.Const]Value
	frames    []frameRec
	intr      map[string]intrinsic
	frozen    map[int]string

	steps     int64
	merges    int
	mergeFail int
	forks     int
	maxLive   int
	asserts   int
	assertOK  int
	unknowns  []string
	reached   map[string]int
	covered   map[string]int64
	viol      *Violation
	panicsOK  int // >0: inside vPanics
	debug     bool
	failWhy   map[string]int
	depth     int
	forkAt    map[string]int
	paths     int
	initing   bool
	frozenOn  bool
	files     map[string]int
	pools     map[string]int
	flags     map[string]flagDef
	capture   bool
	fileLimit *Term
	cliArgs   []string
	cliPos    []string
	lastSt    *State // for a replay when the time runs out
}

type abort struct{ why string }
type stopJob struct{}

func (x *Exec) unsup(f string, a ...interface{}) {
	where := ""
	if n := len(x.frames); n > 0 {
		where = " in " + x.frames[n-1].fi.name
	}
	panic(abort{fmt.Sprintf(f, a...) + where})
}

type Outcome struct {
	st    *State
	regs  []Value
	ret   Value
	panic *Panic
	kind  int // 0 reached stop, 1 returned, 2 panic
	reach map[int]bool
}

// ---- path condition helpers ----

func (p *PC) buildKnown() map[*Term]*Term {
	if p.known != nil {
		return p.known
	}
	m := map[*Term]*Term{}
	var add func(c *Ctx, t *Term, v bool)
	add = func(c *Ctx, t *Term, v bool) {
		switch {
		case t.op == OBNot:
			add(c, t.a, !v)
			return
		case t.op == OBAnd && v:
			add(c, t.a, true)
			add(c, t.b, true)
		case t.op == OBOr && !v:
			add(c, t.a, false)
			add(c, t.b, false)
		case t.op == OEq && v && t.b.isConst():
			m[t.a] = t.b
		}
		m[t] = c.Bool(v)
	}
	for q := p; q != nil; q = q.prev {
		add(curCtx, q.lit, true)
	}
	p.known = m
	p.memo = map[*Term]*Term{}
	return m
}

// simp rewrites t using the literals of the path condition.
func (x *Exec) simp(st *State, t *Term) *Term {
	if t.isConst() || st.pc == nil {
		return t
	}
	curCtx = x.c
	known := st.pc.buildKnown()
	n := 0
	r := x.simpRec(t, known, st.pc.memo, &n)
	return r
}

var curCtx *Ctx

func (x *Exec) simpRec(t *Term, known, memo map[*Term]*Term, n *int) *Term {
	if t.op == OConst {
		return t
	}
	if k, ok := known[t]; ok {
		return k
	}
	if t.op == OBNot {
		if k, ok := known[t.a]; ok {
			return x.c.BNot(k)
		}
	}
	if t.a == nil {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	*n++
	if *n > 400 {
		return t
	}
	var a, b, d *Term
	a = x.simpRec(t.a, known, memo, n)
	if t.op == OIte && a.isConst() {
		var r *Term
		if a.isTrue() {
			r = x.simpRec(t.b, known, memo, n)
		} else {
			r = x.simpRec(t.c, known, memo, n)
		}
		memo[t] = r
		return r
	}
	if t.b != nil {
		b = x.simpRec(t.b, known, memo, n)
	}
	if t.c != nil {
		d = x.simpRec(t.c, known, memo, n)
	}
	r := t
	if a != t.a || b != t.b || d != t.c {
		r = x.c.rebuild(t, a, b, d)
		if k, ok := known[r]; ok {
			r = k
		}
	}
	if *n <= 400 {
		memo[t] = r
	}
	return r
}

func (x *Exec) overlay(old, m *Model) *Model {
	if old == nil {
		return m
	}
	n := newModel()
	for k, v := range old.vals {
		n.vals[k] = v
	}
	for k, v := range m.vals {
		n.vals[k] = v
	}
	for k, v := range old.ufs {
		n.ufs[k] = v
	}
	for k, v := range m.ufs {
		n.ufs[k] = v
	}
	return n
}

func (x *Exec) satisfies(st *State, m *Model) bool {
	for p := st.pc; p != nil; p = p.prev {
		if m.Eval(p.lit) == 0 {
			return false
		}
	}
	return true
}

// check decides whether pc && t is satisfiable; on sat the model satisfies both.
func (x *Exec) check(st *State, t *Term) (int, *Model) {
	if t.isFalse() {
		return resUnsat, nil
	}
	x.checkTime()
	if st.wit != nil && st.wit.Eval(t) != 0 {
		return resSat, st.wit
	}
	lits := st.lits()
	t0 := time.Now()
	res, m := x.s.Check(lits, t, st.wit != nil)
	if d := time.Since(t0); x.debug && d > 50*time.Millisecond {
		w := ""
		for k := len(x.frames) - 1; k >= 0 && k >= len(x.frames)-4; k-- {
			f := x.frames[k]
			w += fmt.Sprintf(" %s:%d.%d", f.fi.fn.Name(), f.blk, f.ip)
			if f.blk < len(f.fi.fn.Blocks) && f.ip < len(f.fi.fn.Blocks[f.blk].Instrs) {
				w += "@" + x.pos(f.fi.fn.Blocks[f.blk].Instrs[f.ip])
			}
		}
		dbg("slow query %.1fs res=%d lits=%d: %s", d.Seconds(), res, len(lits), w)
	}
	if res == resSat {
		if st.wit != nil {
			m = x.overlay(st.wit, m)
			if m.Eval(t) == 0 || !x.satisfies(st, m) {
				// should not happen: fall back to a full query
				res, m = x.s.Check(lits, t, false)
			}
		}
		if res == resSat && (m.Eval(t) == 0 || !x.satisfies(st, m)) {
			x.unknowns = append(x.unknowns, "model does not satisfy query (internal)")
			return resUnknown, nil
		}
	}
	return res, m
}

func (x *Exec) checkTime() {
	if !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(abort{"time limit"})
	}
}

// feasible: can the state take cond / not cond.
func (x *Exec) split(st *State, cond *Term) (t, f *State) {
	nc := x.c.BNot(cond)
	mk := func(l *Term) *State {
		res, m := x.check(st, l)
		if res == resUnsat {
			return nil
		}
		n := st.clone()
		n.assume(l)
		n.wit = m
		return n
	}
	t = mk(cond)
	if t == nil && st.wit != nil {
		// pc is satisfiable, so the other side is
		n := st.clone()
		n.learn(nc)
		return nil, n
	}
	f = mk(nc)
	if f == nil && t != nil && st.wit != nil {
		n := st.clone()
		n.learn(cond)
		n.wit = t.wit
		return n, nil
	}
	return
}

// ---- concretisation ----

func iteLeaves(t *Term, lim int, out map[*Term]bool) bool {
	switch {
	case t.isConst():
		out[t] = true
		return len(out) <= lim
	case t.op == OIte:
		return iteLeaves(t.b, lim, out) && iteLeaves(t.c, lim, out)
	case t.op == OZExt:
		return false
	}
	return false
}

// concretise forks the state over the possible values of t.
func (x *Exec) concretise(st *State, t *Term) []Res { return x.concretiseN(st, t, x.opt.Enum) }

func (x *Exec) concretiseN(st *State, t *Term, lim int) []Res {
	t = x.simp(st, t)
	if t.isConst() {
		return []Res{{st: st, v: t}}
	}
	var out []Res
	cur := st
	for k := 0; ; k++ {
		if k > lim {
			x.unsup("more than %d values when concretising", lim)
		}
		var m *Model
		if cur.wit != nil {
			m = cur.wit
		} else {
			var res int
			res, m = x.check(cur, x.c.True)
			if res == resUnsat {
				break
			}
			if res == resUnknown {
				x.unsup("solver gave no answer when concretising")
			}
			cur = cur.clone()
			cur.wit = m
		}
		v := x.c.Const(m.Eval(t), t.w)
		eq := x.c.Eq(t, v)
		n := cur.clone()
		n.assume(eq)
		n.wit = m
		out = append(out, Res{st: n, v: v})
		// the rest
		ne := x.c.BNot(eq)
		res, m2 := x.check(cur, ne)
		if res == resUnsat {
			break
		}
		cur = cur.clone()
		cur.assume(ne)
		cur.wit = m2
		if res == resUnknown {
			x.unsup("solver gave no answer when concretising")
		}
	}
	if len(out) > 1 {
		x.forks++
		x.noteFork("concretise")
	}
	return out
}

func (x *Exec) noteFork(what string) {
	if x.debug {
		w := what
		if n := len(x.frames); n > 0 {
			f := x.frames[n-1]
			w += " " + f.fi.name
		}
		x.forkAt[w]++
	}
}

// ---- merging ----

func (x *Exec) mergeVal(cond *Term, a, b Value, strict int) (Value, bool) {
	switch va := a.(type) {
	case *Term:
		vb, ok := b.(*Term)
		if !ok || va.w != vb.w {
			return nil, false
		}
		if va == vb {
			return va, true
		}
		if va.w > 0 && (strict >= 2 || strict == 1 && va.isConst() && vb.isConst()) {
			return nil, false
		}
		return x.c.Ite(cond, va, vb), true
	case SliceV:
		vb, ok := b.(SliceV)
		return va, ok && va == vb
	case PtrV:
		vb, ok := b.(PtrV)
		if !ok || va.obj != vb.obj || va.path != vb.path || (va.idx == nil) != (vb.idx == nil) {
			return nil, false
		}
		if va.idx == vb.idx {
			return va, true
		}
		if strict >= 2 || strict == 1 && va.idx.isConst() && vb.idx.isConst() {
			return nil, false
		}
		va.idx = x.c.Ite(cond, va.idx, vb.idx)
		return va, true
	case *StrV:
		vb, ok := b.(*StrV)
		if !ok || len(va.e) != len(vb.e) {
			return nil, false
		}
		if va == vb {
			return va, true
		}
		n := &StrV{e: make([]StrElem, len(va.e))}
		for i := range va.e {
			p, q := va.e[i], vb.e[i]
			if (p.r == nil) != (q.r == nil) {
				return nil, false
			}
			if strict >= 2 && (p.r != nil && p.r != q.r && p.r.isConst() && q.r.isConst() || p.r == nil && p.b != q.b && p.b.isConst() && q.b.isConst()) {
				return nil, false
			}
			if p.r != nil {
				n.e[i].r = x.c.Ite(cond, p.r, q.r)
			} else {
				n.e[i].b = x.c.Ite(cond, p.b, q.b)
			}
		}
		return n, true
	case *StructV:
		vb, ok := b.(*StructV)
		if !ok || len(va.f) != len(vb.f) {
			return nil, false
		}
		if va == vb {
			return va, true
		}
		n := &StructV{f: make([]Value, len(va.f))}
		for i := range va.f {
			if n.f[i], ok = x.mergeVal(cond, va.f[i], vb.f[i], hs(strict)); !ok {
				return nil, false
			}
		}
		return n, true
	case *ArrV:
		vb, ok := b.(*ArrV)
		if !ok || len(va.e) != len(vb.e) {
			return nil, false
		}
		if va == vb {
			return va, true
		}
		n := &ArrV{e: make([]Value, len(va.e))}
		for i := range va.e {
			if n.e[i], ok = x.mergeVal(cond, va.e[i], vb.e[i], hs(strict)); !ok {
				return nil, false
			}
		}
		return n, true
	case IfaceV:
		vb, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if va.t == nil && vb.t == nil {
			return va, true
		}
		if va.t == nil || vb.t == nil || !types.Identical(va.t, vb.t) {
			return nil, false
		}
		v, ok := x.mergeVal(cond, va.v, vb.v, strict)
		return IfaceV{va.t, v}, ok
	case *FuncV:
		vb, ok := b.(*FuncV)
		if !ok {
			return nil, false
		}
		if va == vb {
			return va, true
		}
		if va == nil || vb == nil || va.fn == nil || va.fn != vb.fn || len(va.binds) != len(vb.binds) {
			return nil, false
		}
		n := &FuncV{fn: va.fn}
		for i := range va.binds {
			v, ok := x.mergeVal(cond, va.binds[i], vb.binds[i], strict)
			if !ok {
				return nil, false
			}
			n.binds = append(n.binds, v)
		}
		return n, true
	case MapV:
		vb, ok := b.(MapV)
		return va, ok && va == vb
	case TupleV:
		vb, ok := b.(TupleV)
		if !ok || len(va) != len(vb) {
			return nil, false
		}
		n := make(TupleV, len(va))
		for i := range va {
			if n[i], ok = x.mergeVal(cond, va[i], vb[i], strict); !ok {
				return nil, false
			}
		}
		return n, true
	case Float:
		vb, ok := b.(Float)
		if ok && va != vb {
			return Float(math.NaN()), true
		}
		return va, ok
	case *IterV:
		vb, ok := b.(*IterV)
		return va, ok && va == vb
	case nil:
		return nil, b == nil
	case deferList:
		vb, ok := b.(deferList)
		return va, ok && len(va) == len(vb) && (len(va) == 0 || &va[0] == &vb[0])
	}
	return nil, false
}

// hs is the strictness for values inside heap objects.
func hs(strict int) int {
	if strict >= 2 {
		return 2
	}
	return 0
}

func (x *Exec) mergeObj(cond *Term, a, b *Obj, strict int) (*Obj, bool) {
	if a == b {
		return a, true
	}
	if a.kind != b.kind || a.n != b.n {
		return nil, false
	}
	switch a.kind {
	case 0:
		v, ok := x.mergeVal(cond, a.val, b.val, hs(strict))
		if !ok {
			return nil, false
		}
		return &Obj{kind: 0, typ: a.typ, val: v}, true
	case 1:
		n := &Obj{kind: 1, typ: a.typ, n: a.n, cols: make([]*ArrVer, len(a.cols))}
		for i := range a.cols {
			if strict >= 3 && a.cols[i] != b.cols[i] {
				return nil, false
			}
			n.cols[i] = x.c.MergeArr(cond, a.cols[i], b.cols[i])
		}
		return n, true
	case 2:
		ok := true
		n := *a
		pdiff(a.elems, b.elems, func(i int, p, q Value2) {
			if !ok {
				return
			}
			var vp, vq Value
			if p != nil {
				vp = p.v
			} else {
				vp = x.zero(a.typ)
			}
			if q != nil {
				vq = q.v
			} else {
				vq = x.zero(a.typ)
			}
			v, o := x.mergeVal(cond, vp, vq, hs(strict))
			if !o {
				ok = false
				return
			}
			n.elems = n.elems.Set(i, &vbox{v})
		})
		return &n, ok
	case 5:
		n := *a
		pdiff(a.elems, b.elems, func(i int, p, q Value2) {
			n.elems = n.elems.Set(i, &vbox{x.c.Ite(cond, p.v.(*Term), q.v.(*Term))})
		})
		return &n, true
	case 3:
		if len(a.ents) != len(b.ents) {
			return nil, false
		}
		n := &Obj{kind: 3, typ: a.typ}
		for i := range a.ents {
			k, ok := x.mergeVal(cond, a.ents[i].k, b.ents[i].k, 1)
			if !ok {
				return nil, false
			}
			v, ok := x.mergeVal(cond, a.ents[i].v, b.ents[i].v, hs(strict))
			if !ok {
				return nil, false
			}
			n.ents = append(n.ents, mapEnt{k, v})
		}
		return n, true
	}
	return nil, false
}

func (x *Exec) reachSet(st *State, seen map[int]bool, vals ...Value) {
	x.reachSet1(st, seen, false, vals...)
}

func (x *Exec) reachSet1(st *State, seen map[int]bool, full bool, vals ...Value) {
	var visit func(v Value)
	var obj func(id int)
	obj = func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		o := st.heap.Get(id)
		if o == nil || !full && id <= x.initID && o == x.initHeap.Get(id) {
			return
		}
		switch o.kind {
		case 0:
			visit(o.val)
		case 2:
			for i := 0; i < o.elems.Len(); i++ {
				if b := o.elems.Get(i); b != nil {
					visit(b.v)
				}
			}
		case 3:
			for _, e := range o.ents {
				visit(e.k)
				visit(e.v)
			}
		}
	}
	visit = func(v Value) {
		switch t := v.(type) {
		case SliceV:
			obj(t.obj)
		case PtrV:
			obj(t.obj)
		case MapV:
			obj(t.obj)
		case *StructV:
			for _, f := range t.f {
				visit(f)
			}
		case *ArrV:
			for _, f := range t.e {
				visit(f)
			}
		case IfaceV:
			visit(t.v)
		case *FuncV:
			if t != nil {
				for _, f := range t.binds {
					visit(f)
				}
			}
		case TupleV:
			for _, f := range t {
				visit(f)
			}
		case *IterV:
			if t != nil {
				obj(t.pos)
			}
		case deferList:
			for _, d := range t {
				visit(d.fn)
				for _, a := range d.args {
					visit(a)
				}
			}
		}
	}
	for _, v := range vals {
		visit(v)
	}
}

func commonPC(a, b *PC) *PC {
	for pcLen(a) > pcLen(b) {
		a = a.prev
	}
	for pcLen(b) > pcLen(a) {
		b = b.prev
	}
	for a != b {
		a, b = a.prev, b.prev
	}
	return a
}

func (x *Exec) suffix(p, base *PC) (conj *Term, first *Term) {
	conj = x.c.True
	for q := p; q != base; q = q.prev {
		if q.implied {
			continue
		}
		conj = x.c.BAnd(q.lit, conj)
		first = q.lit
	}
	return
}

// tryMerge joins two outcomes that stand at the same program point.
func (x *Exec) tryMerge(fi *fnInfo, live bitset, a, b *Outcome, strict int) *Outcome {
	base := commonPC(a.st.pc, b.st.pc)
	ca, fa := x.suffix(a.st.pc, base)
	cb, fb := x.suffix(b.st.pc, base)
	var cond *Term
	if fa != nil && fb != nil && x.c.BNot(fa) == fb {
		cond = fa
	} else {
		cond = ca
		if fb == nil || (fa != nil && cb.op != OBAnd && ca.op == OBAnd) {
			cond = x.c.BNot(cb)
		}
	}
	n := &Outcome{kind: a.kind}
	if a.kind == 1 {
		v, ok := x.mergeVal(cond, a.ret, b.ret, strict)
		if !ok {
			x.failWhy["ret"]++
			return nil
		}
		n.ret = v
	} else {
		n.regs = make([]Value, len(a.regs))
		for r := range n.regs {
			if r == fi.nregs-1 || live.has(r) {
				v, ok := x.mergeVal(cond, a.regs[r], b.regs[r], strict)
				if !ok {
					x.failWhy["reg "+fi.name]++
					return nil
				}
				n.regs[r] = v
			}
		}
	}
	st := &State{heap: a.st.heap}
	type fix struct {
		id int
		o  *Obj
	}
	var fixes []fix
	ok := true
	why := ""
	pdiff(a.st.heap, b.st.heap, func(id int, oa, ob *Obj) {
		if !ok {
			return
		}
		if oa == nil {
			fixes = append(fixes, fix{id, ob})
			return
		}
		if ob == nil {
			return
		}
		m, o := x.mergeObj(cond, oa, ob, strict)
		if !o {
			if id <= x.initID || x.outReach(fi, live, a)[id] || x.outReach(fi, live, b)[id] {
				ok = false
				why = fmt.Sprintf("obj %v %d", oa.typ, oa.kind)
			}
			return
		}
		if m != oa {
			fixes = append(fixes, fix{id, m})
		}
	})
	if !ok {
		if x.debug {
			x.failWhy[why+" @"+fi.name]++
		}
		return nil
	}
	for _, f := range fixes {
		st.heap = st.heap.Set(f.id, f.o)
	}
	st.pc = base
	st.assume(x.c.BOr(ca, cb))
	st.wit = a.st.wit
	if st.wit == nil {
		st.wit = b.st.wit
	}
	n.st = st
	x.merges++
	return n
}

// outReach returns the objects that the rest of the execution can reach from
// an outcome; those that exist since initialisation count as reachable anyway.
func (x *Exec) outReach(fi *fnInfo, live bitset, s *Outcome) map[int]bool {
	if s.reach != nil {
		return s.reach
	}
	sn := map[int]bool{}
	s.reach = sn
	for _, g := range x.globals {
		if g > x.initID {
			x.reachSet(s.st, sn, PtrV{obj: g})
		}
	}
	// engine-made stores that are looked up by name
	for _, id := range x.files {
		sn[id] = true
	}
	for _, id := range x.pools {
		x.reachSet(s.st, sn, PtrV{obj: id})
	}
	pdiff(x.initHeap, s.st.heap, func(id int, oa, ob *Obj) {
		if id <= x.initID && ob != nil {
			x.reachSet(s.st, sn, PtrV{obj: id})
		}
	})
	if s.kind == 1 {
		x.reachSet(s.st, sn, s.ret)
	} else {
		for r, v := range s.regs {
			if r == fi.nregs-1 || live.has(r) {
				x.reachSet(s.st, sn, v)
			}
		}
	}
	fr := x.frames
	if len(fr) > 0 {
		fr = fr[:len(fr)-1]
	}
	for _, f := range fr {
		l := f.fi.liveAfter(f.blk, f.ip)
		for r, v := range f.regs {
			if v != nil && (r == f.fi.nregs-1 || l.has(r)) {
				x.reachSet(s.st, sn, v)
			}
		}
	}
	return sn
}

func (x *Exec) mergeAll(fi *fnInfo, live bitset, outs []*Outcome, strict int) []*Outcome {
	if len(outs) <= 1 {
		return outs
	}
	var res []*Outcome
	for _, o := range outs {
		o.reach = nil
		if o.kind == 2 {
			res = append(res, o)
			continue
		}
		done := false
		for i := len(res) - 1; i >= 0; i-- {
			r := res[i]
			if r.kind != o.kind {
				continue
			}
			if m := x.tryMerge(fi, live, r, o, strict); m != nil {
				res[i] = m
				done = true
				break
			}
			x.mergeFail++
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

// ---- values of operands ----

func (x *Exec) constVal(k *ssa.Const) Value {
	if v, ok := x.consts[k]; ok {
		return v
	}
	var v Value
	t := k.Type()
	if k.Value == nil {
		v = x.zero(t)
	} else if w, _, ok := scalarWidth(t); ok {
		if w == 0 {
			v = x.c.Bool(constant.BoolVal(k.Value))
		} else {
			iv := constant.ToInt(k.Value)
			if i, ok := constant.Int64Val(iv); ok {
				v = x.c.Const(uint64(i), w)
			} else {
				u, _ := constant.Uint64Val(iv)
				v = x.c.Const(u, w)
			}
		}
	} else if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		v = x.strConst(constant.StringVal(k.Value))
	} else if ok && b.Info()&types.IsFloat != 0 {
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		v = Float(f)
	} else {
		x.unsup("constant %s", k)
	}
	x.consts[k] = v
	return v
}

func (x *Exec) globalObj(st *State, g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		return id
	}
	x.unsup("global %s not initialised", g)
	return 0
}

func (x *Exec) get(fi *fnInfo, st *State, regs []Value, v ssa.Value) Value {
	if r, ok := fi.num[v]; ok {
		return regs[r]
	}
	switch k := v.(type) {
	case *ssa.Const:
		return x.constVal(k)
	case *ssa.Global:
		if g, ok := x.globals[k]; ok {
			return PtrV{obj: g}
		}
		x.unsup("global %s of a package that was not initialised", k)
	case *ssa.Function:
		return &FuncV{fn: k}
	case *ssa.Builtin:
		return &FuncV{bname: k.Name()}
	}
	x.unsup("operand %T", v)
	return nil
}

// ---- the interpreter ----

func (x *Exec) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if len(x.frames) > 0 {
			return x.frames[len(x.frames)-1].fi.name
		}
		return ""
	}
	ps := x.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) strictFor(fi *fnInfo) int {
	n := fi.fn.Name()
	if x.opt.StrictFns[n] {
		return 2
	}
	if x.opt.LooseFns[n] {
		return 0
	}
	return x.opt.Strict
}

// edge moves to block `to` from `from`, evaluating phis.
func (x *Exec) edge(fi *fnInfo, st *State, regs []Value, from, to *ssa.BasicBlock) {
	bi := fi.blk[to.Index]
	if bi.firstIns == 0 {
		return
	}
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	var tmp [16]Value
	vals := tmp[:0]
	for k := 0; k < bi.firstIns; k++ {
		ph := to.Instrs[k].(*ssa.Phi)
		vals = append(vals, x.get(fi, st, regs, ph.Edges[pi]))
	}
	for k := 0; k < bi.firstIns; k++ {
		regs[fi.num[to.Instrs[k].(*ssa.Phi)]] = vals[k]
	}
}

func copyRegs(r []Value) []Value { return append([]Value(nil), r...) }

// run executes from instruction ip of blk until `stop` is reached (stop != nil)
// or the function ends.
func (x *Exec) run(fi *fnInfo, st *State, regs []Value, blk *ssa.BasicBlock, ip int, stop *ssa.BasicBlock) []*Outcome {
	var done []*Outcome
	fr := len(x.frames) - 1
	for {
		if ip >= len(blk.Instrs) {
			x.unsup("fell off block")
		}
		in := blk.Instrs[ip]
		x.steps++
		if x.steps&0xfff == 0 {
			x.lastSt = st
			x.checkTime()
			if x.opt.MaxSteps > 0 && x.steps > x.opt.MaxSteps {
				x.stepLimit(st)
			}
		}
		x.frames[fr].regs, x.frames[fr].blk, x.frames[fr].ip = regs, blk.Index, ip
		switch i := in.(type) {
		case *ssa.DebugRef:
			ip++
			continue
		case *ssa.Jump:
			to := blk.Succs[0]
			x.edge(fi, st, regs, blk, to)
			if to == stop {
				return append(done, &Outcome{st: st, regs: regs, kind: 0})
			}
			blk, ip = to, fi.blk[to.Index].firstIns
			continue
		case *ssa.If:
			cond := x.get(fi, st, regs, i.Cond).(*Term)
			if !cond.isConst() {
				cond = x.simp(st, cond)
			}
			var sT, sF *State
			if cond.isConst() {
				if cond.isTrue() {
					sT = st
				} else {
					sF = st
				}
			} else if fi.isHammock(blk.Index) {
				sT, sF = st.clone(), st.clone()
				v := uint64(2)
				if st.wit != nil {
					v = st.wit.Eval(cond)
				}
				sT.assume(cond)
				sF.assume(x.c.BNot(cond))
				if v != 1 {
					sT.wit = nil
				}
				if v != 0 {
					sF.wit = nil
				}
			} else {
				sT, sF = x.split(st, cond)
			}
			if sT == nil && sF == nil {
				return done // infeasible state
			}
			if sT == nil || sF == nil {
				k := 0
				if sT != nil {
					st = sT
				} else {
					st = sF
					k = 1
				}
				to := blk.Succs[k]
				x.edge(fi, st, regs, blk, to)
				if to == stop {
					return append(done, &Outcome{st: st, regs: regs, kind: 0})
				}
				blk, ip = to, fi.blk[to.Index].firstIns
				continue
			}
			x.forks++
			x.noteFork("if")
			join := fi.blk[blk.Index].ipdom
			arm := func(s *State, rg []Value, to *ssa.BasicBlock) []*Outcome {
				x.edge(fi, s, rg, blk, to)
				if join != nil && to == join {
					return []*Outcome{{st: s, regs: rg, kind: 0}}
				}
				if to == stop {
					x.unsup("internal: stop before join")
				}
				return x.run(fi, s, rg, to, fi.blk[to.Index].firstIns, join)
			}
			o1 := arm(sT, copyRegs(regs), blk.Succs[0])
			o2 := arm(sF, copyRegs(regs), blk.Succs[1])
			var joined []*Outcome
			for _, o := range append(o1, o2...) {
				if o.kind == 0 {
					joined = append(joined, o)
				} else {
					done = append(done, o)
				}
			}
			if len(joined) == 0 {
				return done
			}
			x.frames[fr].regs, x.frames[fr].blk, x.frames[fr].ip = regs, blk.Index, ip
			joined = x.mergeAll(fi, fi.blk[join.Index].liveIn, joined, x.strictFor(fi))
			if join == stop {
				return append(done, joined...)
			}
			if len(joined) == 1 {
				st, regs = joined[0].st, joined[0].regs
				blk, ip = join, fi.blk[join.Index].firstIns
				continue
			}
			for _, o := range joined {
				done = append(done, x.run(fi, o.st, o.regs, join, fi.blk[join.Index].firstIns, stop)...)
			}
			return done
		case *ssa.Return:
			var ret Value
			switch len(i.Results) {
			case 0:
			case 1:
				ret = x.get(fi, st, regs, i.Results[0])
			default:
				tv := make(TupleV, len(i.Results))
				for k, r := range i.Results {
					tv[k] = x.get(fi, st, regs, r)
				}
				ret = tv
			}
			return append(done, &Outcome{st: st, ret: ret, kind: 1})
		case *ssa.Panic:
			v := x.get(fi, st, regs, i.X)
			return append(done, &Outcome{st: st, kind: 2, panic: &Panic{msg: "panic: " + x.describe(v), val: v, pos: x.pos(in)}})
		}
		rs := x.step(fi, st, regs, in)
		x.frames[fr].regs, x.frames[fr].blk, x.frames[fr].ip = regs, blk.Index, ip
		if len(rs) == 1 && rs[0].panic == nil {
			st = rs[0].st
			if v, ok := in.(ssa.Value); ok {
				regs[fi.num[v]] = rs[0].v
			}
			ip++
			continue
		}
		ok := 0
		for _, r := range rs {
			if r.panic == nil {
				ok++
			}
		}
		for _, r := range rs {
			if r.panic != nil {
				if r.panic.pos == "" {
					r.panic.pos = x.pos(in)
				}
				done = append(done, &Outcome{st: r.st, kind: 2, panic: r.panic})
				continue
			}
			if ok == 1 {
				st = r.st
				if v, isv := in.(ssa.Value); isv {
					regs[fi.num[v]] = r.v
				}
				continue
			}
			rg := copyRegs(regs)
			if v, isv := in.(ssa.Value); isv {
				rg[fi.num[v]] = r.v
			}
			done = append(done, x.run(fi, r.st, rg, blk, ip+1, stop)...)
			x.frames[fr].regs, x.frames[fr].blk, x.frames[fr].ip = regs, blk.Index, ip
		}
		if ok != 1 {
			return done
		}
		ip++
	}
}

func (x *Exec) stepLimit(st *State) {
	panic(abort{"step limit"})
}

func (x *Exec) describe(v Value) string {
	if i, ok := v.(IfaceV); ok {
		if i.t == nil {
			return "nil"
		}
		if s, ok := i.v.(*StrV); ok {
			if c, ok := s.concrete(); ok {
				return c
			}
		}
		if t, ok := i.v.(*Term); ok && t.isConst() {
			return fmt.Sprint(t.val)
		}
		return i.t.String()
	}
	return fmt.Sprintf("%T", v)
}

// call runs a function value; results are merged where possible.
func (x *Exec) call(st *State, fv *FuncV, args []Value) []Res {
	if fv == nil {
		return []Res{{st: st, panic: &Panic{msg: "nil function call"}}}
	}
	if fv.native != nil {
		return fv.native(x, st, args)
	}
	fn := fv.fn
	if in, ok := x.lookupIntrinsic(fn); ok {
		return in(x, st, fn, args)
	}
	if fn.Blocks == nil {
		x.unsup("call of external function %s", fn)
	}
	if x.depth > 200000 {
		x.unsup("call depth")
	}
	fi := x.info(fn)
	x.covered[fi.name]++
	regs := make([]Value, fi.nregs)
	for k, p := range fn.Params {
		regs[fi.num[p]] = args[k]
	}
	for k, p := range fn.FreeVars {
		regs[fi.num[p]] = fv.binds[k]
	}
	regs[fi.nregs-1] = deferList(nil)
	x.frames = append(x.frames, frameRec{fi: fi, regs: regs})
	x.depth++
	outs := x.run(fi, st, regs, fn.Blocks[0], 0, nil)
	if !x.opt.NoMergeRet[fn.Name()] {
		outs = x.mergeAll(fi, nil, outs, x.strictFor(fi))
	}
	x.depth--
	x.frames = x.frames[:len(x.frames)-1]
	res := make([]Res, 0, len(outs))
	for _, o := range outs {
		switch o.kind {
		case 1:
			res = append(res, Res{st: o.st, v: o.ret})
		case 2:
			res = append(res, Res{st: o.st, panic: o.panic})
		}
	}
	return res
}

type deferred struct {
	fn   *FuncV
	args []Value
}
type deferList []deferred

// ---- instructions ----

func one(st *State, v Value) []Res { return []Res{{st: st, v: v}} }

// boundsCheck ensures 0 <= idx < n (idx 64-bit, signed semantics of the index type
// already extended); it returns the in-bounds state (nil if none) and a panic result.
func (x *Exec) boundsCheck(st *State, idx *Term, n int, what string) (*State, []Res) {
	if idx.mx < uint64(n) {
		return st, nil
	}
	ok := x.c.Ult(idx, x.c.Const(uint64(n), idx.w))
	ok = x.simp(st, ok)
	if ok.isTrue() {
		return st, nil
	}
	msg := fmt.Sprintf("index out of range (length %d)%s", n, what)
	if ok.isFalse() {
		if st.wit == nil {
			res, m := x.check(st, x.c.True)
			if res == resUnsat {
				return nil, nil
			}
			st = st.clone()
			st.wit = m
		}
		return nil, []Res{{st: st, panic: &Panic{msg: msg}}}
	}
	sOK, sBad := x.split(st, ok)
	var out []Res
	if sBad != nil {
		out = append(out, Res{st: sBad, panic: &Panic{msg: msg}})
	}
	return sOK, out
}

func (x *Exec) idx64(t *Term, typ types.Type) *Term {
	_, signed, _ := scalarWidth(typ)
	if signed {
		return x.c.SExt(t, 64)
	}
	return x.c.ZExt(t, 64)
}

func (x *Exec) forkIdx(st *State, idx *Term) []Res {
	if idx.isConst() {
		return []Res{{st: st, v: idx}}
	}
	idx = x.simp(st, idx)
	if idx.isConst() {
		return []Res{{st: st, v: idx}}
	}
	if x.opt.ForkIndex > 0 {
		m := map[*Term]bool{}
		if iteLeaves(idx, x.opt.ForkIndex, m) {
			return x.concretise(st, idx)
		}
	}
	return []Res{{st: st, v: idx}}
}

func nilPanic(st *State) []Res {
	return []Res{{st: st, panic: &Panic{msg: "nil pointer dereference"}}}
}

func (x *Exec) step(fi *fnInfo, st *State, regs []Value, in ssa.Instruction) []Res {
	get := func(v ssa.Value) Value { return x.get(fi, st, regs, v) }
	switch i := in.(type) {
	case *ssa.Alloc:
		st = st.clone()
		t := i.Type().Underlying().(*types.Pointer).Elem()
		return one(st, x.allocPtr(st, t))
	case *ssa.BinOp:
		return x.binop(st, i.Op, get(i.X), get(i.Y), i.X.Type(), i.Y.Type(), i.Type())
	case *ssa.UnOp:
		v := get(i.X)
		switch i.Op {
		case token.MUL:
			p, ok := v.(PtrV)
			if !ok {
				x.unsup("load via %T", v)
			}
			if p.obj == 0 {
				return nilPanic(st)
			}
			return one(st, x.load(st, p))
		case token.NOT:
			return one(st, x.c.BNot(v.(*Term)))
		case token.SUB:
			if f, ok := v.(Float); ok {
				return one(st, -f)
			}
			return one(st, x.c.Neg(v.(*Term)))
		case token.XOR:
			return one(st, x.c.Not(v.(*Term)))
		}
		x.unsup("unop %s", i.Op)
	case *ssa.Store:
		p, ok := get(i.Addr).(PtrV)
		if !ok {
			x.unsup("store via %T", get(i.Addr))
		}
		if p.obj == 0 {
			return nilPanic(st)
		}
		st = st.clone()
		x.store(st, p, get(i.Val))
		return one(st, nil)
	case *ssa.FieldAddr:
		p, ok := get(i.X).(PtrV)
		if !ok {
			x.unsup("field of %T", get(i.X))
		}
		if p.obj == 0 {
			return nilPanic(st)
		}
		p.path += string([]byte{byte(i.Field)})
		return one(st, p)
	case *ssa.Field:
		return one(st, get(i.X).(*StructV).f[i.Field])
	case *ssa.IndexAddr:
		idx := x.idx64(get(i.Index).(*Term), i.Index.Type())
		var out []Res
		for _, r := range x.forkIdx(st, idx) {
			st, idx := r.st, r.v.(*Term)
			switch b := get(i.X).(type) {
			case SliceV:
				s2, bad := x.boundsCheck(st, idx, b.len, "")
				out = append(out, bad...)
				if s2 == nil {
					continue
				}
				o := s2.heap.Get(b.obj)
				ai := x.c.Add(idx, x.i64(b.off))
				if o.kind == 2 && !ai.isConst() {
					for _, q := range x.concretise(s2, ai) {
						out = append(out, Res{st: q.st, v: PtrV{obj: b.obj, idx: q.v.(*Term)}})
					}
					continue
				}
				out = append(out, Res{st: s2, v: PtrV{obj: b.obj, idx: ai}})
			case PtrV:
				if b.obj == 0 {
					out = append(out, nilPanic(st)...)
					continue
				}
				n := int(under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
				s2, bad := x.boundsCheck(st, idx, n, "")
				out = append(out, bad...)
				if s2 == nil {
					continue
				}
				o := s2.heap.Get(b.obj)
				if b.path == "" && b.idx == nil && (o.kind == 1 || o.kind == 2) {
					if o.kind == 2 && !idx.isConst() {
						for _, q := range x.concretise(s2, idx) {
							out = append(out, Res{st: q.st, v: PtrV{obj: b.obj, idx: q.v.(*Term)}})
						}
						continue
					}
					out = append(out, Res{st: s2, v: PtrV{obj: b.obj, idx: idx}})
					continue
				}
				for _, q := range x.concretise(s2, idx) {
					k := q.v.(*Term).val
					if k > 255 {
						x.unsup("large array inside a struct")
					}
					p := b
					p.path += string([]byte{byte(k)})
					out = append(out, Res{st: q.st, v: p})
				}
			default:
				x.unsup("index of %T", b)
			}
		}
		return out
	case *ssa.Index:
		idx := x.idx64(get(i.Index).(*Term), i.Index.Type())
		switch b := get(i.X).(type) {
		case *StrV:
			return x.strIndex(st, b, idx)
		case *ArrV:
			s2, out := x.boundsCheck(st, idx, len(b.e), "")
			if s2 == nil {
				return out
			}
			for _, q := range x.concretise(s2, idx) {
				out = append(out, Res{st: q.st, v: b.e[q.v.(*Term).val]})
			}
			return out
		}
		x.unsup("index of %T", get(i.X))
	case *ssa.Lookup:
		switch b := get(i.X).(type) {
		case *StrV:
			return x.strIndex(st, b, x.idx64(get(i.Index).(*Term), i.Index.Type()))
		case MapV:
			return x.mapLookup(st, b, get(i.Index), i.X.Type().Underlying().(*types.Map).Elem(), i.CommaOk)
		}
		x.unsup("lookup in %T", get(i.X))
	case *ssa.MapUpdate:
		return x.mapUpdate(st, get(i.Map).(MapV), get(i.Key), get(i.Value))
	case *ssa.MakeMap:
		st = st.clone()
		return one(st, MapV{x.newObj(st, &Obj{kind: 3, typ: i.Type()})})
	case *ssa.MakeSlice:
		var out []Res
		for _, r := range x.concretise(st, get(i.Len).(*Term)) {
			for _, q := range x.concretise(r.st, get(i.Cap).(*Term)) {
				n := int(sx(r.v.(*Term).val, r.v.(*Term).w))
				c := int(sx(q.v.(*Term).val, q.v.(*Term).w))
				if n < 0 || c < n {
					out = append(out, Res{st: q.st, panic: &Panic{msg: "makeslice: len out of range"}})
					continue
				}
				if c > 1<<24 {
					x.unsup("makeslice of %d elements", c)
				}
				s := q.st.clone()
				id := x.newArrayObj(s, i.Type().Underlying().(*types.Slice).Elem(), c)
				out = append(out, Res{st: s, v: SliceV{obj: id, len: n, cap: c}})
			}
		}
		return out
	case *ssa.Slice:
		return x.sliceOp(fi, st, regs, i)
	case *ssa.ChangeType:
		return one(st, get(i.X))
	case *ssa.Convert:
		return x.convert(st, get(i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		return x.convert(st, get(i.X), i.X.Type(), i.Type())
	case *ssa.SliceToArrayPointer:
		s := get(i.X).(SliceV)
		n := int(under(under(i.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		if s.len < n {
			return []Res{{st: st, panic: &Panic{msg: "slice to array pointer: length"}}}
		}
		if s.off != 0 || st.heap.Get(s.obj).n != n {
			x.unsup("slice to array pointer conversion")
		}
		return one(st, PtrV{obj: s.obj})
	case *ssa.MakeInterface:
		return one(st, IfaceV{i.X.Type(), get(i.X)})
	case *ssa.ChangeInterface:
		return one(st, get(i.X))
	case *ssa.TypeAssert:
		return x.typeAssert(st, i, get(i.X).(IfaceV))
	case *ssa.MakeClosure:
		f := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, get(b))
		}
		return one(st, f)
	case *ssa.Extract:
		return one(st, get(i.Tuple).(TupleV)[i.Index])
	case *ssa.Range:
		st = st.clone()
		switch b := get(i.X).(type) {
		case *StrV:
			return one(st, &IterV{s: b, pos: x.newObj(st, &Obj{kind: 0, val: x.i64(0)})})
		case MapV:
			var ents []mapEnt
			if b.obj != 0 {
				ents = st.heap.Get(b.obj).ents
			}
			if len(ents) > 1 {
				x.unknowns = append(x.unknowns, "map iteration explored in insertion order only")
			}
			return one(st, &IterV{m: ents, pos: x.newObj(st, &Obj{kind: 0, val: x.i64(0)})})
		}
		x.unsup("range over %T", get(i.X))
	case *ssa.Next:
		return x.next(st, i, get(i.Iter).(*IterV))
	case *ssa.Call:
		return x.doCall(fi, st, regs, &i.Call, i)
	case *ssa.Defer:
		fv, args, rs := x.resolveCall(fi, st, regs, &i.Call)
		if rs != nil {
			return rs
		}
		dl := regs[fi.nregs-1].(deferList)
		n := append(append(deferList(nil), dl...), deferred{fv, args})
		regs[fi.nregs-1] = n
		return one(st, nil)
	case *ssa.RunDefers:
		dl := regs[fi.nregs-1].(deferList)
		cur := []Res{{st: st}}
		for k := len(dl) - 1; k >= 0; k-- {
			var nxt []Res
			for _, r := range cur {
				if r.panic != nil {
					nxt = append(nxt, r)
					continue
				}
				nxt = append(nxt, x.callAny(r.st, dl[k].fn, dl[k].args, nil)...)
			}
			cur = nxt
		}
		for k := range cur {
			cur[k].v = nil
		}
		return cur
	}
	x.unsup("instruction %T", in)
	return nil
}

func (x *Exec) allocPtr(st *State, t types.Type) PtrV {
	if a, ok := under(t).(*types.Array); ok {
		return PtrV{obj: x.newArrayObj(st, a.Elem(), int(a.Len()))}
	}
	return PtrV{obj: x.newObj(st, &Obj{kind: 0, typ: t, val: x.zero(t)})}
}

func (x *Exec) strIndex(st *State, s *StrV, idx *Term) []Res {
	var out []Res
	for _, r := range x.expandRunes(st, s) {
		s := r.v.(*StrV)
		s2, bad := x.boundsCheck(r.st, idx, len(s.e), "")
		out = append(out, bad...)
		if s2 == nil {
			continue
		}
		idx := x.simp(s2, idx)
		if idx.isConst() {
			out = append(out, Res{st: s2, v: s.e[idx.val].b})
			continue
		}
		v := s.e[len(s.e)-1].b
		for k := len(s.e) - 2; k >= 0; k-- {
			v = x.c.Ite(x.c.Eq(idx, x.i64(k)), s.e[k].b, v)
		}
		out = append(out, Res{st: s2, v: v})
	}
	return out
}

// expandRunes replaces symbolic code points by their UTF-8 bytes, forking on the
// encoded length.
func (x *Exec) expandRunes(st *State, s *StrV) []Res {
	for k, e := range s.e {
		if e.r == nil {
			continue
		}
		var out []Res
		for _, r := range x.encodeRune(st, e.r) {
			n := &StrV{}
			n.e = append(n.e, s.e[:k]...)
			n.e = append(n.e, r.v.(*StrV).e...)
			n.e = append(n.e, s.e[k+1:]...)
			out = append(out, x.expandRunes(r.st, n)...)
		}
		return out
	}
	return []Res{{st: st, v: s}}
}

// encodeRune gives the UTF-8 bytes of r (invalid code points become U+FFFD).
func (x *Exec) encodeRune(st *State, r *Term) []Res {
	c := x.c
	k := func(v uint64) *Term { return c.Const(v, 32) }
	b := func(t *Term, hi, lo int, pre uint64, prew int) *Term {
		return c.Concat(c.Const(pre, prew), c.Extract(t, hi, lo))
	}
	var out []Res
	type cs struct {
		cond *Term
		e    []StrElem
	}
	sur := c.BAnd(c.Ule(k(0xd800), r), c.Ule(r, k(0xdfff)))
	bad := c.BOr(sur, c.Ult(k(0x10ffff), r))
	cases := []cs{
		{c.Ult(r, k(0x80)), []StrElem{{b: c.Extract(r, 7, 0)}}},
		{c.BAnd(c.Ule(k(0x80), r), c.Ult(r, k(0x800))), []StrElem{{b: b(r, 10, 6, 6, 3)}, {b: b(r, 5, 0, 2, 2)}}},
		{c.BAnd(c.BAnd(c.Ule(k(0x800), r), c.Ult(r, k(0x10000))), c.BNot(sur)), []StrElem{{b: b(r, 15, 12, 14, 4)}, {b: b(r, 11, 6, 2, 2)}, {b: b(r, 5, 0, 2, 2)}}},
		{c.BAnd(c.Ule(k(0x10000), r), c.Ule(r, k(0x10ffff))), []StrElem{{b: b(r, 20, 18, 30, 5)}, {b: b(r, 17, 12, 2, 2)}, {b: b(r, 11, 6, 2, 2)}, {b: b(r, 5, 0, 2, 2)}}},
		{bad, []StrElem{{b: x.byteConst(0xef)}, {b: x.byteConst(0xbf)}, {b: x.byteConst(0xbd)}}},
	}
	cur := st
	for _, q := range cases {
		if cur == nil {
			break
		}
		cond := x.simp(cur, q.cond)
		if cond.isFalse() {
			continue
		}
		if cond.isTrue() {
			out = append(out, Res{st: cur, v: &StrV{q.e}})
			break
		}
		t, f := x.split(cur, cond)
		if t != nil {
			out = append(out, Res{st: t, v: &StrV{q.e}})
		}
		cur = f
	}
	return out
}

func (x *Exec) next(st *State, i *ssa.Next, it *IterV) []Res {
	st = st.clone()
	p := int(st.heap.Get(it.pos).val.(*Term).val)
	setPos := func(s *State, n int) {
		s.heap = s.heap.Set(it.pos, &Obj{kind: 0, val: x.i64(n)})
	}
	if i.IsString {
		if p >= len(it.s.e) {
			return one(st, TupleV{x.c.False, x.i64(0), x.c.Const(0, 32)})
		}
		// element position -> byte index (symbolic when code points precede)
		bi := x.i64(0)
		for k := 0; k < p; k++ {
			if it.s.e[k].r != nil {
				bi = x.c.Add(bi, x.runeLen(it.s.e[k].r))
			} else {
				bi = x.c.Add(bi, x.i64(1))
			}
		}
		if it.s.e[p].r != nil {
			setPos(st, p+1)
			return one(st, TupleV{x.c.True, bi, it.s.e[p].r})
		}
		// decode from bytes
		var out []Res
		for _, r := range x.decodeRune(st, it.s.e[p:]) {
			tv := r.v.(TupleV)
			s := r.st.clone()
			setPos(s, p+int(tv[1].(*Term).val))
			out = append(out, Res{st: s, v: TupleV{x.c.True, bi, tv[0]}})
		}
		return out
	}
	if p >= len(it.m) {
		mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		return one(st, TupleV{x.c.False, x.zero(mt.Key()), x.zero(mt.Elem())})
	}
	setPos(st, p+1)
	return one(st, TupleV{x.c.True, it.m[p].k, it.m[p].v})
}

func (x *Exec) runeLen(r *Term) *Term {
	c := x.c
	k := func(v uint64) *Term { return c.Const(v, 32) }
	return c.Ite(c.Ult(r, k(0x80)), x.i64(1), c.Ite(c.Ult(r, k(0x800)), x.i64(2), c.Ite(c.Ult(r, k(0x10000)), x.i64(3), x.i64(4))))
}

// decodeRune decodes the first code point of the bytes: (rune, size).
func (x *Exec) decodeRune(st *State, e []StrElem) []Res {
	c := x.c
	b0 := e[0].b
	u8 := func(v uint64) *Term { return c.Const(v, 8) }
	in := func(t *Term, lo, hi uint64) *Term {
		return c.BAnd(c.Ule(u8(lo), t), c.Ule(t, u8(hi)))
	}
	at := func(k int) *Term {
		if k < len(e) && e[k].r == nil {
			return e[k].b
		}
		return nil
	}
	type cs struct {
		cond *Term
		r    *Term
		n    int
	}
	z := func(ts ...*Term) *Term {
		r := ts[0]
		for _, t := range ts[1:] {
			r = c.Concat(r, t)
		}
		return c.ZExt(r, 32)
	}
	ascii := c.Ult(b0, u8(0x80))
	cases := []cs{{ascii, c.ZExt(b0, 32), 1}}
	b1, b2, b3 := at(1), at(2), at(3)
	if b1 != nil {
		cases = append(cases, cs{c.BAnd(in(b0, 0xc2, 0xdf), in(b1, 0x80, 0xbf)), z(c.Extract(b0, 4, 0), c.Extract(b1, 5, 0)), 2})
	}
	if b1 != nil && b2 != nil {
		lead := c.BOr(c.BOr(
			c.BAnd(c.Eq(b0, u8(0xe0)), in(b1, 0xa0, 0xbf)),
			c.BAnd(c.Eq(b0, u8(0xed)), in(b1, 0x80, 0x9f))),
			c.BAnd(c.BAnd(in(b0, 0xe1, 0xef), c.BNot(c.Eq(b0, u8(0xed)))), in(b1, 0x80, 0xbf)))
		cases = append(cases, cs{c.BAnd(lead, in(b2, 0x80, 0xbf)), z(c.Extract(b0, 3, 0), c.Extract(b1, 5, 0), c.Extract(b2, 5, 0)), 3})
	}
	if b1 != nil && b2 != nil && b3 != nil {
		lead := c.BOr(c.BOr(
			c.BAnd(c.Eq(b0, u8(0xf0)), in(b1, 0x90, 0xbf)),
			c.BAnd(c.Eq(b0, u8(0xf4)), in(b1, 0x80, 0x8f))),
			c.BAnd(in(b0, 0xf1, 0xf3), in(b1, 0x80, 0xbf)))
		cases = append(cases, cs{c.BAnd(c.BAnd(lead, in(b2, 0x80, 0xbf)), in(b3, 0x80, 0xbf)), z(c.Extract(b0, 2, 0), c.Extract(b1, 5, 0), c.Extract(b2, 5, 0), c.Extract(b3, 5, 0)), 4})
	}
	cases = append(cases, cs{c.True, c.Const(0xfffd, 32), 1})
	var out []Res
	cur := st
	for _, q := range cases {
		if cur == nil {
			break
		}
		cond := x.simp(cur, q.cond)
		if cond.isFalse() {
			continue
		}
		if cond.isTrue() {
			out = append(out, Res{st: cur, v: TupleV{q.r, x.i64(q.n)}})
			break
		}
		t, f := x.split(cur, cond)
		if t != nil {
			out = append(out, Res{st: t, v: TupleV{q.r, x.i64(q.n)}})
		}
		cur = f
	}
	return out
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert, v IfaceV) []Res {
	ok := false
	if v.t != nil {
		if it, isI := under(i.AssertedType).(*types.Interface); isI {
			ok = types.Implements(v.t, it)
		} else {
			ok = types.Identical(v.t, i.AssertedType)
		}
	}
	var r Value
	if ok {
		if _, isI := under(i.AssertedType).(*types.Interface); isI {
			r = v
		} else {
			r = v.v
		}
	} else {
		r = x.zero(i.AssertedType)
	}
	if i.CommaOk {
		return one(st, TupleV{r, x.c.Bool(ok)})
	}
	if !ok {
		return []Res{{st: st, panic: &Panic{msg: "interface conversion"}}}
	}
	return one(st, r)
}

func (x *Exec) sliceOp(fi *fnInfo, st *State, regs []Value, i *ssa.Slice) []Res {
	base := x.get(fi, st, regs, i.X)
	var out []Res
	var bounds []ssa.Value = []ssa.Value{i.Low, i.High, i.Max}
	cur := []Res{{st: st, v: TupleV{}}}
	for _, b := range bounds {
		var nxt []Res
		for _, r := range cur {
			if b == nil {
				nxt = append(nxt, Res{st: r.st, v: append(append(TupleV{}, r.v.(TupleV)...), nil)})
				continue
			}
			bv := x.idx64(x.get(fi, st, regs, b).(*Term), b.Type())
			for _, q := range x.concretise(r.st, bv) {
				nxt = append(nxt, Res{st: q.st, v: append(append(TupleV{}, r.v.(TupleV)...), q.v)})
			}
		}
		cur = nxt
	}
	ival := func(v Value, d int) int {
		if v == nil {
			return d
		}
		return int(int64(v.(*Term).val))
	}
	for _, r := range cur {
		tv := r.v.(TupleV)
		switch b := base.(type) {
		case SliceV:
			lo, hi, mx := ival(tv[0], 0), ival(tv[1], b.len), ival(tv[2], b.cap)
			if lo < 0 || hi < lo || mx < hi || mx > b.cap {
				out = append(out, Res{st: r.st, panic: &Panic{msg: fmt.Sprintf("slice bounds out of range [%d:%d:%d] cap %d", lo, hi, mx, b.cap)}})
				continue
			}
			out = append(out, Res{st: r.st, v: SliceV{obj: b.obj, off: b.off + lo, len: hi - lo, cap: mx - lo}})
		case PtrV:
			if b.obj == 0 {
				out = append(out, nilPanic(r.st)...)
				continue
			}
			n := int(under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
			lo, hi, mx := ival(tv[0], 0), ival(tv[1], n), ival(tv[2], n)
			if lo < 0 || hi < lo || mx < hi || mx > n {
				out = append(out, Res{st: r.st, panic: &Panic{msg: "slice bounds out of range"}})
				continue
			}
			if b.path != "" || b.idx != nil {
				x.unsup("slicing an array inside a struct")
			}
			out = append(out, Res{st: r.st, v: SliceV{obj: b.obj, off: lo, len: hi - lo, cap: mx - lo}})
		case *StrV:
			for _, q := range x.expandRunes(r.st, b) {
				s := q.v.(*StrV)
				lo, hi := ival(tv[0], 0), ival(tv[1], len(s.e))
				if lo < 0 || hi < lo || hi > len(s.e) {
					out = append(out, Res{st: q.st, panic: &Panic{msg: "slice bounds out of range (string)"}})
					continue
				}
				out = append(out, Res{st: q.st, v: &StrV{s.e[lo:hi:hi]}})
			}
		default:
			x.unsup("slice of %T", base)
		}
	}
	return out
}

// ---- equality ----

func (x *Exec) eqVal(st *State, a, b Value) *Term {
	switch va := a.(type) {
	case *Term:
		return x.c.Eq(va, b.(*Term))
	case Float:
		if math.IsNaN(float64(va)) || math.IsNaN(float64(b.(Float))) {
			x.unsup("comparison of an unknown float")
		}
		return x.c.Bool(va == b.(Float))
	case *StrV:
		return x.strEq(va, b.(*StrV))
	case PtrV:
		vb, ok := b.(PtrV)
		if !ok {
			return x.c.False
		}
		if va.obj != vb.obj || va.path != vb.path {
			return x.c.False
		}
		if va.idx == vb.idx {
			return x.c.True
		}
		if va.idx == nil || vb.idx == nil {
			return x.c.False
		}
		return x.c.Eq(va.idx, vb.idx)
	case IfaceV:
		vb, ok := b.(IfaceV)
		if !ok {
			x.unsup("interface compared with %T", b)
		}
		if va.t == nil || vb.t == nil {
			return x.c.Bool(va.t == nil && vb.t == nil)
		}
		if !types.Identical(va.t, vb.t) {
			return x.c.False
		}
		return x.eqVal(st, va.v, vb.v)
	case SliceV:
		return x.c.Bool(va.obj == 0 && b.(SliceV).obj == 0)
	case *FuncV:
		return x.c.Bool(va == nil && b.(*FuncV) == nil)
	case MapV:
		return x.c.Bool(va == b.(MapV))
	case *StructV:
		r := x.c.True
		for k := range va.f {
			r = x.c.BAnd(r, x.eqVal(st, va.f[k], b.(*StructV).f[k]))
		}
		return r
	case *ArrV:
		r := x.c.True
		for k := range va.e {
			r = x.c.BAnd(r, x.eqVal(st, va.e[k], b.(*ArrV).e[k]))
		}
		return r
	}
	x.unsup("comparison of %T", a)
	return nil
}

// mixed tells whether a comparison needs the bytes of the code points.
func (x *Exec) mixed(a, b *StrV, op token.Token) bool {
	if !a.hasRunes() && !b.hasRunes() {
		return false
	}
	if op != token.EQL && op != token.NEQ {
		return true
	}
	a, b = x.asRunes(a), x.asRunes(b)
	for _, s := range []*StrV{a, b} {
		for _, e := range s.e {
			if e.r == nil {
				return true
			}
		}
	}
	return false
}

func (x *Exec) strEq(a, b *StrV) *Term {
	if a.hasRunes() || b.hasRunes() {
		a, b = x.asRunes(a), x.asRunes(b)
		// compare position by position when the structure agrees
		if len(a.e) == len(b.e) {
			r := x.c.True
			for i := range a.e {
				p, q := a.e[i], b.e[i]
				switch {
				case p.r != nil && q.r != nil:
					r = x.c.BAnd(r, x.c.Eq(p.r, q.r))
				case p.r == nil && q.r == nil:
					r = x.c.BAnd(r, x.c.Eq(p.b, q.b))
				default:
					// one code point against one byte: equal iff both ASCII and same
					rr, bb := p.r, q.b
					if rr == nil {
						rr, bb = q.r, p.b
					}
					if !bb.isConst() {
						x.unsup("string comparison of code points with bytes")
					}
					r = x.c.BAnd(r, x.c.BAnd(x.c.Ult(rr, x.c.Const(0x80, 32)), x.c.Eq(rr, x.c.ZExt(bb, 32))))
				}
			}
			onlyR := true
			for i := range a.e {
				if a.e[i].r == nil || b.e[i].r == nil {
					onlyR = false
				}
			}
			if onlyR || r.isTrue() {
				return r
			}
		}
		la, lb := true, true
		for _, e := range a.e {
			la = la && e.r != nil
		}
		for _, e := range b.e {
			lb = lb && e.r != nil
		}
		if la && lb {
			return x.c.False // different number of code points
		}
		x.unsup("string comparison mixing code points and bytes")
	}
	if len(a.e) != len(b.e) {
		return x.c.False
	}
	r := x.c.True
	for i := range a.e {
		r = x.c.BAnd(r, x.c.Eq(a.e[i].b, b.e[i].b))
	}
	return r
}

// asRunes turns concrete, valid UTF-8 bytes into code points.
func (x *Exec) asRunes(s *StrV) *StrV {
	n := &StrV{}
	for i := 0; i < len(s.e); {
		if s.e[i].r != nil || !s.e[i].b.isConst() {
			e := s.e[i]
			if e.r == nil && e.b.mx < 0x80 {
				e = StrElem{r: x.c.ZExt(e.b, 32)}
			}
			n.e = append(n.e, e)
			i++
			continue
		}
		var buf []byte
		for j := i; j < len(s.e) && j < i+4 && s.e[j].r == nil && s.e[j].b.isConst(); j++ {
			buf = append(buf, byte(s.e[j].b.val))
		}
		r, k := utf8.DecodeRune(buf)
		if r == utf8.RuneError && k <= 1 {
			n.e = append(n.e, s.e[i])
			i++
			continue
		}
		n.e = append(n.e, StrElem{r: x.c.Const(uint64(r), 32)})
		i += k
	}
	return n
}

func (x *Exec) strLess(a, b *StrV) *Term {
	// a < b lexicographically
	if a.hasRunes() || b.hasRunes() {
		x.unsup("string ordering on code points")
	}
	n := len(a.e)
	if len(b.e) < n {
		n = len(b.e)
	}
	r := x.c.Bool(len(a.e) < len(b.e))
	for i := n - 1; i >= 0; i-- {
		lt := x.c.Ult(a.e[i].b, b.e[i].b)
		eq := x.c.Eq(a.e[i].b, b.e[i].b)
		r = x.c.BOr(lt, x.c.BAnd(eq, r))
	}
	return r
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb, tr types.Type) []Res {
	c := x.c
	if sa, ok := a.(*StrV); ok && op != token.ADD {
		if sb, ok := b.(*StrV); ok && x.mixed(sa, sb, op) {
			// bytes against code points: compare the encoded bytes
			var out []Res
			for _, ra := range x.expandRunes(st, sa) {
				for _, rb := range x.expandRunes(ra.st, sb) {
					out = append(out, x.binop(rb.st, op, ra.v, rb.v, ta, tb, tr)...)
				}
			}
			return out
		}
	}
	switch op {
	case token.EQL:
		return one(st, x.eqVal(st, a, b))
	case token.NEQ:
		return one(st, c.BNot(x.eqVal(st, a, b)))
	}
	if fa, ok := a.(Float); ok {
		fb := b.(Float)
		if math.IsNaN(float64(fa)) || math.IsNaN(float64(fb)) {
			switch op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				x.unsup("comparison of an unknown float")
			}
		}
		switch op {
		case token.ADD:
			return one(st, fa+fb)
		case token.SUB:
			return one(st, fa-fb)
		case token.MUL:
			return one(st, fa*fb)
		case token.QUO:
			return one(st, fa/fb)
		case token.LSS:
			return one(st, c.Bool(fa < fb))
		case token.LEQ:
			return one(st, c.Bool(fa <= fb))
		case token.GTR:
			return one(st, c.Bool(fa > fb))
		case token.GEQ:
			return one(st, c.Bool(fa >= fb))
		}
	}
	if sa, ok := a.(*StrV); ok {
		sb := b.(*StrV)
		switch op {
		case token.ADD:
			n := &StrV{e: make([]StrElem, 0, len(sa.e)+len(sb.e))}
			n.e = append(append(n.e, sa.e...), sb.e...)
			return one(st, n)
		}
		var out []Res
		for _, r := range x.expandRunes(st, sa) {
			for _, q := range x.expandRunes(r.st, sb) {
				sa, sb := r.v.(*StrV), q.v.(*StrV)
				var t *Term
				switch op {
				case token.LSS:
					t = x.strLess(sa, sb)
				case token.GTR:
					t = x.strLess(sb, sa)
				case token.LEQ:
					t = c.BNot(x.strLess(sb, sa))
				case token.GEQ:
					t = c.BNot(x.strLess(sa, sb))
				default:
					x.unsup("string op %s", op)
				}
				out = append(out, Res{st: q.st, v: t})
			}
		}
		return out
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		x.unsup("binop %s on %T", op, a)
	}
	_, signed, _ := scalarWidth(ta)
	if p.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return one(st, c.BAnd(p, q))
		case token.OR, token.LOR:
			return one(st, c.BOr(p, q))
		}
	}
	switch op {
	case token.ADD:
		return one(st, c.Add(p, q))
	case token.SUB:
		return one(st, c.Sub(p, q))
	case token.MUL:
		return one(st, c.Mul(p, q))
	case token.QUO, token.REM:
		zero := c.Eq(q, c.Const(0, q.w))
		if !zero.isFalse() {
			zero = x.simp(st, zero)
		}
		var out []Res
		s := st
		if zero.isTrue() {
			return []Res{{st: st, panic: &Panic{msg: "integer divide by zero"}}}
		}
		if !zero.isFalse() {
			z, nz := x.split(st, zero)
			if z != nil {
				out = append(out, Res{st: z, panic: &Panic{msg: "integer divide by zero"}})
			}
			if nz == nil {
				return out
			}
			s = nz
		}
		var v *Term
		switch {
		case op == token.QUO && signed:
			v = c.SDiv(p, q)
		case op == token.QUO:
			v = c.UDiv(p, q)
		case signed:
			v = c.SRem(p, q)
		default:
			v = c.URem(p, q)
		}
		return append(out, Res{st: s, v: v})
	case token.AND:
		return one(st, c.And(p, q))
	case token.OR:
		return one(st, c.Or(p, q))
	case token.XOR:
		return one(st, c.Xor(p, q))
	case token.AND_NOT:
		return one(st, c.And(p, c.Not(q)))
	case token.SHL, token.SHR:
		_, sq, _ := scalarWidth(tb)
		var out []Res
		s := st
		if sq && q.mx > mask(q.w-1) {
			neg := c.Slt(q, c.Const(0, q.w))
			if q.isConst() && neg.isTrue() {
				return []Res{{st: st, panic: &Panic{msg: "negative shift amount"}}}
			}
			n, nn := x.split(st, neg)
			if n != nil {
				out = append(out, Res{st: n, panic: &Panic{msg: "negative shift amount"}})
			}
			if nn == nil {
				return out
			}
			s = nn
		}
		// bring the amount to the width of p
		var amt *Term
		if q.w <= p.w {
			amt = c.ZExt(q, p.w)
		} else {
			big := c.Ule(c.Const(uint64(p.w), q.w), q)
			amt = c.Ite(big, c.Const(uint64(minu(uint64(p.w), mask(p.w))), p.w), c.Extract(q, p.w-1, 0))
		}
		var v *Term
		if op == token.SHL {
			v = c.Shl(p, amt)
		} else if signed {
			v = c.Ashr(p, amt)
		} else {
			v = c.Lshr(p, amt)
		}
		return append(out, Res{st: s, v: v})
	case token.LSS:
		return one(st, x.less(p, q, signed))
	case token.GTR:
		return one(st, x.less(q, p, signed))
	case token.LEQ:
		return one(st, c.BNot(x.less(q, p, signed)))
	case token.GEQ:
		return one(st, c.BNot(x.less(p, q, signed)))
	}
	x.unsup("binop %s", op)
	return nil
}

func (x *Exec) less(a, b *Term, signed bool) *Term {
	if signed {
		return x.c.Slt(a, b)
	}
	return x.c.Ult(a, b)
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) []Res {
	wt, _, okt := scalarWidth(to)
	wf, sf, okf := scalarWidth(from)
	if okt && okf && wt > 0 && wf > 0 {
		t := v.(*Term)
		if wt <= wf {
			return one(st, x.c.ZExt(t, wt))
		}
		if sf {
			return one(st, x.c.SExt(t, wt))
		}
		return one(st, x.c.ZExt(t, wt))
	}
	if f, ok := v.(Float); ok {
		if okt {
			return one(st, x.c.Const(uint64(int64(f)), wt))
		}
		return one(st, f)
	}
	isStr := func(t types.Type) bool {
		b, ok := under(t).(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	isFloat := func(t types.Type) bool {
		b, ok := under(t).(*types.Basic)
		return ok && b.Info()&types.IsFloat != 0
	}
	if okf && isFloat(to) {
		t := v.(*Term)
		if !t.isConst() {
			return one(st, Float(math.NaN())) // stands for any float; only arithmetic is allowed on it
		}
		if sf {
			return one(st, Float(float64(sx(t.val, t.w))))
		}
		return one(st, Float(float64(t.val)))
	}
	if isStr(to) {
		if isStr(from) {
			return one(st, v)
		}
		if okf { // rune -> string
			t := v.(*Term)
			if sf {
				t = x.c.SExt(t, 64)
			} else {
				t = x.c.ZExt(t, 64)
			}
			if t.isConst() {
				return one(st, x.strConst(string(rune(int64(t.val)))))
			}
			// values outside int32 cannot be valid code points either
			r32 := x.c.Extract(t, 31, 0)
			big := x.c.BNot(x.c.Eq(x.c.Extract(t, 63, 32), x.c.Const(0, 32)))
			if !big.isFalse() {
				r32 = x.c.Ite(big, x.c.Const(0xfffd, 32), r32)
			}
			// keep it as one element if it is certainly a valid code point
			inv := x.c.BOr(x.c.Ult(x.c.Const(0x10ffff, 32), r32), x.c.BAnd(x.c.Ule(x.c.Const(0xd800, 32), r32), x.c.Ule(r32, x.c.Const(0xdfff, 32))))
			r32 = x.c.Ite(inv, x.c.Const(0xfffd, 32), r32)
			return one(st, &StrV{[]StrElem{{r: r32}}})
		}
		if s, ok := v.(SliceV); ok {
			et := under(from).(*types.Slice).Elem()
			w, _, _ := scalarWidth(et)
			if w == 8 {
				n := &StrV{e: make([]StrElem, s.len)}
				for k, b := range x.sliceBytes(st, s) {
					n.e[k].b = b
				}
				return one(st, n)
			}
			if w == 32 { // []rune -> string
				n := &StrV{}
				for k := 0; k < s.len; k++ {
					r := x.sliceElem(st, s, k).(*Term)
					if r.isConst() {
						n.e = append(n.e, x.strConst(string(rune(int32(r.val)))).e...)
						continue
					}
					inv := x.c.BOr(x.c.Ult(x.c.Const(0x10ffff, 32), r), x.c.BAnd(x.c.Ule(x.c.Const(0xd800, 32), r), x.c.Ule(r, x.c.Const(0xdfff, 32))))
					n.e = append(n.e, StrElem{r: x.c.Ite(inv, x.c.Const(0xfffd, 32), r)})
				}
				return one(st, n)
			}
		}
	}
	if isStr(from) {
		if sl, ok := under(to).(*types.Slice); ok {
			w, _, _ := scalarWidth(sl.Elem())
			if w == 8 {
				var out []Res
				for _, r := range x.expandRunes(st, v.(*StrV)) {
					s := r.st.clone()
					e := r.v.(*StrV).e
					vals := make([]Value, len(e))
					for k := range e {
						vals[k] = e[k].b
					}
					out = append(out, Res{st: s, v: x.newSliceCap(s, sl.Elem(), vals, roundCap(len(vals), 1))})
				}
				return out
			}
			if w == 32 {
				s := v.(*StrV)
				if !s.hasRunes() {
					if cs, ok := s.concrete(); ok {
						st = st.clone()
						var vals []Value
						for _, r := range cs {
							vals = append(vals, x.c.Const(uint64(uint32(r)), 32))
						}
						return one(st, x.newSlice(st, sl.Elem(), vals))
					}
				}
				all := true
				for _, e := range s.e {
					all = all && e.r != nil
				}
				if all {
					st = st.clone()
					vals := make([]Value, len(s.e))
					for k := range s.e {
						vals[k] = s.e[k].r
					}
					return one(st, x.newSlice(st, sl.Elem(), vals))
				}
				// decode step by step
				cur := []Res{{st: st, v: TupleV{x.i64(0)}}}
				for {
					var nxt []Res
					moved := false
					for _, r := range cur {
						tv := r.v.(TupleV)
						p := int(tv[0].(*Term).val)
						if p >= len(s.e) {
							nxt = append(nxt, r)
							continue
						}
						moved = true
						if s.e[p].r != nil {
							nxt = append(nxt, Res{st: r.st, v: append(append(TupleV{x.i64(p + 1)}, tv[1:]...), s.e[p].r)})
							continue
						}
						for _, q := range x.decodeRune(r.st, s.e[p:]) {
							t2 := q.v.(TupleV)
							nxt = append(nxt, Res{st: q.st, v: append(append(TupleV{x.i64(p + int(t2[1].(*Term).val))}, tv[1:]...), t2[0])})
						}
					}
					cur = nxt
					if !moved {
						break
					}
				}
				var out []Res
				for _, r := range cur {
					s2 := r.st.clone()
					out = append(out, Res{st: s2, v: x.newSlice(s2, sl.Elem(), []Value(r.v.(TupleV)[1:]))})
				}
				return out
			}
		}
	}
	if _, ok := under(to).(*types.Pointer); ok {
		return one(st, v)
	}
	if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return one(st, v)
	}
	if _, ok := v.(SliceV); ok {
		return one(st, v)
	}
	x.unsup("conversion %s -> %s", from, to)
	return nil
}

// ---- maps ----

func (x *Exec) mapLookup(st *State, m MapV, k Value, elem types.Type, commaOk bool) []Res {
	var ents []mapEnt
	if m.obj != 0 {
		ents = st.heap.Get(m.obj).ents
	}
	zero := x.zero(elem)
	v, found := zero, x.c.False
	scalar := true
	if _, ok := zero.(*Term); !ok {
		scalar = false
	}
	if scalar {
		for i := len(ents) - 1; i >= 0; i-- {
			eq := x.eqVal(st, ents[i].k, k)
			if eq.isFalse() {
				continue
			}
			v = x.c.Ite(eq, ents[i].v.(*Term), v.(*Term))
			found = x.c.BOr(eq, found)
		}
		if commaOk {
			return one(st, TupleV{v, found})
		}
		return one(st, v)
	}
	var out []Res
	cur := st
	ret := func(s *State, v Value, f bool) {
		if commaOk {
			out = append(out, Res{st: s, v: TupleV{v, x.c.Bool(f)}})
		} else {
			out = append(out, Res{st: s, v: v})
		}
	}
	for _, e := range ents {
		eq := x.simp(cur, x.eqVal(cur, e.k, k))
		if eq.isFalse() {
			continue
		}
		if eq.isTrue() {
			ret(cur, e.v, true)
			return out
		}
		t, f := x.split(cur, eq)
		if t != nil {
			ret(t, e.v, true)
		}
		if f == nil {
			return out
		}
		cur = f
	}
	ret(cur, zero, false)
	return out
}

func (x *Exec) mapUpdate(st *State, m MapV, k, v Value) []Res {
	if m.obj == 0 {
		return []Res{{st: st, panic: &Panic{msg: "assignment to entry in nil map"}}}
	}
	var out []Res
	cur := st
	o := st.heap.Get(m.obj)
	for i, e := range o.ents {
		eq := x.simp(cur, x.eqVal(cur, e.k, k))
		if eq.isFalse() {
			continue
		}
		upd := func(s *State) *State {
			n := s.clone()
			no := *o
			no.ents = append([]mapEnt(nil), o.ents...)
			no.ents[i].v = v
			x.noteWrite(n, m.obj)
			n.heap = n.heap.Set(m.obj, &no)
			return n
		}
		if eq.isTrue() {
			return append(out, Res{st: upd(cur)})
		}
		t, f := x.split(cur, eq)
		if t != nil {
			out = append(out, Res{st: upd(t)})
		}
		if f == nil {
			return out
		}
		cur = f
	}
	n := cur.clone()
	no := *o
	no.ents = append(append([]mapEnt(nil), o.ents...), mapEnt{k, v})
	x.noteWrite(n, m.obj)
	n.heap = n.heap.Set(m.obj, &no)
	return append(out, Res{st: n})
}

// ---- calls ----

func (x *Exec) resolveCall(fi *fnInfo, st *State, regs []Value, c *ssa.CallCommon) (*FuncV, []Value, []Res) {
	get := func(v ssa.Value) Value { return x.get(fi, st, regs, v) }
	var args []Value
	if c.IsInvoke() {
		iv := get(c.Value).(IfaceV)
		if iv.t == nil {
			return nil, nil, nilPanic(st)
		}
		fn := x.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			x.unsup("method %s of %s", c.Method.Name(), iv.t)
		}
		args = append(args, iv.v)
		for _, a := range c.Args {
			args = append(args, get(a))
		}
		return &FuncV{fn: fn}, args, nil
	}
	fv, ok := get(c.Value).(*FuncV)
	if !ok {
		x.unsup("call of %T", get(c.Value))
	}
	if fv == nil {
		return nil, nil, []Res{{st: st, panic: &Panic{msg: "nil function call"}}}
	}
	for _, a := range c.Args {
		args = append(args, get(a))
	}
	return fv, args, nil
}

func (x *Exec) doCall(fi *fnInfo, st *State, regs []Value, c *ssa.CallCommon, in *ssa.Call) []Res {
	fv, args, rs := x.resolveCall(fi, st, regs, c)
	if rs != nil {
		return rs
	}
	return x.callAny(st, fv, args, c)
}

func (x *Exec) callAny(st *State, fv *FuncV, args []Value, c *ssa.CallCommon) []Res {
	if fv != nil && fv.bname != "" {
		return x.builtin(st, fv.bname, args, c)
	}
	return x.call(st, fv, args)
}

func (x *Exec) builtin(st *State, name string, args []Value, c *ssa.CallCommon) []Res {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return one(st, x.i64(v.cap))
			}
			return one(st, x.i64(v.len))
		case *StrV:
			n := x.i64(0)
			for _, e := range v.e {
				if e.r != nil {
					n = x.c.Add(n, x.runeLen(e.r))
				} else {
					n = x.c.Add(n, x.i64(1))
				}
			}
			return one(st, n)
		case MapV:
			if v.obj == 0 {
				return one(st, x.i64(0))
			}
			return one(st, x.i64(len(st.heap.Get(v.obj).ents)))
		case *ArrV:
			return one(st, x.i64(len(v.e)))
		case PtrV:
			n := int(under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len())
			return one(st, x.i64(n))
		}
	case "append":
		s := args[0].(SliceV)
		elem := types.Type(nil)
		if c != nil {
			elem = under(c.Args[0].Type()).(*types.Slice).Elem()
		}
		if str, ok := args[1].(*StrV); ok {
			var out []Res
			for _, r := range x.expandRunes(st, str) {
				e := r.v.(*StrV).e
				vals := make([]Value, len(e))
				for k := range e {
					vals[k] = e[k].b
				}
				s2 := r.st.clone()
				out = append(out, Res{st: s2, v: x.appendVals(s2, s, elem, vals)})
			}
			return out
		}
		t := args[1].(SliceV)
		vals := make([]Value, t.len)
		for k := range vals {
			vals[k] = x.sliceElem(st, t, k)
		}
		st = st.clone()
		return one(st, x.appendVals(st, s, elem, vals))
	case "copy":
		d := args[0].(SliceV)
		var rs []Res
		if str, ok := args[1].(*StrV); ok {
			rs = x.expandRunes(st, str)
		} else {
			rs = one(st, args[1])
		}
		var out []Res
		for _, r := range rs {
			var vals []Value
			switch sv := r.v.(type) {
			case *StrV:
				for k := range sv.e {
					vals = append(vals, sv.e[k].b)
				}
			case SliceV:
				n := sv.len
				if d.len < n {
					n = d.len
				}
				for k := 0; k < n; k++ {
					vals = append(vals, x.sliceElem(r.st, sv, k))
				}
			}
			n := len(vals)
			if d.len < n {
				n = d.len
			}
			s2 := r.st.clone()
			if n > 0 {
				o := s2.heap.Get(d.obj)
				for k := 0; k < n; k++ {
					o = x.setElem(o, x.i64(d.off+k), "", vals[k])
				}
				x.noteWrite(s2, d.obj)
				s2.heap = s2.heap.Set(d.obj, o)
			}
			out = append(out, Res{st: s2, v: x.i64(n)})
		}
		return out
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return one(st, nil)
		}
		o := st.heap.Get(m.obj)
		cur := st
		var out []Res
		for i, e := range o.ents {
			eq := x.simp(cur, x.eqVal(cur, e.k, args[1]))
			if eq.isFalse() {
				continue
			}
			del := func(s *State) Res {
				n := s.clone()
				no := *o
				no.ents = append(append([]mapEnt(nil), o.ents[:i]...), o.ents[i+1:]...)
				x.noteWrite(n, m.obj)
				n.heap = n.heap.Set(m.obj, &no)
				return Res{st: n}
			}
			if eq.isTrue() {
				return append(out, del(cur))
			}
			t, f := x.split(cur, eq)
			if t != nil {
				out = append(out, del(t))
			}
			if f == nil {
				return out
			}
			cur = f
		}
		return append(out, Res{st: cur})
	case "min", "max":
		v := args[0]
		t := c.Args[0].Type()
		_, signed, _ := scalarWidth(t)
		for _, a := range args[1:] {
			if f, ok := v.(Float); ok {
				g := a.(Float)
				if (name == "min") == (g < f) {
					v = g
				}
				continue
			}
			p, ok := v.(*Term)
			if !ok {
				x.unsup("min/max on %T", v)
			}
			q := a.(*Term)
			if name == "min" {
				v = x.c.Ite(x.less(q, p, signed), q, p)
			} else {
				v = x.c.Ite(x.less(p, q, signed), q, p)
			}
		}
		return one(st, v)
	case "clear":
		switch m := args[0].(type) {
		case MapV:
			if m.obj != 0 {
				st = st.clone()
				no := *st.heap.Get(m.obj)
				no.ents = nil
				x.noteWrite(st, m.obj)
				st.heap = st.heap.Set(m.obj, &no)
			}
			return one(st, nil)
		case SliceV:
			st = st.clone()
			if m.len > 0 {
				o := st.heap.Get(m.obj)
				z := x.zero(o.typ)
				for k := 0; k < m.len; k++ {
					o = x.setElem(o, x.i64(m.off+k), "", z)
				}
				x.noteWrite(st, m.obj)
				st.heap = st.heap.Set(m.obj, o)
			}
			return one(st, nil)
		}
	case "print", "println":
		return one(st, nil)
	case "recover":
		return one(st, IfaceV{})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.obj == 0 {
			return nilPanic(st)
		}
		return one(st, args[0])
	case "String": // unsafe.String
		p := args[0].(PtrV)
		n := args[1].(*Term)
		if !n.isConst() {
			x.unsup("unsafe.String with symbolic length")
		}
		e := make([]StrElem, n.val)
		if n.val > 0 {
			o := st.heap.Get(p.obj)
			off := 0
			if p.idx != nil {
				off = int(p.idx.val)
			}
			for k := range e {
				e[k].b = x.elemAt(o, x.i64(off+k), "").(*Term)
			}
		}
		return one(st, &StrV{e})
	case "SliceData":
		s := args[0].(SliceV)
		if s.obj == 0 {
			return one(st, PtrV{})
		}
		return one(st, PtrV{obj: s.obj, idx: x.i64(s.off)})
	case "StringData":
		s := args[0].(*StrV)
		if s.hasRunes() {
			x.unsup("unsafe.StringData on code points")
		}
		st = st.clone()
		vals := make([]Value, len(s.e))
		for k := range vals {
			vals[k] = s.e[k].b
		}
		sl := x.newSlice(st, types.Typ[types.Uint8], vals)
		return one(st, PtrV{obj: sl.obj, idx: x.i64(0)})
	case "Slice":
		p := args[0].(PtrV)
		n := args[1].(*Term)
		if !n.isConst() || p.obj == 0 {
			x.unsup("unsafe.Slice")
		}
		off := 0
		if p.idx != nil {
			off = int(p.idx.val)
		}
		return one(st, SliceV{obj: p.obj, off: off, len: int(n.val), cap: int(n.val)})
	}
	x.unsup("builtin %s on %T", name, args[0])
	return nil
}

// appendVals implements append with the growth policy of the Go runtime.
func (x *Exec) appendVals(st *State, s SliceV, elem types.Type, vals []Value) SliceV {
	if len(vals) == 0 {
		return s
	}
	n := s.len + len(vals)
	if n <= s.cap {
		o := st.heap.Get(s.obj)
		for k, v := range vals {
			o = x.setElem(o, x.i64(s.off+s.len+k), "", v)
		}
		x.noteWrite(st, s.obj)
		st.heap = st.heap.Set(s.obj, o)
		s.len = n
		return s
	}
	if elem == nil && s.obj != 0 {
		elem = st.heap.Get(s.obj).typ
	}
	nc := growCap(s.cap, n, int(sizeOf(elem)))
	o := x.mkArrayObj(elem, nc)
	if s.obj != 0 {
		old := st.heap.Get(s.obj)
		if o.kind == 1 && s.off == 0 && old.n == s.len {
			// copy column-wise, sharing the storage
			cols := make([]*ArrVer, len(o.cols))
			for k := range cols {
				cols[k] = x.c.growArr(old.cols[k], nc)
			}
			o.cols = cols
		} else {
			for k := 0; k < s.len; k++ {
				v := x.elemAt(old, x.i64(s.off+k), "")
				o = x.setElem(o, x.i64(k), "", v)
			}
		}
	}
	for k, v := range vals {
		o = x.setElem(o, x.i64(s.len+k), "", v)
	}
	return SliceV{obj: x.newObj(st, o), len: n, cap: nc}
}

// growArr is a longer copy of v (extra elements are zero).
func (c *Ctx) growArr(v *ArrVer, n int) *ArrVer {
	if !v.pure {
		v = c.flatten(v)
	}
	c.arrID++
	r := *v
	r.id = c.arrID
	r.n = n
	r.memo = nil
	if r.mn > 0 {
		r.mn = 0
	}
	return &r
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeOf(t types.Type) int64 { return stdSizes.Sizeof(t) }

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		i := sort.SearchInts(sizeClasses, n)
		return sizeClasses[i]
	}
	return (n + 8191) &^ 8191
}

func roundCap(n, es int) int {
	if n == 0 {
		return 0
	}
	if n <= 32 && es == 1 {
		return 32
	}
	return roundupsize(n*es) / es
}

func growCap(old, need, es int) int {
	nc := old
	if need > old*2 {
		nc = need
	} else if old < 256 {
		nc = old * 2
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return nc
	}
	return roundupsize(nc*es) / es
}

func (x *Exec) noteWrite(st *State, id int) {
	if x.frozenOn {
		if what, ok := x.frozen[id]; ok {
			x.frozenWrite(st, what)
		}
	}
}

func (x *Exec) frozenWrite(st *State, what string) {
	m := st.wit
	if m == nil {
		res, mm := x.check(st, x.c.True)
		if res == resUnsat {
			return
		}
		if res == resUnknown {
			x.unknowns = append(x.unknowns, "write to frozen object of unknown feasibility")
			return
		}
		m = mm
	}
	pos := ""
	if n := len(x.frames); n > 0 {
		pos = x.frames[n-1].fi.name
	}
	x.report(st, m, "frozen", "write to a shared structure ("+what+") in "+pos, pos)
}

// report records a violation candidate and ends the job.
func (x *Exec) report(st *State, m *Model, kind, msg, pos string) {
	v := &Violation{Msg: msg, Kind: kind, Pos: pos, Model: map[string]uint64{}}
	for _, t := range x.c.vars {
		v.Model[t.name] = m.Eval(t)
	}
	x.viol = v
	panic(stopJob{})
}

func dbg(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
