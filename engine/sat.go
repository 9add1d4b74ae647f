package main

import "sort"

// A small incremental CDCL solver over an and/xor/ite graph.  It answers the
// many tiny feasibility questions of path exploration without a round trip to
// the SMT solver.  Its "satisfiable" answers are checked by evaluating the
// model; its "unsatisfiable" answers are re-decided by the SMT solver for every
// property assertion and for a fixed share of the rest (see Solver.query).

type lit = int32 // 2*node + sign; node 0 is the constant true

const (
	litTrue  lit = 0
	litFalse lit = 1
)

const (
	gInput = iota
	gAnd
	gXor
	gIte
)

type gate struct {
	kind    uint8
	a, b, c lit
}

type gkey struct {
	kind    uint8
	a, b, c lit
}

type graph struct {
	g    []gate
	hash map[gkey]lit
}

func newGraph() *graph {
	return &graph{g: []gate{{kind: gInput}}, hash: map[gkey]lit{}}
}

func (g *graph) input() lit {
	g.g = append(g.g, gate{kind: gInput})
	return lit(2 * (len(g.g) - 1))
}

func (g *graph) mk(k uint8, a, b, c lit) lit {
	key := gkey{k, a, b, c}
	if l, ok := g.hash[key]; ok {
		return l
	}
	g.g = append(g.g, gate{k, a, b, c})
	l := lit(2 * (len(g.g) - 1))
	g.hash[key] = l
	return l
}

func (g *graph) And(a, b lit) lit {
	if a > b {
		a, b = b, a
	}
	switch {
	case a == litTrue:
		return b
	case a == litFalse:
		return litFalse
	case a == b:
		return a
	case a == b^1:
		return litFalse
	}
	return g.mk(gAnd, a, b, 0)
}

func (g *graph) Or(a, b lit) lit { return g.And(a^1, b^1) ^ 1 }

func (g *graph) Xor(a, b lit) lit {
	s := (a ^ b) & 1
	a, b = a&^1, b&^1
	if a > b {
		a, b = b, a
	}
	if a == litTrue {
		return b ^ 1 ^ s
	}
	if a == b {
		return litFalse ^ s
	}
	return g.mk(gXor, a, b, 0) ^ s
}

func (g *graph) Ite(c, a, b lit) lit {
	switch {
	case c == litTrue:
		return a
	case c == litFalse:
		return b
	case a == b:
		return a
	}
	if c&1 == 1 {
		c, a, b = c^1, b, a
	}
	switch {
	case a == litTrue || a == c:
		return g.Or(c, b)
	case a == litFalse || a == c^1:
		return g.And(c^1, b)
	case b == litTrue || b == c^1:
		return g.Or(c^1, a)
	case b == litFalse || b == c:
		return g.And(c, a)
	case a == b^1:
		return g.Xor(c, b)
	}
	var s lit
	if a&1 == 1 {
		a, b, s = a^1, b^1, 1
	}
	return g.mk(gIte, c, a, b) ^ s
}

// ---- bit blasting ----

type blaster struct {
	c    *Ctx
	g    *graph
	memo map[*Term][]lit
	rng  []lit // range constraints of variables, always asserted
	rngv map[*Term]lit
	vars []*Term
	ufs  map[*Term]bool
	ufl  []*Term
	ack  map[[2]*Term]lit
}

func newBlaster(c *Ctx) *blaster {
	return &blaster{c: c, g: newGraph(), memo: map[*Term][]lit{}, rngv: map[*Term]lit{}, ufs: map[*Term]bool{}, ack: map[[2]*Term]lit{}}
}

func constBits(v uint64, w int) []lit {
	r := make([]lit, w)
	for i := range r {
		if v>>uint(i)&1 == 1 {
			r[i] = litTrue
		} else {
			r[i] = litFalse
		}
	}
	return r
}

func (b *blaster) addc(x, y []lit, cin lit) ([]lit, lit) {
	r := make([]lit, len(x))
	g := b.g
	for i := range x {
		s := g.Xor(x[i], y[i])
		r[i] = g.Xor(s, cin)
		cin = g.Ite(s, cin, x[i])
	}
	return r, cin
}

func neg(x []lit) []lit {
	r := make([]lit, len(x))
	for i := range x {
		r[i] = x[i] ^ 1
	}
	return r
}

func (b *blaster) ult(x, y []lit) lit {
	// borrow of x - y
	r := litFalse
	for i := range x {
		r = b.g.Ite(b.g.Xor(x[i], y[i]), y[i], r)
	}
	return r
}

func (b *blaster) eq(x, y []lit) lit {
	r := litTrue
	for i := range x {
		r = b.g.And(r, b.g.Xor(x[i], y[i])^1)
	}
	return r
}

func (b *blaster) mux(c lit, x, y []lit) []lit {
	r := make([]lit, len(x))
	for i := range x {
		r[i] = b.g.Ite(c, x[i], y[i])
	}
	return r
}

func (b *blaster) negate(x []lit) []lit {
	r, _ := b.addc(neg(x), constBits(0, len(x)), litTrue)
	return r
}

func (b *blaster) divrem(x, y []lit) (q, r []lit) {
	w := len(x)
	q = make([]lit, w)
	r = constBits(0, w)
	for i := w - 1; i >= 0; i-- {
		// one extra bit so that the shifted remainder cannot overflow
		sh := append([]lit{x[i]}, r...)
		ye := append(append([]lit{}, y...), litFalse)
		d, c := b.addc(sh, neg(ye), litTrue)
		q[i] = c
		r = b.mux(c, d, sh)[:w]
	}
	return
}

func (b *blaster) shift(x, sh []lit, left bool, fill lit) []lit {
	w := len(x)
	r := x
	big := litFalse
	for i, s := range sh {
		if i >= 7 || 1<<uint(i) >= w {
			big = b.g.Or(big, s)
			continue
		}
		n := make([]lit, w)
		k := 1 << uint(i)
		for j := range n {
			src := j + k
			if left {
				src = j - k
			}
			v := fill
			if src >= 0 && src < w {
				v = r[src]
			}
			n[j] = b.g.Ite(s, v, r[j])
		}
		r = n
	}
	n := make([]lit, w)
	for j := range n {
		n[j] = b.g.Ite(big, fill, r[j])
	}
	return n
}

func (b *blaster) bits(t *Term) []lit {
	if r, ok := b.memo[t]; ok {
		return r
	}
	var r []lit
	g := b.g
	switch t.op {
	case OConst:
		if t.w == 0 {
			r = []lit{litFalse ^ lit(t.val)}
		} else {
			r = constBits(t.val, t.w)
		}
	case OVar:
		n := t.w
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			r = append(r, g.input())
		}
		b.memo[t] = r
		if t.w > 0 {
			c := litTrue
			if t.mn > 0 {
				c = g.And(c, b.ult(r, constBits(t.mn, t.w))^1)
			}
			if t.mx < mask(t.w) {
				c = g.And(c, b.ult(constBits(t.mx, t.w), r)^1)
			}
			if c != litTrue {
				b.rngv[t] = c
			}
		}
		b.vars = append(b.vars, t)
		return r
	case OUF:
		b.bits(t.a)
		if t.b != nil {
			b.bits(t.b)
		}
		for i := 0; i < t.w; i++ {
			r = append(r, g.input())
		}
	case OSelect:
		r = b.bits(b.c.lowerSelect(t))
	case OAdd:
		r, _ = b.addc(b.bits(t.a), b.bits(t.b), litFalse)
	case OSub:
		r, _ = b.addc(b.bits(t.a), neg(b.bits(t.b)), litTrue)
	case ONeg:
		r = b.negate(b.bits(t.a))
	case OMul:
		x, y := b.bits(t.a), b.bits(t.b)
		if t.a.isConst() {
			x, y = y, x
		}
		r = constBits(0, t.w)
		for i := range y {
			if y[i] == litFalse {
				continue
			}
			p := constBits(0, t.w)
			for j := 0; i+j < t.w; j++ {
				p[i+j] = g.And(x[j], y[i])
			}
			r, _ = b.addc(r, p, litFalse)
		}
	case OUDiv, OURem:
		y := b.bits(t.b)
		x := b.bits(t.a)
		q, m := b.divrem(x, y)
		z := b.eq(y, constBits(0, t.w))
		if t.op == OUDiv {
			r = b.mux(z, constBits(mask(t.w), t.w), q)
		} else {
			r = b.mux(z, x, m)
		}
	case OSDiv, OSRem:
		x, y := b.bits(t.a), b.bits(t.b)
		sx, sy := x[t.w-1], y[t.w-1]
		ax, ay := b.mux(sx, b.negate(x), x), b.mux(sy, b.negate(y), y)
		q, m := b.divrem(ax, ay)
		z := b.eq(y, constBits(0, t.w))
		if t.op == OSDiv {
			q = b.mux(z, constBits(mask(t.w), t.w), q)
			r = b.mux(g.Xor(sx, sy), b.negate(q), q)
		} else {
			m = b.mux(z, ax, m)
			r = b.mux(sx, b.negate(m), m)
		}
	case OAnd, OOr, OXor:
		x, y := b.bits(t.a), b.bits(t.b)
		r = make([]lit, t.w)
		for i := range r {
			switch t.op {
			case OAnd:
				r[i] = g.And(x[i], y[i])
			case OOr:
				r[i] = g.Or(x[i], y[i])
			default:
				r[i] = g.Xor(x[i], y[i])
			}
		}
	case ONot, OBNot:
		r = neg(b.bits(t.a))
	case OShl:
		r = b.shift(b.bits(t.a), b.bits(t.b), true, litFalse)
	case OLshr:
		r = b.shift(b.bits(t.a), b.bits(t.b), false, litFalse)
	case OAshr:
		x := b.bits(t.a)
		r = b.shift(x, b.bits(t.b), false, x[t.w-1])
	case OConcat:
		r = append(append([]lit{}, b.bits(t.b)...), b.bits(t.a)...)
	case OExtract:
		hi, lo := int(t.val>>8), int(t.val&255)
		r = b.bits(t.a)[lo : hi+1]
	case OZExt:
		r = append(append([]lit{}, b.bits(t.a)...), constBits(0, t.w-t.a.w)...)
	case OSExt:
		r = append([]lit{}, b.bits(t.a)...)
		for len(r) < t.w {
			r = append(r, r[t.a.w-1])
		}
	case OIte:
		r = b.mux(b.bits(t.a)[0], b.bits(t.b), b.bits(t.c))
	case OBAnd:
		r = []lit{g.And(b.bits(t.a)[0], b.bits(t.b)[0])}
	case OBOr:
		r = []lit{g.Or(b.bits(t.a)[0], b.bits(t.b)[0])}
	case OEq:
		r = []lit{b.eq(b.bits(t.a), b.bits(t.b))}
	case OUlt:
		r = []lit{b.ult(b.bits(t.a), b.bits(t.b))}
	case OUle:
		r = []lit{b.ult(b.bits(t.b), b.bits(t.a)) ^ 1}
	case OSlt, OSle:
		x, y := append([]lit{}, b.bits(t.a)...), append([]lit{}, b.bits(t.b)...)
		n := len(x) - 1
		x[n] ^= 1
		y[n] ^= 1
		if t.op == OSlt {
			r = []lit{b.ult(x, y)}
		} else {
			r = []lit{b.ult(y, x) ^ 1}
		}
	default:
		panic("blast")
	}
	b.memo[t] = r
	return r
}

// ---- CDCL ----

type watch struct {
	c   int32
	blk lit
}

type sat struct {
	g        *graph
	added    []bool // gate clauses present
	arena    []int32
	watches  [][]watch
	val      []int8 // per literal
	level    []int32
	reason   []int32
	trail    []lit
	lim      []int
	qhead    int
	act      []float64
	inc      float64
	phase    []bool
	seen     []bool
	heap     []int32
	hpos     []int32
	stamp    []int32
	cur      int32
	learnts  []int32
	nclauses int
	ncone    int
	unsat    bool
	Confl    int64
	model    []int8
}

func newSat(g *graph) *sat { return &sat{g: g, inc: 1, arena: []int32{0}} }

func (s *sat) grow() {
	n := len(s.g.g)
	for len(s.added) < n {
		s.added = append(s.added, false)
		s.watches = append(s.watches, nil, nil)
		s.val = append(s.val, 0, 0)
		s.level = append(s.level, 0)
		s.reason = append(s.reason, 0)
		s.act = append(s.act, 0)
		s.phase = append(s.phase, false)
		s.seen = append(s.seen, false)
		s.hpos = append(s.hpos, -1)
		s.stamp = append(s.stamp, 0)
	}
	if n > 0 && !s.added[0] {
		s.added[0] = true
		s.enqueue(litTrue, 0)
	}
}

func (s *sat) enqueue(l lit, r int32) {
	s.val[l], s.val[l^1] = 1, -1
	v := l >> 1
	s.level[v] = int32(len(s.lim))
	s.reason[v] = r
	s.trail = append(s.trail, l)
}

// add adds a clause at level 0.
func (s *sat) add(ls ...lit) {
	if s.unsat {
		return
	}
	k := 0
	for _, l := range ls {
		if s.val[l] == 1 {
			return
		}
		if s.val[l] == 0 {
			ls[k] = l
			k++
		}
	}
	ls = ls[:k]
	switch k {
	case 0:
		s.unsat = true
	case 1:
		s.enqueue(ls[0], 0)
	default:
		s.attach(ls)
		s.nclauses++
	}
}

func (s *sat) attach(ls []lit) int32 {
	c := int32(len(s.arena))
	s.arena = append(s.arena, int32(len(ls)))
	s.arena = append(s.arena, ls...)
	s.watches[ls[0]^1] = append(s.watches[ls[0]^1], watch{c, ls[1]})
	s.watches[ls[1]^1] = append(s.watches[ls[1]^1], watch{c, ls[0]})
	return c
}

func (s *sat) lits(c int32) []lit { return s.arena[c+1 : c+1+s.arena[c]] }

func (s *sat) propagate() int32 {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.qhead++
		ws := s.watches[p]
		j := 0
		for i := 0; i < len(ws); i++ {
			w := ws[i]
			if s.val[w.blk] == 1 {
				ws[j] = w
				j++
				continue
			}
			ls := s.lits(w.c)
			np := p ^ 1
			if ls[0] == np {
				ls[0], ls[1] = ls[1], ls[0]
			}
			first := ls[0]
			if first != w.blk && s.val[first] == 1 {
				ws[j] = watch{w.c, first}
				j++
				continue
			}
			found := false
			for k := 2; k < len(ls); k++ {
				if s.val[ls[k]] != -1 {
					ls[1], ls[k] = ls[k], ls[1]
					s.watches[ls[1]^1] = append(s.watches[ls[1]^1], watch{w.c, first})
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = watch{w.c, first}
			j++
			if s.val[first] == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[p] = ws[:j]
				s.qhead = len(s.trail)
				return w.c
			}
			s.enqueue(first, w.c)
		}
		s.watches[p] = ws[:j]
	}
	return 0
}

func (s *sat) cancel(lv int) {
	if len(s.lim) <= lv {
		return
	}
	n := s.lim[lv]
	for i := len(s.trail) - 1; i >= n; i-- {
		l := s.trail[i]
		v := l >> 1
		s.val[l], s.val[l^1] = 0, 0
		s.phase[v] = l&1 == 0
		if s.stamp[v] == s.cur && s.hpos[v] < 0 {
			s.hinsert(v)
		}
	}
	s.trail = s.trail[:n]
	s.lim = s.lim[:lv]
	s.qhead = n
}

func (s *sat) hless(a, b int32) bool { return s.act[a] > s.act[b] }
func (s *sat) hup(i int) {
	v := s.heap[i]
	for i > 0 {
		p := (i - 1) / 2
		if !s.hless(v, s.heap[p]) {
			break
		}
		s.heap[i] = s.heap[p]
		s.hpos[s.heap[i]] = int32(i)
		i = p
	}
	s.heap[i] = v
	s.hpos[v] = int32(i)
}
func (s *sat) hdown(i int) {
	v := s.heap[i]
	for {
		c := 2*i + 1
		if c >= len(s.heap) {
			break
		}
		if c+1 < len(s.heap) && s.hless(s.heap[c+1], s.heap[c]) {
			c++
		}
		if !s.hless(s.heap[c], v) {
			break
		}
		s.heap[i] = s.heap[c]
		s.hpos[s.heap[i]] = int32(i)
		i = c
	}
	s.heap[i] = v
	s.hpos[v] = int32(i)
}
func (s *sat) hinsert(v int32) {
	s.heap = append(s.heap, v)
	s.hpos[v] = int32(len(s.heap) - 1)
	s.hup(len(s.heap) - 1)
}
func (s *sat) hpop() int32 {
	v := s.heap[0]
	s.hpos[v] = -1
	l := s.heap[len(s.heap)-1]
	s.heap = s.heap[:len(s.heap)-1]
	if len(s.heap) > 0 {
		s.heap[0] = l
		s.hpos[l] = 0
		s.hdown(0)
	}
	return v
}

func (s *sat) bump(v int32) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.hpos[v] >= 0 {
		s.hup(int(s.hpos[v]))
	}
}

func (s *sat) analyze(confl int32) ([]lit, int) {
	out := []lit{0}
	cnt := 0
	p := lit(-1)
	idx := len(s.trail) - 1
	lv := int32(len(s.lim))
	var toClear []int32
	for {
		for _, q := range s.lits(confl) {
			if q == p {
				continue
			}
			v := q >> 1
			if !s.seen[v] && s.level[v] > 0 {
				s.seen[v] = true
				toClear = append(toClear, v)
				s.bump(v)
				if s.level[v] >= lv {
					cnt++
				} else {
					out = append(out, q)
				}
			}
		}
		for !s.seen[s.trail[idx]>>1] {
			idx--
		}
		p = s.trail[idx]
		idx--
		confl = s.reason[p>>1]
		s.seen[p>>1] = false
		cnt--
		if cnt == 0 {
			break
		}
	}
	out[0] = p ^ 1
	// local minimisation
	k := 1
	for _, q := range out[1:] {
		r := s.reason[q>>1]
		keep := r == 0
		if !keep {
			for _, x := range s.lits(r) {
				if x>>1 != q>>1 && !s.seen[x>>1] && s.level[x>>1] > 0 {
					keep = true
					break
				}
			}
		}
		if keep {
			out[k] = q
			k++
		}
	}
	out = out[:k]
	for _, v := range toClear {
		s.seen[v] = false
	}
	bt := 0
	if len(out) > 1 {
		m := 1
		for i := 2; i < len(out); i++ {
			if s.level[out[i]>>1] > s.level[out[m]>>1] {
				m = i
			}
		}
		out[1], out[m] = out[m], out[1]
		bt = int(s.level[out[1]>>1])
	}
	return out, bt
}

// cone adds the clauses of every gate below the roots and returns its nodes.
func (s *sat) cone(roots []lit) []int32 {
	s.grow()
	s.cur++
	var nodes []int32
	stack := make([]int32, 0, 64)
	push := func(l lit) {
		v := l >> 1
		if v != 0 && s.stamp[v] != s.cur {
			s.stamp[v] = s.cur
			nodes = append(nodes, v)
			stack = append(stack, v)
		}
	}
	for _, r := range roots {
		push(r)
	}
	for len(stack) > 0 {
		v := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		g := s.g.g[v]
		switch g.kind {
		case gAnd, gXor:
			push(g.a)
			push(g.b)
		case gIte:
			push(g.a)
			push(g.b)
			push(g.c)
		}
		if s.added[v] {
			continue
		}
		s.added[v] = true
		o := v * 2
		switch g.kind {
		case gAnd:
			s.add(o^1, g.a)
			s.add(o^1, g.b)
			s.add(o, g.a^1, g.b^1)
		case gXor:
			s.add(o^1, g.a, g.b)
			s.add(o^1, g.a^1, g.b^1)
			s.add(o, g.a^1, g.b)
			s.add(o, g.a, g.b^1)
		case gIte:
			s.add(o^1, g.a^1, g.b)
			s.add(o, g.a^1, g.b^1)
			s.add(o^1, g.a, g.c)
			s.add(o, g.a, g.c^1)
			s.add(o^1, g.b, g.c)
			s.add(o, g.b^1, g.c^1)
		}
	}
	return nodes
}

func (s *sat) reduce() {
	if len(s.learnts) < 20000 {
		return
	}
	// keep short and recent clauses
	ls := s.learnts
	half := len(ls) / 2
	drop := map[int32]bool{}
	sorted := append([]int32{}, ls[:half]...)
	sort.Slice(sorted, func(i, j int) bool { return s.arena[sorted[i]] > s.arena[sorted[j]] })
	for _, c := range sorted {
		if s.arena[c] <= 3 {
			break
		}
		lk := false
		for _, l := range s.lits(c) {
			if s.reason[l>>1] == c && s.val[l] == 1 {
				lk = true
			}
		}
		if !lk {
			drop[c] = true
		}
	}
	for i := range s.watches {
		ws := s.watches[i]
		j := 0
		for _, w := range ws {
			if !drop[w.c] {
				ws[j] = w
				j++
			}
		}
		s.watches[i] = ws[:j]
	}
	k := 0
	for _, c := range ls {
		if !drop[c] {
			ls[k] = c
			k++
		}
	}
	s.learnts = ls[:k]
}

func luby(i int) int {
	for k := 1; ; k++ {
		if i == (1<<uint(k))-1 {
			return 1 << uint(k-1)
		}
		if i < (1<<uint(k))-1 {
			return luby(i - (1 << uint(k-1)) + 1)
		}
	}
}

// solve decides the conjunction of the assumptions: 1 sat, 0 unsat, -1 unknown.
func (s *sat) solve(assump []lit, budget int64) int {
	nodes := s.cone(assump)
	s.ncone = len(nodes)
	if s.unsat {
		return 0
	}
	s.heap = s.heap[:0]
	for _, v := range nodes {
		if s.val[2*v] == 0 {
			s.hpos[v] = int32(len(s.heap))
			s.heap = append(s.heap, v)
		} else {
			s.hpos[v] = -1
		}
	}
	for i := len(s.heap)/2 - 1; i >= 0; i-- {
		s.hdown(i)
	}
	defer func() {
		s.cancel(0)
		for _, v := range s.heap {
			s.hpos[v] = -1
		}
		s.heap = s.heap[:0]
	}()
	if s.propagate() != 0 {
		s.unsat = true
		return 0
	}
	start := s.Confl
	for run := 1; ; run++ {
		lim := s.Confl + int64(luby(run))*100
		for {
			c := s.propagate()
			if c != 0 {
				s.Confl++
				if len(s.lim) == 0 {
					s.unsat = true
					return 0
				}
				out, bt := s.analyze(c)
				s.cancel(bt)
				if len(out) == 1 {
					s.enqueue(out[0], 0)
				} else {
					cr := s.attach(out)
					s.learnts = append(s.learnts, cr)
					s.enqueue(out[0], cr)
				}
				s.inc *= 1 / 0.95
				if s.Confl-start > budget {
					return -1
				}
				continue
			}
			if s.Confl >= lim {
				s.cancel(0)
				s.reduce()
				break
			}
			// assumptions first
			next := lit(-1)
			for len(s.lim) < len(assump) {
				a := assump[len(s.lim)]
				if s.val[a] == 1 {
					s.lim = append(s.lim, len(s.trail))
					continue
				}
				if s.val[a] == -1 {
					return 0
				}
				next = a
				break
			}
			if next < 0 {
				for len(s.heap) > 0 {
					v := s.hpop()
					if s.val[2*v] == 0 {
						next = 2 * v
						if !s.phase[v] {
							next++
						}
						break
					}
				}
				if next < 0 {
					s.model = append(s.model[:0], s.val...)
					return 1
				}
			}
			s.lim = append(s.lim, len(s.trail))
			s.enqueue(next, 0)
		}
	}
}
