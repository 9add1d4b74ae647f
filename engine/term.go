package main

import (
	"fmt"
	"math/bits"
	"sort"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	OUF // uninterpreted function application (name, args)
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZExt
	OSExt
	OIte
	OSelect
	OBNot
	OBAnd
	OBOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
)

// Term is a hash-consed bit-vector (w>0) or boolean (w==0) term.
type Term struct {
	op     Op
	w      int
	id     int
	val    uint64 // OConst value; OExtract: hi<<8|lo
	a, b   *Term
	c      *Term
	name   string
	arr    *ArrVer
	mn, mx uint64 // unsigned range (BV only)
}

type tkey struct {
	op      Op
	w       int
	val     uint64
	a, b, c int
	name    string
}

// Ctx owns the terms of one job. It is not safe for concurrent use.
type Ctx struct {
	tab    map[tkey]*Term
	nextID int
	vars   []*Term
	arrID  int
	True   *Term
	False  *Term
	selLow map[*Term]*Term
	extr   map[[2]int]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, selLow: map[*Term]*Term{}, extr: map[[2]int]*Term{}}
	c.False = c.mk(Term{op: OConst, w: 0, val: 0})
	c.True = c.mk(Term{op: OConst, w: 0, val: 1})
	return c
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) mk(t Term) *Term {
	k := tkey{t.op, t.w, t.val, tid(t.a), tid(t.b), tid(t.c), t.name}
	if t.arr != nil {
		k.val = uint64(t.arr.id)
	}
	if r, ok := c.tab[k]; ok {
		return r
	}
	n := new(Term)
	*n = t
	n.id = c.nextID
	c.nextID++
	if n.w > 0 && n.op != OVar {
		c.setRange(n)
	}
	c.tab[k] = n
	return n
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func (c *Ctx) Const(v uint64, w int) *Term {
	return c.mk(Term{op: OConst, w: w, val: v & mask(w)})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var creates a fresh variable; mn/mx is its declared range (an assumption).
func (c *Ctx) Var(name string, w int, mn, mx uint64) *Term {
	if w == 0 {
		t := c.mk(Term{op: OVar, w: 0, name: name})
		c.addVar(t)
		return t
	}
	if mn == mx {
		return c.Const(mn, w)
	}
	k := tkey{op: OVar, w: w, a: -1, b: -1, c: -1, name: name}
	if r, ok := c.tab[k]; ok {
		if r.mn != mn || r.mx != mx {
			panic("variable redeclared with another range: " + name)
		}
		return r
	}
	t := c.mk(Term{op: OVar, w: w, name: name, mn: mn, mx: mx})
	c.addVar(t)
	return t
}

func (c *Ctx) addVar(t *Term) {
	for _, v := range c.vars {
		if v == t {
			return
		}
	}
	c.vars = append(c.vars, t)
}

func (c *Ctx) UF(name string, w int, a, b *Term) *Term {
	return c.mk(Term{op: OUF, w: w, name: name, a: a, b: b})
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func minu(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxu(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

func (c *Ctx) setRange(t *Term) {
	m := mask(t.w)
	t.mn, t.mx = 0, m
	a, b := t.a, t.b
	switch t.op {
	case OConst:
		t.mn, t.mx = t.val, t.val
	case OAdd:
		lo, c1 := bits.Add64(a.mn, b.mn, 0)
		hi, c2 := bits.Add64(a.mx, b.mx, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			t.mn, t.mx = lo, hi
		} else if b.isConst() && b.val > m/2 { // adding a negative constant
			k := (m - b.val) + 1
			if a.mn >= k {
				t.mn, t.mx = a.mn-k, a.mx-k
			}
		}
	case OSub:
		if a.mn >= b.mx {
			t.mn, t.mx = a.mn-b.mx, a.mx-b.mn
		}
	case OMul:
		h, l := bits.Mul64(a.mx, b.mx)
		if h == 0 && l <= m {
			t.mn, t.mx = a.mn*b.mn, l
		}
	case OUDiv:
		if b.mn > 0 {
			t.mn, t.mx = a.mn/b.mx, a.mx/b.mn
		}
	case OURem:
		if b.mn > 0 {
			t.mx = minu(a.mx, b.mx-1)
			if a.mx < b.mn {
				t.mn, t.mx = a.mn, a.mx
			}
		}
	case OAnd:
		t.mx = minu(a.mx, b.mx)
	case OOr:
		t.mn = maxu(a.mn, b.mn)
		n := bits.Len64(a.mx | b.mx)
		t.mx = mask(n) & m
	case OXor:
		n := bits.Len64(a.mx | b.mx)
		t.mx = mask(n) & m
	case OShl:
		if b.isConst() && b.val < 64 && bits.Len64(a.mx)+int(b.val) <= t.w {
			t.mn, t.mx = a.mn<<b.val, a.mx<<b.val
		}
	case OLshr:
		if b.mn < 64 {
			t.mx = a.mx >> b.mn
		} else {
			t.mx = 0
		}
	case OConcat:
		t.mn = a.mn<<uint(b.w) | b.mn
		t.mx = a.mx<<uint(b.w) | b.mx
		if a.mn != a.mx {
			t.mn = a.mn << uint(b.w)
			t.mx = a.mx<<uint(b.w) | mask(b.w)
			if a.mn < a.mx {
				t.mn = a.mn<<uint(b.w) | b.mn
				t.mx = a.mx<<uint(b.w) | b.mx
			}
		}
	case OExtract:
		hi, lo := int(t.val>>8), int(t.val&255)
		if lo == 0 {
			if a.mx <= mask(hi+1) {
				t.mn, t.mx = a.mn, a.mx
			}
		} else if a.mx <= mask(hi+1) {
			t.mn, t.mx = a.mn>>uint(lo), a.mx>>uint(lo)
		}
	case OZExt:
		t.mn, t.mx = a.mn, a.mx
	case OSExt:
		if a.mx <= mask(a.w-1) {
			t.mn, t.mx = a.mn, a.mx
		}
	case OIte:
		t.mn, t.mx = minu(b.mn, t.c.mn), maxu(b.mx, t.c.mx)
	case OSelect:
		t.mn, t.mx = t.arr.mn, t.arr.mx
	}
}

// ---- constructors with simplification ----

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	switch t.op {
	case OIte, OAnd, OOr, OXor, ONot, OAdd, OSub, OMul:
		k := [2]int{t.id, hi<<8 | lo}
		if r, ok := c.extr[k]; ok {
			return r
		}
		r := c.extract(t, hi, lo)
		c.extr[k] = r
		return r
	}
	return c.extract(t, hi, lo)
}

func (c *Ctx) extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo < 64 && t.mx>>uint(lo) == t.mn>>uint(lo) && t.op != OConst {
		// all bits from lo upward are constant
		return c.Const(t.mx>>uint(lo), w)
	}
	switch t.op {
	case OConst:
		return c.Const(t.val>>uint(lo), w)
	case OExtract:
		l := int(t.val & 255)
		return c.Extract(t.a, hi+l, lo+l)
	case OConcat:
		bw := t.b.w
		if lo >= bw {
			return c.Extract(t.a, hi-bw, lo-bw)
		}
		if hi < bw {
			return c.Extract(t.b, hi, lo)
		}
		return c.Concat(c.Extract(t.a, hi-bw, 0), c.Extract(t.b, bw-1, lo))
	case OZExt:
		aw := t.a.w
		if lo >= aw {
			return c.Const(0, w)
		}
		if hi < aw {
			return c.Extract(t.a, hi, lo)
		}
		return c.ZExt(c.Extract(t.a, aw-1, lo), w)
	case OSExt:
		if hi < t.a.w {
			return c.Extract(t.a, hi, lo)
		}
		if lo == 0 && w > t.a.w {
			return c.SExt(t.a, w)
		}
	case OIte:
		return c.Ite(t.a, c.Extract(t.b, hi, lo), c.Extract(t.c, hi, lo))
	case OAnd:
		return c.And(c.Extract(t.a, hi, lo), c.Extract(t.b, hi, lo))
	case OOr:
		return c.Or(c.Extract(t.a, hi, lo), c.Extract(t.b, hi, lo))
	case OXor:
		return c.Xor(c.Extract(t.a, hi, lo), c.Extract(t.b, hi, lo))
	case ONot:
		return c.Not(c.Extract(t.a, hi, lo))
	case OAdd:
		if lo == 0 {
			return c.Add(c.Extract(t.a, hi, 0), c.Extract(t.b, hi, 0))
		}
	case OSub:
		if lo == 0 {
			return c.Sub(c.Extract(t.a, hi, 0), c.Extract(t.b, hi, 0))
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(t.a, hi, 0), c.Extract(t.b, hi, 0))
		}
	}
	// narrow: high bits known zero
	if t.mx <= mask(hi) && hi >= lo {
		n := bits.Len64(t.mx)
		if n <= lo {
			return c.Const(0, w)
		}
		if n-1 < hi {
			return c.ZExt(c.Extract(t, n-1, lo), w)
		}
	}
	return c.mk(Term{op: OExtract, w: w, val: uint64(hi)<<8 | uint64(lo), a: t})
}

func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return c.Const(a.val<<uint(b.w)|b.val, w)
	}
	if a.isConst() && a.val == 0 {
		return c.ZExt(b, w)
	}
	// merge adjacent extracts
	if a.op == OExtract && b.op == OExtract && a.a == b.a && int(a.val&255) == int(b.val>>8)+1 {
		return c.Extract(a.a, int(a.val>>8), int(b.val&255))
	}
	if a.op == OExtract && int(a.val&255) == b.w && a.a == b {
		// cannot happen: widths differ
	}
	if b.op == OConcat {
		// left-associate: a ++ (x ++ y) = (a ++ x) ++ y
		return c.Concat(c.Concat(a, b.a), b.b)
	}
	if a.op == OConcat {
		// try to merge a.b with b
		if a.b.op == OExtract && b.op == OExtract && a.b.a == b.a && int(a.b.val&255) == int(b.val>>8)+1 {
			return c.Concat(a.a, c.Extract(b.a, int(a.b.val>>8), int(b.val&255)))
		}
		if a.b.isConst() && b.isConst() {
			return c.Concat(a.a, c.Const(a.b.val<<uint(b.w)|b.val, a.b.w+b.w))
		}
	}
	if a.op == OZExt {
		return c.ZExt(c.Concat(a.a, b), w)
	}
	return c.mk(Term{op: OConcat, w: w, a: a, b: b})
}

func (c *Ctx) ZExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return c.Const(t.val, w)
	}
	if t.op == OZExt {
		return c.ZExt(t.a, w)
	}
	if t.op == OIte && t.b.isConst() && t.c.isConst() {
		return c.Ite(t.a, c.Const(t.b.val, w), c.Const(t.c.val, w))
	}
	return c.mk(Term{op: OZExt, w: w, a: t})
}

func (c *Ctx) SExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return c.Const(uint64(sx(t.val, t.w)), w)
	}
	if t.mx <= mask(t.w-1) {
		return c.ZExt(t, w)
	}
	if t.op == OSExt {
		return c.SExt(t.a, w)
	}
	return c.mk(Term{op: OSExt, w: w, a: t})
}

// segments, low to high
type seg struct {
	t *Term
}

func (c *Ctx) segs(t *Term, out []*Term) []*Term {
	switch t.op {
	case OConcat:
		out = c.segs(t.b, out)
		return c.segs(t.a, out)
	case OZExt:
		out = c.segs(t.a, out)
		return append(out, c.Const(0, t.w-t.a.w))
	}
	return append(out, t)
}

func segmentable(t *Term) bool { return t.op == OConcat || t.op == OZExt }

func (c *Ctx) bitwiseSegs(a, b *Term, f func(x, y *Term) *Term) *Term {
	sa, sb := c.segs(a, nil), c.segs(b, nil)
	if len(sa)+len(sb) > 12 {
		return nil
	}
	var parts []*Term
	for len(sa) > 0 {
		x, y := sa[0], sb[0]
		if x.w == y.w {
			parts = append(parts, f(x, y))
			sa, sb = sa[1:], sb[1:]
		} else if x.w < y.w {
			parts = append(parts, f(x, c.Extract(y, x.w-1, 0)))
			sa = sa[1:]
			sb = append(c.segs(c.Extract(y, y.w-1, x.w), nil), sb[1:]...)
		} else {
			parts = append(parts, f(c.Extract(x, y.w-1, 0), y))
			sb = sb[1:]
			sa = append(c.segs(c.Extract(x, x.w-1, y.w), nil), sa[1:]...)
		}
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = c.Concat(p, r)
	}
	return r
}

func (c *Ctx) And(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(a.val&b.val, w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(w) {
			return a
		}
		// split mask into runs
		runs := 0
		for v, i := b.val, 0; i < w; {
			_ = v
			bit := (b.val >> uint(i)) & 1
			j := i
			for j < w && (b.val>>uint(j))&1 == bit {
				j++
			}
			runs++
			i = j
		}
		if runs <= 5 {
			var r *Term
			for i := 0; i < w; {
				bit := (b.val >> uint(i)) & 1
				j := i
				for j < w && (b.val>>uint(j))&1 == bit {
					j++
				}
				var p *Term
				if bit == 1 {
					p = c.Extract(a, j-1, i)
				} else {
					p = c.Const(0, j-i)
				}
				if r == nil {
					r = p
				} else {
					r = c.Concat(p, r)
				}
				i = j
			}
			return r
		}
		if a.op == OAnd && a.b.isConst() {
			return c.And(a.a, c.Const(a.b.val&b.val, w))
		}
	}
	if segmentable(a) || segmentable(b) {
		if r := c.bitwiseSegs(a, b, c.And); r != nil {
			return r
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OAnd, w: w, a: a, b: b})
}

func (c *Ctx) Or(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(a.val|b.val, w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(w) {
			return b
		}
		if w > 1 {
			// split constant into runs so that set bits become constants
			runs := 0
			for i := 0; i < w; {
				bit := (b.val >> uint(i)) & 1
				j := i
				for j < w && (b.val>>uint(j))&1 == bit {
					j++
				}
				runs++
				i = j
			}
			if runs <= 5 {
				var r *Term
				for i := 0; i < w; {
					bit := (b.val >> uint(i)) & 1
					j := i
					for j < w && (b.val>>uint(j))&1 == bit {
						j++
					}
					var p *Term
					if bit == 1 {
						p = c.Const(mask(j-i), j-i)
					} else {
						p = c.Extract(a, j-1, i)
					}
					if r == nil {
						r = p
					} else {
						r = c.Concat(p, r)
					}
					i = j
				}
				return r
			}
		}
	}
	if segmentable(a) || segmentable(b) {
		if r := c.bitwiseSegs(a, b, c.Or); r != nil {
			return r
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OOr, w: w, a: a, b: b})
}

func xorLeaves(t *Term, m map[*Term]bool, k *uint64) {
	if t.op == OXor {
		xorLeaves(t.a, m, k)
		xorLeaves(t.b, m, k)
		return
	}
	if t.isConst() {
		*k ^= t.val
		return
	}
	if m[t] {
		delete(m, t)
	} else {
		m[t] = true
	}
}

func (c *Ctx) Xor(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(a.val^b.val, w)
	}
	if a == b {
		return c.Const(0, w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(w) {
			return c.Not(a)
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Const(a.b.val^b.val, w), c.Const(a.c.val^b.val, w))
		}
	}
	if segmentable(a) || segmentable(b) {
		if r := c.bitwiseSegs(a, b, c.Xor); r != nil {
			return r
		}
	}
	if a.op == OXor || b.op == OXor {
		m := map[*Term]bool{}
		var k uint64
		xorLeaves(a, m, &k)
		xorLeaves(b, m, &k)
		var ls []*Term
		for t := range m {
			ls = append(ls, t)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		if len(ls) == 0 {
			return c.Const(k, w)
		}
		r := ls[0]
		for _, t := range ls[1:] {
			r = c.mk(Term{op: OXor, w: w, a: r, b: t})
		}
		if k != 0 {
			r = c.mk(Term{op: OXor, w: w, a: r, b: c.Const(k, w)})
		}
		return r
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OXor, w: w, a: a, b: b})
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Const(^a.val, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(Term{op: ONot, w: a.w, a: a})
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.Const(-a.val, a.w)
	}
	return c.mk(Term{op: ONeg, w: a.w, a: a})
}

func (c *Ctx) Add(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(a.val+b.val, w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return c.Add(a.a, c.Const(a.b.val+b.val, w))
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Add(a.b, b), c.Add(a.c, b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OAdd, w: w, a: a, b: b})
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(0, a.w)
	}
	if b.isConst() {
		return c.Add(a, c.Const(-b.val, a.w))
	}
	if a.op == OAdd && a.a == b {
		return a.b
	}
	if a.op == OAdd && a.b == b {
		return a.a
	}
	return c.mk(Term{op: OSub, w: a.w, a: a, b: b})
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.val*b.val, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return c.Shl(a, c.Const(uint64(bits.TrailingZeros64(b.val)), a.w))
		}
	}
	return c.mk(Term{op: OMul, w: a.w, a: a, b: b})
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.Const(a.val/b.val, a.w)
		}
		if b.val&(b.val-1) == 0 {
			return c.Lshr(a, c.Const(uint64(bits.TrailingZeros64(b.val)), a.w))
		}
	}
	return c.mk(Term{op: OUDiv, w: a.w, a: a, b: b})
}

func (c *Ctx) URem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.Const(a.val%b.val, a.w)
		}
		if b.val&(b.val-1) == 0 {
			return c.And(a, c.Const(b.val-1, a.w))
		}
		if a.mx < b.val {
			return a
		}
	}
	return c.mk(Term{op: OURem, w: a.w, a: a, b: b})
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sx(a.val, w), sx(b.val, w)
		if y == -1 {
			return c.Const(uint64(-x), w)
		}
		return c.Const(uint64(x/y), w)
	}
	if a.mx <= mask(w-1) && b.mx <= mask(w-1) {
		return c.UDiv(a, b)
	}
	return c.mk(Term{op: OSDiv, w: w, a: a, b: b})
}

func (c *Ctx) SRem(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sx(a.val, w), sx(b.val, w)
		if y == -1 {
			return c.Const(0, w)
		}
		return c.Const(uint64(x%y), w)
	}
	if a.mx <= mask(w-1) && b.mx <= mask(w-1) {
		return c.URem(a, b)
	}
	return c.mk(Term{op: OSRem, w: w, a: a, b: b})
}

// unknownBit returns the single non-constant bit of t, if there is just one.
func (c *Ctx) unknownBit(t *Term) (bit *Term, pos int, base uint64, ok bool) {
	s := c.segs(t, nil)
	off := 0
	for _, x := range s {
		if x.isConst() {
			base |= x.val << uint(off)
		} else if x.w == 1 && bit == nil {
			bit, pos = x, off
		} else {
			return nil, 0, 0, false
		}
		off += x.w
	}
	return bit, pos, base, bit != nil
}

func (c *Ctx) shiftCases(a, b *Term, f func(a, b *Term) *Term) *Term {
	if b.op == OIte && b.b.isConst() && b.c.isConst() {
		return c.Ite(b.a, f(a, b.b), f(a, b.c))
	}
	if bit, pos, base, ok := c.unknownBit(b); ok {
		one := c.Eq(bit, c.Const(1, 1))
		return c.Ite(one, f(a, c.Const(base|1<<uint(pos), b.w)), f(a, c.Const(base, b.w)))
	}
	return nil
}

// Shifts: b has the same width as a (caller adjusts); amounts >= w give 0 (or sign fill).
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return c.Const(0, w)
		}
		k := int(b.val)
		return c.Concat(c.Extract(a, w-1-k, 0), c.Const(0, k))
	}
	if r := c.shiftCases(a, b, c.Shl); r != nil {
		return r
	}
	return c.mk(Term{op: OShl, w: w, a: a, b: b})
}

func (c *Ctx) Lshr(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return c.Const(0, w)
		}
		return c.ZExt(c.Extract(a, w-1, int(b.val)), w)
	}
	if r := c.shiftCases(a, b, c.Lshr); r != nil {
		return r
	}
	return c.mk(Term{op: OLshr, w: w, a: a, b: b})
}

func (c *Ctx) Ashr(a, b *Term) *Term {
	w := a.w
	if a.mx <= mask(w-1) {
		return c.Lshr(a, b)
	}
	if b.isConst() {
		k := b.val
		if k == 0 {
			return a
		}
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		return c.SExt(c.Extract(a, w-1, int(k)), w)
	}
	return c.mk(Term{op: OAshr, w: w, a: a, b: b})
}

// ---- booleans ----

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	if a.op == OUlt { // !(a<b) == b<=a
		return c.mk(Term{op: OUle, a: a.b, b: a.a})
	}
	if a.op == OUle {
		return c.mk(Term{op: OUlt, a: a.b, b: a.a})
	}
	if a.op == OSlt {
		return c.mk(Term{op: OSle, a: a.b, b: a.a})
	}
	if a.op == OSle {
		return c.mk(Term{op: OSlt, a: a.b, b: a.a})
	}
	return c.mk(Term{op: OBNot, a: a})
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.False
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if c.BNot(a) == b {
		return c.False
	}
	// absorption / contradiction one level down
	if b.op == OBAnd {
		if b.a == a || b.b == a {
			return b
		}
		if c.BNot(b.a) == a || c.BNot(b.b) == a {
			return c.False
		}
	}
	if a.op == OBAnd {
		if a.a == b || a.b == b {
			return a
		}
		if c.BNot(a.a) == b || c.BNot(a.b) == b {
			return c.False
		}
	}
	if a.op == OBOr && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OBOr && (b.a == a || b.b == a) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OBAnd, a: a, b: b})
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.True
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if c.BNot(a) == b {
		return c.True
	}
	if a.op == OBAnd && b.op == OBAnd {
		// (x&y) | (x&!y) = x
		for _, p := range [][2]*Term{{a.a, a.b}, {a.b, a.a}} {
			for _, q := range [][2]*Term{{b.a, b.b}, {b.b, b.a}} {
				if p[0] == q[0] && c.BNot(p[1]) == q[1] {
					return p[0]
				}
			}
		}
	}
	if a.op == OBAnd { // (!b & x) | b = x | b
		if a.a == b || a.b == b {
			return b
		}
		nb := c.BNot(b)
		if a.a == nb {
			return c.BOr(a.b, b)
		}
		if a.b == nb {
			return c.BOr(a.a, b)
		}
	}
	if b.op == OBAnd {
		if b.a == a || b.b == a {
			return a
		}
		na := c.BNot(a)
		if b.a == na {
			return c.BOr(b.b, a)
		}
		if b.b == na {
			return c.BOr(b.a, a)
		}
	}
	if a.op == OBOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OBOr && (b.a == a || b.b == a) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OBOr, a: a, b: b})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if cond.op == OBNot {
		return c.Ite(cond.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.BOr(cond, b)
		}
		if a.isFalse() {
			return c.BAnd(c.BNot(cond), b)
		}
		if b.isTrue() {
			return c.BOr(c.BNot(cond), a)
		}
		if b.isFalse() {
			return c.BAnd(cond, a)
		}
		return c.mk(Term{op: OIte, a: cond, b: a, c: b})
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == OIte && b.b == a {
		return c.Ite(c.BOr(cond, b.a), a, b.c)
	}
	// narrow common structure
	if a.w > 1 {
		if a.op == OZExt || b.op == OZExt {
			na, nb := bits.Len64(a.mx), bits.Len64(b.mx)
			n := na
			if nb > n {
				n = nb
			}
			if n == 0 {
				n = 1
			}
			if n < a.w {
				return c.ZExt(c.Ite(cond, c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.w)
			}
		}
	}
	return c.mk(Term{op: OIte, w: a.w, a: cond, b: a, c: b})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.BNot(a)
		}
		if a == c.BNot(b) {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(Term{op: OEq, a: a, b: b})
	}
	if a.mx < b.mn || b.mx < a.mn {
		return c.False
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OXor:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.b.val^b.val, a.w))
			}
		case ONot:
			return c.Eq(a.a, c.Const(^b.val, a.w))
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(b.val-a.b.val, a.w))
			}
		case OSExt:
			lowv := b.val & mask(a.a.w)
			if uint64(sx(lowv, a.a.w))&mask(a.w) != b.val {
				return c.False
			}
			return c.Eq(a.a, c.Const(lowv, a.a.w))
		}
	}
	if segmentable(a) || segmentable(b) {
		sa, sb := c.segs(a, nil), c.segs(b, nil)
		if len(sa)+len(sb) <= 12 {
			r := c.True
			for len(sa) > 0 {
				x, y := sa[0], sb[0]
				if x.w == y.w {
					r = c.BAnd(r, c.Eq(x, y))
					sa, sb = sa[1:], sb[1:]
				} else if x.w < y.w {
					r = c.BAnd(r, c.Eq(x, c.Extract(y, x.w-1, 0)))
					sa = sa[1:]
					sb = append(c.segs(c.Extract(y, y.w-1, x.w), nil), sb[1:]...)
				} else {
					r = c.BAnd(r, c.Eq(c.Extract(x, y.w-1, 0), y))
					sb = sb[1:]
					sa = append(c.segs(c.Extract(x, x.w-1, y.w), nil), sa[1:]...)
				}
			}
			return r
		}
	}
	if (a.op == OXor || b.op == OXor) && !b.isConst() {
		x := c.Xor(a, b)
		if x.isConst() {
			return c.Bool(x.val == 0)
		}
		if x.op != OXor {
			return c.Eq(x, c.Const(0, x.w))
		}
		if x.b.isConst() {
			if x.a.op != OXor {
				return c.Eq(x.a, x.b)
			}
			// p ^ q ^ k == 0  <=>  p ^ q == k ; keep canonical
			return c.mk(Term{op: OEq, a: x.a, b: x.b})
		}
		if x.a.op != OXor {
			a, b = x.a, x.b
			if a.mx < b.mn || b.mx < a.mn {
				return c.False
			}
			if a.id > b.id {
				a, b = b, a
			}
			return c.mk(Term{op: OEq, a: a, b: b})
		}
		return c.mk(Term{op: OEq, a: x, b: c.Const(0, x.w)})
	}
	if a.op == OAdd && b.op == OAdd {
		if a.b.isConst() && b.b.isConst() {
			if a.a == b.a {
				return c.Bool(a.b.val == b.b.val)
			}
		}
	}
	if a.op == OAdd && a.b.isConst() && a.a == b || b.op == OAdd && b.b.isConst() && b.a == a {
		return c.False // x+k == x with k != 0 (k==0 simplified away)
	}
	if a.w == 1 {
		if b.isConst() && b.val == 0 {
			return c.BNot(c.Eq(a, c.Const(1, 1)))
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OEq, a: a, b: b})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.mx < b.mn {
		return c.True
	}
	if a.mn >= b.mx {
		return c.False
	}
	if b.isConst() && b.val == 1 {
		return c.Eq(a, c.Const(0, a.w))
	}
	if b.isConst() && b.val == mask(b.w) {
		return c.BNot(c.Eq(a, b))
	}
	if a.isConst() && a.val == 0 {
		return c.BNot(c.Eq(b, a))
	}
	if n, ok := narrow(a, b); ok {
		return c.Ult(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0))
	}
	if a.op == OIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return c.Ite(a.a, c.Ult(a.b, b), c.Ult(a.c, b))
	}
	if b.op == OIte && a.isConst() && (b.b.isConst() || b.c.isConst()) {
		return c.Ite(b.a, c.Ult(a, b.b), c.Ult(a, b.c))
	}
	return c.mk(Term{op: OUlt, a: a, b: b})
}

func narrow(a, b *Term) (int, bool) {
	if a.op == OZExt || b.op == OZExt {
		n := bits.Len64(maxu(a.mx, b.mx))
		if n == 0 {
			n = 1
		}
		aok := a.op == OZExt && a.a.w <= n || a.isConst()
		bok := b.op == OZExt && b.a.w <= n || b.isConst()
		if aok && bok && n < a.w {
			return n, true
		}
	}
	return 0, false
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.BNot(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	w := a.w
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sx(a.val, w) < sx(b.val, w))
	}
	h := mask(w - 1)
	if a.mx <= h && b.mx <= h {
		return c.Ult(a, b)
	}
	if a.mn > h && b.mn > h {
		return c.Ult(a, b)
	}
	if a.mn > h && b.mx <= h {
		return c.True
	}
	if a.mx <= h && b.mn > h {
		return c.False
	}
	if a.op == OIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return c.Ite(a.a, c.Slt(a.b, b), c.Slt(a.c, b))
	}
	return c.mk(Term{op: OSlt, a: a, b: b})
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.BNot(c.Slt(b, a)) }

// ---- arrays ----

// ArrVer is an immutable array version: a base vector, a store on top of
// another version, or a guarded merge of two versions.
type ArrVer struct {
	id     int
	n      int // number of elements
	w      int // element width (0: bool)
	kind   int // 0 base, 1 store, 2 merge
	vec    PVec[*Term]
	prev   *ArrVer
	idx    *Term
	val    *Term
	cond   *Term
	a, b   *ArrVer
	mn, mx uint64
	memo   map[int]*Term
	pure   bool // no symbolic store/merge below: vec is authoritative
	zero   *Term
	depth  int
}

func (c *Ctx) newArr(n, w int) *ArrVer {
	c.arrID++
	var z *Term
	if w == 0 {
		z = c.False
	} else {
		z = c.Const(0, w)
	}
	return &ArrVer{id: c.arrID, n: n, w: w, pure: true, zero: z}
}

func (v *ArrVer) baseAt(i int) *Term {
	if t := v.vec.Get(i); t != nil {
		return t
	}
	return v.zero
}

func (c *Ctx) arrAt(v *ArrVer, i int) *Term {
	if v.pure {
		return v.baseAt(i)
	}
	if t, ok := v.memo[i]; ok {
		return t
	}
	var r *Term
	if v.kind == 1 {
		if v.idx.isConst() {
			if int(v.idx.val) == i {
				r = v.val
			} else {
				r = c.arrAt(v.prev, i)
			}
		} else {
			eq := c.Eq(v.idx, c.Const(uint64(i), v.idx.w))
			if eq.isFalse() {
				r = c.arrAt(v.prev, i)
			} else {
				old := c.arrAt(v.prev, i)
				nv := c.substSel(v.val, v.prev, v.idx, old)
				r = c.Ite(eq, nv, old)
			}
		}
	} else {
		r = c.Ite(v.cond, c.arrAt(v.a, i), c.arrAt(v.b, i))
	}
	if v.memo == nil {
		v.memo = map[int]*Term{}
	}
	v.memo[i] = r
	return r
}

// substSel replaces select(arr, idx) by r inside small terms (used when idx is
// known to equal the position r was read from).
func (c *Ctx) substSel(t *Term, arr *ArrVer, idx *Term, r *Term) *Term {
	n := 0
	return c.substSel1(t, arr, idx, r, &n, map[*Term]*Term{})
}

func (c *Ctx) substSel1(t *Term, arr *ArrVer, idx, r *Term, n *int, memo map[*Term]*Term) *Term {
	if t.op == OSelect && t.arr == arr && t.a == idx {
		return r
	}
	if t.a == nil || t.op == OSelect {
		return t
	}
	*n++
	if *n > 24 {
		return t
	}
	if x, ok := memo[t]; ok {
		return x
	}
	var a, b, d *Term
	a = c.substSel1(t.a, arr, idx, r, n, memo)
	if t.b != nil {
		b = c.substSel1(t.b, arr, idx, r, n, memo)
	}
	if t.c != nil {
		d = c.substSel1(t.c, arr, idx, r, n, memo)
	}
	res := t
	if a != t.a || b != t.b || d != t.c {
		res = c.rebuild(t, a, b, d)
	}
	memo[t] = res
	return res
}

func (c *Ctx) rebuild(t, a, b, d *Term) *Term {
	switch t.op {
	case OAdd:
		return c.Add(a, b)
	case OSub:
		return c.Sub(a, b)
	case OMul:
		return c.Mul(a, b)
	case OUDiv:
		return c.UDiv(a, b)
	case OURem:
		return c.URem(a, b)
	case OSDiv:
		return c.SDiv(a, b)
	case OSRem:
		return c.SRem(a, b)
	case OAnd:
		return c.And(a, b)
	case OOr:
		return c.Or(a, b)
	case OXor:
		return c.Xor(a, b)
	case ONot:
		return c.Not(a)
	case ONeg:
		return c.Neg(a)
	case OShl:
		return c.Shl(a, b)
	case OLshr:
		return c.Lshr(a, b)
	case OAshr:
		return c.Ashr(a, b)
	case OConcat:
		return c.Concat(a, b)
	case OExtract:
		return c.Extract(a, int(t.val>>8), int(t.val&255))
	case OZExt:
		return c.ZExt(a, t.w)
	case OSExt:
		return c.SExt(a, t.w)
	case OIte:
		return c.Ite(a, b, d)
	case OBNot:
		return c.BNot(a)
	case OBAnd:
		return c.BAnd(a, b)
	case OBOr:
		return c.BOr(a, b)
	case OEq:
		return c.Eq(a, b)
	case OUlt:
		return c.Ult(a, b)
	case OUle:
		return c.Ule(a, b)
	case OSlt:
		return c.Slt(a, b)
	case OSle:
		return c.Sle(a, b)
	case OUF:
		return c.UF(t.name, t.w, a, b)
	case OSelect:
		return c.Select(t.arr, a)
	}
	panic("rebuild")
}

func (c *Ctx) Store(v *ArrVer, idx, val *Term) *ArrVer {
	c.arrID++
	n := &ArrVer{id: c.arrID, n: v.n, w: v.w, zero: v.zero}
	if v.w > 0 {
		n.mn, n.mx = minu(v.mn, val.mn), maxu(v.mx, val.mx)
	}
	if v.pure && idx.isConst() {
		n.pure = true
		n.vec = v.vec.Set(int(idx.val), val)
		return n
	}
	if !idx.isConst() && v.n <= 4096 {
		// drop no-op symbolic stores
		if val.op == OSelect && val.arr == v && val.a == idx {
			return v
		}
	}
	n.kind, n.prev, n.idx, n.val = 1, v, idx, val
	n.depth = v.depth + 1
	if idx.isConst() && n.depth > 64 && v.n <= 1024 {
		return c.flatten(n)
	}
	return n
}

// flatten materialises all elements into a pure base version.
func (c *Ctx) flatten(v *ArrVer) *ArrVer {
	c.arrID++
	n := &ArrVer{id: c.arrID, n: v.n, w: v.w, zero: v.zero, pure: true, mn: v.mn, mx: v.mx}
	for i := 0; i < v.n; i++ {
		t := c.arrAt(v, i)
		if t != v.zero {
			n.vec = n.vec.Set(i, t)
		}
	}
	return n
}

func (c *Ctx) MergeArr(cond *Term, a, b *ArrVer) *ArrVer {
	if a == b {
		return a
	}
	c.arrID++
	n := &ArrVer{id: c.arrID, n: a.n, w: a.w, zero: a.zero}
	if a.w > 0 {
		n.mn, n.mx = minu(a.mn, b.mn), maxu(a.mx, b.mx)
	}
	if a.pure && b.pure {
		n.pure = true
		n.vec = a.vec
		pdiff(a.vec, b.vec, func(i int, x, y *Term) {
			if x == nil {
				x = a.zero
			}
			if y == nil {
				y = a.zero
			}
			n.vec = n.vec.Set(i, c.Ite(cond, x, y))
		})
		return n
	}
	// common case: one or both are a few stores on top of the same version
	if anc := commonVer(a, b, 16); anc != nil {
		r := anc
		var sa, sb []*ArrVer
		for x := a; x != anc; x = x.prev {
			sa = append(sa, x)
		}
		for x := b; x != anc; x = x.prev {
			sb = append(sb, x)
		}
		for i := len(sa) - 1; i >= 0; i-- {
			s := sa[i]
			r = c.Store(r, s.idx, c.Ite(cond, c.rebase(s.val, s.prev, r, s.idx), c.Select(r, s.idx)))
		}
		for i := len(sb) - 1; i >= 0; i-- {
			s := sb[i]
			r = c.Store(r, s.idx, c.Ite(cond, c.Select(r, s.idx), c.rebase(s.val, s.prev, r, s.idx)))
		}
		return r
	}
	n.kind, n.cond, n.a, n.b = 2, cond, a, b
	return n
}

// rebase rewrites select(from, idx) in t to select(to, idx): valid under the
// guard that selects this side of a merge, where both versions agree.
func (c *Ctx) rebase(t *Term, from, to *ArrVer, idx *Term) *Term {
	if from == to {
		return t
	}
	return c.substSel(t, from, idx, c.Select(to, idx))
}

func commonVer(a, b *ArrVer, lim int) *ArrVer {
	seen := map[*ArrVer]bool{}
	x := a
	for i := 0; i <= lim && x != nil; i++ {
		seen[x] = true
		if x.kind != 1 || x.pure {
			break
		}
		x = x.prev
	}
	y := b
	for i := 0; i <= lim && y != nil; i++ {
		if seen[y] {
			return y
		}
		if y.kind != 1 || y.pure {
			break
		}
		y = y.prev
	}
	return nil
}

func (c *Ctx) Select(v *ArrVer, idx *Term) *Term {
	if idx.isConst() {
		return c.arrAt(v, int(idx.val))
	}
	for v.kind == 1 && !v.pure {
		if v.idx == idx {
			return v.val
		}
		if c.Eq(v.idx, idx).isFalse() {
			v = v.prev
			continue
		}
		break
	}
	if v.pure && idx.mx-idx.mn < 8 {
		// tiny range: expand right away
		r := c.arrAt(v, int(idx.mx))
		for i := int64(idx.mx) - 1; i >= int64(idx.mn); i-- {
			r = c.Ite(c.Eq(idx, c.Const(uint64(i), idx.w)), c.arrAt(v, int(i)), r)
		}
		return r
	}
	return c.mk(Term{op: OSelect, w: v.w, arr: v, a: idx})
}

// lowerSelect expands a select node into ite terms.
func (c *Ctx) lowerSelect(t *Term) *Term {
	if r, ok := c.selLow[t]; ok {
		return r
	}
	r := c.lowerSel(t.arr, t.a)
	c.selLow[t] = r
	return r
}

func (c *Ctx) lowerSel(v *ArrVer, idx *Term) *Term {
	if v.kind == 1 && !v.pure && !v.idx.isConst() {
		eq := c.Eq(v.idx, idx)
		if eq.isTrue() {
			return v.val
		}
		rest := c.Select(v.prev, idx)
		if eq.isFalse() {
			return rest
		}
		return c.Ite(eq, v.val, rest)
	}
	if v.kind == 2 && !v.pure && v.n > 1024 {
		return c.Ite(v.cond, c.Select(v.a, idx), c.Select(v.b, idx))
	}
	// mux tree over the index bits
	lo, hi := int(idx.mn), int(idx.mx)
	if hi >= v.n {
		hi = v.n - 1
	}
	nb := bits.Len64(idx.mx)
	ib := c.Extract(idx, nb-1, 0)
	var rec func(bit int, base int) *Term
	rec = func(bit int, base int) *Term {
		if base > hi || base+(1<<uint(bit+1))-1 < lo {
			return nil
		}
		if bit < 0 {
			return c.arrAt(v, base)
		}
		if b := c.Extract(ib, bit, bit); b.isConst() {
			return rec(bit-1, base+int(b.val)<<uint(bit))
		}
		l := rec(bit-1, base)
		h := rec(bit-1, base+1<<uint(bit))
		if l == nil {
			return h
		}
		if h == nil {
			return l
		}
		return c.Ite(c.Eq(c.Extract(ib, bit, bit), c.Const(1, 1)), h, l)
	}
	r := rec(nb-1, 0)
	if r == nil {
		return v.zero
	}
	return r
}
