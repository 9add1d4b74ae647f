package main

import (
	"golang.org/x/tools/go/ssa"
)

type bitset []uint64

func newBits(n int) bitset      { return make(bitset, (n+63)/64) }
func (b bitset) has(i int) bool { return b[i>>6]&(1<<uint(i&63)) != 0 }
func (b bitset) set(i int)      { b[i>>6] |= 1 << uint(i&63) }
func (b bitset) clr(i int)      { b[i>>6] &^= 1 << uint(i&63) }
func (b bitset) clone() bitset  { return append(bitset(nil), b...) }
func (b bitset) or(o bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | o[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}

// operand kinds
const (
	opReg = iota
	opConst
	opGlobal
	opFunc
	opBuiltin
)

type operand struct {
	kind int
	reg  int
	v    ssa.Value
}

type blockInfo struct {
	b        *ssa.BasicBlock
	firstIns int    // after phis
	liveIn   bitset // registers live just after the phis of the block
	ipdom    *ssa.BasicBlock
	hammock  int // 0 unknown, 1 yes, 2 no
	liveAt   map[int]bitset
}

type fnInfo struct {
	fn    *ssa.Function
	num   map[ssa.Value]int
	nregs int
	blk   []*blockInfo
	name  string
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := x.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) {
		fi.num[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs++ // last: deferred calls
	n := len(fn.Blocks)
	for _, b := range fn.Blocks {
		bi := &blockInfo{b: b, liveAt: map[int]bitset{}}
		for bi.firstIns < len(b.Instrs) {
			if _, ok := b.Instrs[bi.firstIns].(*ssa.Phi); !ok {
				break
			}
			bi.firstIns++
		}
		fi.blk = append(fi.blk, bi)
	}
	fi.liveness()
	fi.postdom(n)
	x.fns[fn] = fi
	return fi
}

func (fi *fnInfo) uses(in ssa.Instruction, f func(r int)) {
	var ops [12]*ssa.Value
	for _, p := range in.Operands(ops[:0]) {
		if *p == nil {
			continue
		}
		if r, ok := fi.num[*p]; ok {
			f(r)
		}
	}
}

func (fi *fnInfo) liveness() {
	n := len(fi.fn.Blocks)
	for _, bi := range fi.blk {
		bi.liveIn = newBits(fi.nregs)
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			live := fi.liveOut(i)
			b := fi.fn.Blocks[i]
			for k := len(b.Instrs) - 1; k >= fi.blk[i].firstIns; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					live.clr(fi.num[v])
				}
				fi.uses(in, live.set)
			}
			if fi.blk[i].liveIn.or(live) {
				changed = true
			}
		}
	}
}

// liveOut: registers live at the end of block i (phi uses counted on the edge).
func (fi *fnInfo) liveOut(i int) bitset {
	b := fi.fn.Blocks[i]
	live := newBits(fi.nregs)
	for _, s := range b.Succs {
		sl := fi.blk[s.Index].liveIn.clone()
		pi := -1
		for k, p := range s.Preds {
			if p == b {
				pi = k
			}
		}
		for k := 0; k < fi.blk[s.Index].firstIns; k++ {
			ph := s.Instrs[k].(*ssa.Phi)
			sl.clr(fi.num[ph])
		}
		for k := 0; k < fi.blk[s.Index].firstIns; k++ {
			ph := s.Instrs[k].(*ssa.Phi)
			if r, ok := fi.num[ph.Edges[pi]]; ok {
				sl.set(r)
			}
		}
		live.or(sl)
	}
	return live
}

// liveAfter gives the registers live after instruction k of block i.
func (fi *fnInfo) liveAfter(i, k int) bitset {
	if l, ok := fi.blk[i].liveAt[k]; ok {
		return l
	}
	live := fi.liveOut(i)
	b := fi.fn.Blocks[i]
	for j := len(b.Instrs) - 1; j > k; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			live.clr(fi.num[v])
		}
		fi.uses(in, live.set)
	}
	fi.blk[i].liveAt[k] = live
	return live
}

// postdom computes immediate postdominators towards the returns of the function
// (blocks that can only panic are ignored); nil means the function exit.
func (fi *fnInfo) postdom(n int) {
	const exit = -1
	// can reach return
	reach := make([]bool, n)
	for changed := true; changed; {
		changed = false
		for i, b := range fi.fn.Blocks {
			if reach[i] {
				continue
			}
			ok := false
			if len(b.Instrs) > 0 {
				if _, r := b.Instrs[len(b.Instrs)-1].(*ssa.Return); r {
					ok = true
				}
			}
			for _, s := range b.Succs {
				if reach[s.Index] {
					ok = true
				}
			}
			if ok {
				reach[i] = true
				changed = true
			}
		}
	}
	// sets: pd[i] = bitset over n+1 (n = exit)
	full := newBits(n + 1)
	for i := 0; i <= n; i++ {
		full.set(i)
	}
	pd := make([]bitset, n)
	for i := range pd {
		pd[i] = full.clone()
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if !reach[i] {
				continue
			}
			b := fi.fn.Blocks[i]
			var s bitset
			if _, r := b.Instrs[len(b.Instrs)-1].(*ssa.Return); r {
				s = newBits(n + 1)
				s.set(n)
			} else {
				s = full.clone()
				for _, q := range b.Succs {
					if !reach[q.Index] {
						continue
					}
					for k := range s {
						s[k] &= pd[q.Index][k]
					}
				}
			}
			s.set(i)
			for k := range s {
				if s[k] != pd[i][k] {
					pd[i] = s
					changed = true
					break
				}
			}
		}
	}
	count := func(b bitset) int {
		c := 0
		for i := 0; i <= n; i++ {
			if b.has(i) {
				c++
			}
		}
		return c
	}
	for i := 0; i < n; i++ {
		if !reach[i] {
			continue
		}
		// the immediate one is the strict postdominator with most postdominators
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i].has(j) {
				if c := count(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			fi.blk[i].ipdom = fi.fn.Blocks[best]
		}
	}
}

// isHammock: the region from block i to its immediate postdominator is acyclic,
// small and free of calls, so both arms can be run without asking the solver.
func (fi *fnInfo) isHammock(i int) bool {
	bi := fi.blk[i]
	if bi.hammock != 0 {
		return bi.hammock == 1
	}
	bi.hammock = 2
	join := bi.ipdom
	if join == nil {
		return false
	}
	seen := map[*ssa.BasicBlock]int{} // 1 on stack, 2 done
	count := 0
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == join {
			return true
		}
		if seen[b] == 1 {
			return false
		}
		if seen[b] == 2 {
			return true
		}
		seen[b] = 1
		count++
		if count > 8 {
			return false
		}
		if b != bi.b {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Call:
					if bt, ok := c.Call.Value.(*ssa.Builtin); !ok || bt.Name() == "append" || bt.Name() == "copy" {
						return false
					}
				case *ssa.Panic, *ssa.Return, *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.Slice, *ssa.MakeSlice, *ssa.TypeAssert, *ssa.Alloc, *ssa.Next, *ssa.Lookup, *ssa.MapUpdate:
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if !rec(s) {
				return false
			}
		}
		seen[b] = 2
		return true
	}
	if rec(bi.b) {
		bi.hammock = 1
	}
	return bi.hammock == 1
}
