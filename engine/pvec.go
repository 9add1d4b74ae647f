package main

// PVec is a persistent radix-32 vector (immutable; Set returns a new vector
// sharing structure with the old one).
type PVec[T any] struct {
	n     int
	shift uint
	root  *pnode[T]
}

type pnode[T any] struct {
	kids [32]*pnode[T]
	leaf *[32]T
}

func (v PVec[T]) Len() int { return v.n }

func (v PVec[T]) Get(i int) T {
	var zero T
	if i < 0 || i >= v.n {
		return zero
	}
	nd := v.root
	for s := v.shift; s > 0; s -= 5 {
		if nd == nil {
			return zero
		}
		nd = nd.kids[(i>>s)&31]
	}
	if nd == nil {
		return zero
	}
	return nd.leaf[i&31]
}

func (v PVec[T]) Set(i int, x T) PVec[T] {
	for i>>(v.shift+5) != 0 {
		if v.root != nil {
			nr := &pnode[T]{}
			nr.kids[0] = v.root
			v.root = nr
		}
		v.shift += 5
	}
	v.root = psetNode(v.root, v.shift, i, x)
	if i >= v.n {
		v.n = i + 1
	}
	return v
}

func psetNode[T any](nd *pnode[T], shift uint, i int, x T) *pnode[T] {
	c := &pnode[T]{}
	if nd != nil {
		*c = *nd
	}
	if shift == 0 {
		l := new([32]T)
		if nd != nil && nd.leaf != nil {
			*l = *nd.leaf
		}
		l[i&31] = x
		c.leaf = l
		return c
	}
	k := (i >> shift) & 31
	c.kids[k] = psetNode(c.kids[k], shift-5, i, x)
	return c
}

// pdiff calls f for each index whose leaf block differs between a and b.
func pdiff[T comparable](a, b PVec[T], f func(i int, x, y T)) {
	for a.shift < b.shift {
		if a.root != nil {
			nr := &pnode[T]{}
			nr.kids[0] = a.root
			a.root = nr
		}
		a.shift += 5
	}
	for b.shift < a.shift {
		if b.root != nil {
			nr := &pnode[T]{}
			nr.kids[0] = b.root
			b.root = nr
		}
		b.shift += 5
	}
	pdiffNode(a.root, b.root, a.shift, 0, f)
}

func pdiffNode[T comparable](a, b *pnode[T], shift uint, base int, f func(i int, x, y T)) {
	if a == b {
		return
	}
	if shift == 0 {
		var la, lb [32]T
		if a != nil {
			la = *a.leaf
		}
		if b != nil {
			lb = *b.leaf
		}
		for k := 0; k < 32; k++ {
			if la[k] != lb[k] {
				f(base+k, la[k], lb[k])
			}
		}
		return
	}
	for k := 0; k < 32; k++ {
		var x, y *pnode[T]
		if a != nil {
			x = a.kids[k]
		}
		if b != nil {
			y = b.kids[k]
		}
		pdiffNode(x, y, shift-5, base+k<<shift, f)
	}
}
