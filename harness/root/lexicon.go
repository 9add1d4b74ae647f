package dawg

// Lexicons: symbolic ones given by a shape, concrete ones given by a generator.

func vNum(i int) string {
	s := ""
	if i >= 100 {
		s = "0123456789"[i/100%10 : i/100%10+1]
	}
	if i >= 10 {
		s += "0123456789"[i/10%10 : i/10%10+1]
	}
	return s + "0123456789"[i%10:i%10+1]
}
func vName(p string, i int) string     { return p + vNum(i) }
func vName2(p string, i, j int) string { return p + vNum(i) + "_" + vNum(j) }

// vLex is a lexicon in byte order.  lcp[i] is the length of the common prefix
// of keys i-1 and i; equal neighbours are repeated insertions of one key.
type vLex struct {
	keys [][]byte
	vals []int32
	lcp  []int
}

// vCode reads the decimal digits of code, each standing for digit-1.
func vCode(code int) []int {
	var out []int
	for code > 0 {
		out = append([]int{code%10 - 1}, out...)
		code /= 10
	}
	return out
}

// vLexicon makes the symbolic lexicon of a shape: key i has lens[i] bytes, the
// first lcps[i] of which it shares with key i-1.  Every byte is symbolic over
// 1..255, except that the byte where key i leaves key i-1 is related to its
// sibling by an exclusive-or difference drawn from the domain dom, every
// member of which is explored (the difference decides which unit of the double
// array the sibling takes).
//
// dom: n>0: 1..n; 0: a table of 14 differences; n<0: byte -n of the table only
// (jobs are split that way); 1000+n: the n-th sixteenth of 1..255.
// free: differences are not fixed at all (for checks that stop at the automaton).
func vLexicon(lens, lcps []int, dom int, free bool) [][]byte {
	keys := make([][]byte, len(lens))
	for i := range lens {
		k := make([]byte, lens[i])
		for j := range k {
			if i > 0 && j < lcps[i] {
				k[j] = keys[i-1][j]
			} else if i > 0 && j == lcps[i] {
				if free {
					k[j] = vByte(vName2("k", i, j), 1, 255)
					if j < lens[i-1] {
						vAssume(k[j] > keys[i-1][j])
					}
				} else {
					d := vDiff(vName2("d", i, j), dom)
					if j < lens[i-1] {
						k[j] = keys[i-1][j] ^ d
						vAssume(k[j] > keys[i-1][j])
					} else {
						k[j] = d
					}
				}
			} else {
				k[j] = vByte(vName2("k", i, j), 1, 255)
			}
		}
		keys[i] = k
	}
	return keys
}

var vDiffs = []byte{1, 2, 3, 4, 8, 16, 31, 32, 64, 127, 128, 129, 224, 255}

func vDiff(name string, dom int) byte {
	if dom >= 1000 {
		lo := (dom-1000)*16 + 1
		hi := lo + 15
		if hi > 255 {
			hi = 255
		}
		return byte(vSplit(vInt(name, lo, hi)))
	}
	if dom > 0 {
		return byte(vSplit(vInt(name, 1, dom)))
	}
	if dom < 0 {
		return vDiffs[-dom-1]
	}
	return vDiffs[vSplit(vInt(name, 0, len(vDiffs)-1))]
}

// vValues makes the values of n keys: kind 0 all symbolic over 0..MaxInt32,
// 1 symbolic over 0..1, 2 all zero, 3 concrete and distinct, 4 concrete, few
// distinct ones, 5 like 3 with one symbolic value, 6 like 4 with one symbolic.
func vValues(n, kind int) []int32 {
	vals := make([]int32, n)
	for i := range vals {
		switch kind {
		case 0:
			vals[i] = vI32(vName("v", i), 0, 0x7fffffff)
		case 1:
			vals[i] = vI32(vName("v", i), 0, 1)
		case 3, 5:
			vals[i] = int32(i*7919 + 1)
		case 4, 6:
			vals[i] = int32(i % 3)
		}
	}
	if (kind == 5 || kind == 6) && n > 0 {
		vals[n/2] = vI32("v", 0, 0x7fffffff)
	}
	return vals
}

// vShape makes a lexicon from a length code, an lcp code, a difference domain
// and a value kind; ten more makes two copies of it under two first bytes.
func vShape(lenCode, lcpCode, dom, kind int, free bool) *vLex {
	lens := vCode(lenCode)
	lcps := vCode(lcpCode)
	keys := vLexicon(lens, lcps, dom, free)
	if kind < 10 {
		return &vLex{keys: keys, vals: vValues(len(keys), kind), lcp: lcps}
	}
	// below two first bytes hang the same endings with the same values
	vals := vValues(len(keys), kind-10)
	p0 := vByte("p0", 1, 255)
	p1 := vByte("p1", 1, 255)
	if !free {
		p1 = p0 ^ vDiff("p1", dom)
	}
	vAssume(p1 > p0)
	l := &vLex{}
	for _, p := range []byte{p0, p1} {
		for i := range keys {
			l.keys = append(l.keys, vCat([]byte{p}, keys[i]))
			l.vals = append(l.vals, vals[i])
			n := 0
			if i > 0 {
				n = lcps[i] + 1
			}
			l.lcp = append(l.lcp, n)
		}
	}
	return l
}

// vMake makes a lexicon from four parameters starting at p: a shape when the
// first one is non-negative, else a concrete lexicon: generator, size, seed.
func vMake(p int, free bool) *vLex {
	a, b, c, d := vParam(p), vParam(p+1), vParam(p+2), vParam(p+3)
	if a >= 0 {
		return vShape(a, b, c, d, free)
	}
	return vConcrete(-a, b, c, d)
}

type vRng struct{ s uint32 }

func (r *vRng) next() int {
	r.s = r.s*1664525 + 1013904223
	return int(r.s >> 16)
}

// vConcrete makes a concrete lexicon of about n keys in byte order.
//
//	1: a random trie over all byte values
//	2: a random trie over few letters (deep, much sharing of suffixes)
//	3: the one-byte keys 255, 254, ... n of them, the largest labels
//	4: one key of n bytes and its prefixes of length 1, 3, 7, 15 ...
//	5: n two-byte keys with the same n/16 second bytes below every first byte
//	6: wide nodes: every node at depth 0 and 1 has many children
//	8: n nodes with 255 children each (every node fills a block)
//	9: n nodes with about 60 to 200 children, some of which have tails
//	7: keys of three bytes with a distinct long tail each (many thin nodes)
//	10: n times 16 times 16 keys of three bytes
//	11: about n endings of generator 2, the same ones with the same values below
//	    five beginnings (many merging states)
func vConcrete(gen, n, seed, kind int) *vLex {
	r := &vRng{uint32(seed)*2654435761 + 12345}
	var keys [][]byte
	switch gen {
	case 1, 2, 6:
		step, max, stop := 60, 6, 3
		if gen == 2 {
			step, max, stop = 1, 12, 5
		}
		if gen == 6 {
			step, max, stop = 5, 3, 2
		}
		for first := 1; first < 256 && len(keys) < n; first += 1 + r.next()%step {
			keys = vGrow(keys, []byte{byte(first)}, r, n, step, max, stop, gen)
			if gen == 2 && first > 4 {
				break
			}
		}
	case 3:
		for i := 256 - n; i < 256; i++ {
			keys = append(keys, []byte{byte(i)})
		}
	case 4:
		k := make([]byte, n)
		for i := range k {
			k[i] = byte(1 + r.next()%255)
		}
		for i := 1; i < n; i = 2*i + 1 {
			keys = append(keys, k[:i])
		}
		keys = append(keys, k)
	case 5:
		for i := 0; i < 16; i++ {
			for j := 0; j < n/16; j++ {
				keys = append(keys, []byte{byte(i*16 + 1), byte(j*255/(n/16) + 1)})
			}
		}
	case 8:
		for i := 1; i <= n; i++ {
			for j := 1; j < 256; j++ {
				keys = append(keys, []byte{byte(i), byte(j)})
			}
		}
	case 9:
		for i := 1; i <= n; i++ {
			st := 1 + r.next()%3
			for j := 1 + r.next()%st; j < 256; j += 1 + r.next()%(2*st) {
				k := []byte{byte(256 - n - 1 + i), byte(j)}
				switch r.next() % 8 {
				case 0:
					keys = append(keys, append(k, byte(1+r.next()%255), byte(1+r.next()%255)))
				case 1:
					keys = append(keys, k, []byte{k[0], k[1], byte(1 + r.next()%255)})
				default:
					keys = append(keys, k)
				}
			}
		}
	case 10:
		for i := 1; i <= n; i++ {
			for j := 0; j < 16; j++ {
				for k := 0; k < 16; k++ {
					keys = append(keys, []byte{byte(i), byte(j*15 + 3), byte(k*16 + 1)})
				}
			}
		}
	case 7:
		for i := 0; i < n; i++ {
			k := []byte{byte(1 + i/196), byte(1 + i/14%14*18), byte(1 + i%14*18)}
			for j := 0; j < 3; j++ {
				k = append(k, byte(1+r.next()%255))
			}
			keys = append(keys, k)
		}
	}
	vals := vValues(len(keys), kind)
	if gen == 11 {
		ends := vConcrete(2, n, seed, kind)
		vals = nil
		for _, p := range [][]byte{{2}, {2, 2, 9}, {7, 1}, {7, 6}, {250}} {
			for i, k := range ends.keys {
				if len(p) == 3 && i == 0 {
					keys = append(keys, p)
					vals = append(vals, 1<<30)
				}
				if len(p) > 1 || p[0] != 2 || k[0] < 2 {
					keys = append(keys, append(append([]byte{}, p...), k...))
					vals = append(vals, ends.vals[i])
				}
			}
		}
	}
	l := &vLex{keys: keys, vals: vals, lcp: make([]int, len(keys))}
	for i := 1; i < len(keys); i++ {
		j := 0
		for j < len(keys[i-1]) && j < len(keys[i]) && keys[i-1][j] == keys[i][j] {
			j++
		}
		l.lcp[i] = j
	}
	return l
}

func vGrow(keys [][]byte, prefix []byte, r *vRng, n, step, max, stop, gen int) [][]byte {
	if len(keys) >= n {
		return keys
	}
	leaf := len(prefix) >= max || r.next()%stop == 0
	if gen == 6 {
		leaf = len(prefix) >= max
	}
	if leaf || r.next()%3 == 0 {
		keys = append(keys, append([]byte(nil), prefix...))
		if leaf {
			return keys
		}
	}
	any := false
	for b := 1 + r.next()%step; b < 256; b += 1 + r.next()%step {
		if gen == 2 && b > 4 {
			break
		}
		keys = vGrow(keys, append(append([]byte(nil), prefix...), byte(b)), r, n, step, max, stop, gen)
		any = true
		if len(keys) >= n {
			break
		}
	}
	if !any {
		keys = append(keys, append([]byte(nil), prefix...))
		if n := len(keys); n > 1 && vEqual(keys[n-1], keys[n-2]) {
			keys = keys[:n-1]
		}
	}
	return keys
}

// ---- the trie of a lexicon, as an oracle ----

// a position (i, j) is the prefix of length j of key i

// same tells whether (a, j) and (b, j), a <= b, are the same position.
func (l *vLex) same(a, b, j int) bool {
	for t := a + 1; t <= b; t++ {
		if l.lcp[t] < j {
			return false
		}
	}
	return true
}

// isNew tells whether position (i, j) does not occur below an earlier key.
func (l *vLex) isNew(i, j int) bool { return i == 0 || l.lcp[i] < j }

// last returns the last key with the prefix of position (i, j).
func (l *vLex) last(i, j int) int {
	for i+1 < len(l.keys) && l.lcp[i+1] >= j {
		i++
	}
	return i
}

// first returns the first key with the prefix of position (i, j).
func (l *vLex) first(i, j int) int {
	for i > 0 && l.lcp[i] >= j {
		i--
	}
	return i
}

// terminal returns the key that ends at position (i, j), -1 if none: the last
// one inserted counts.
func (l *vLex) terminal(i, j int) int {
	r := -1
	for t := l.first(i, j); t <= l.last(i, j); t++ {
		if len(l.keys[t]) == j {
			r = t
		}
	}
	return r
}

// kids returns, for each child of position (i, j), the first key below it.
func (l *vLex) kids(i, j int) []int {
	var out []int
	z := l.last(i, j)
	for t := l.first(i, j); t <= z; t++ {
		if len(l.keys[t]) > j && (len(out) == 0 || l.lcp[t] <= j) {
			out = append(out, t)
		}
	}
	return out
}

// keysBelow returns the distinct keys with the prefix of position (i, j).
func (l *vLex) keysBelow(i, j int) []int {
	var out []int
	z := l.last(i, j)
	for t := l.first(i, j); t <= z; t++ {
		if t == z || !l.dup(t+1) {
			out = append(out, t)
		}
	}
	return out
}

// dup tells whether key t repeats key t-1.
func (l *vLex) dup(t int) bool {
	return t > 0 && l.lcp[t] == len(l.keys[t]) && l.lcp[t] == len(l.keys[t-1])
}

// wanted returns the value of q in the lexicon, -1 if it is not a key.
func (l *vLex) wanted(q []byte) int32 {
	var want int32 = -1
	for i := range l.keys {
		want = int32(vIte32(vEqual(q, l.keys[i]), uint32(l.vals[i]), uint32(want)))
	}
	return want
}

// ---- building ----

func (l *vLex) insertAll(b *DawgBuilder) {
	for i := range l.keys {
		vAssert(b.InsertKeyValue(l.keys[i], len(l.keys[i]), l.vals[i]), "a key in byte order is accepted")
	}
}

func (l *vLex) dawg() *Dawg {
	b := NewDawgBuilder()
	l.insertAll(b)
	d := NewDawg()
	b.Finish(d)
	return d
}

func (l *vLex) build() (*Dawg, *Dictionary) {
	d := l.dawg()
	dict := d.Build()
	vAssert(dict != nil, "the dictionary is built")
	return d, dict
}

// ---- byte strings of concrete length ----

func vLess(a, b []byte) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := len(a) < len(b)
	for i := n - 1; i >= 0; i-- {
		r = vOr(a[i] < b[i], vAnd(a[i] == b[i], r))
	}
	return r
}

func vEqual(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vAnd(r, a[i] == b[i])
	}
	return r
}

func vQuery(n int) []byte {
	q := make([]byte, n)
	for i := range q {
		q[i] = vByte(vName("q", i), 0, 255)
	}
	return q
}

func vCat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}
