package dawg

// Large concrete lexicons: the tree of the lexicon is the oracle, positions
// are numbered, and the label tried at a position is symbolic.

type vNode struct {
	labels []byte
	kids   []int
	term   int // key that ends here, -1 if none
	first  int // first key below
	depth  int
	count  int // number of distinct keys below
}

// vTree makes the tree of a concrete lexicon without repeated keys.
func vTree(l *vLex) []vNode {
	nodes := []vNode{{term: -1}}
	var path []int
	path = append(path, 0)
	for i, k := range l.keys {
		path = path[:l.lcp[i]+1]
		for j := l.lcp[i]; j < len(k); j++ {
			at := path[len(path)-1]
			n := len(nodes)
			nodes = append(nodes, vNode{term: -1, first: i, depth: j + 1})
			nodes[at].labels = append(nodes[at].labels, k[j])
			nodes[at].kids = append(nodes[at].kids, n)
			path = append(path, n)
		}
		nodes[path[len(path)-1]].term = i
		for _, p := range path {
			nodes[p].count++
		}
	}
	return nodes
}

// vTreeFind returns the key with the given text below node n, -1 if none.
func vTreeFind(nodes []vNode, n int, text string) int {
	for i := 0; i < len(text); i++ {
		next := -1
		for c, b := range nodes[n].labels {
			if b == text[i] {
				next = nodes[n].kids[c]
				break
			}
		}
		if next < 0 {
			return -1
		}
		n = next
	}
	return nodes[n].term
}

func vLabelCheck(l *vLex, nodes []vNode, dict *Dictionary, n int, index uint32) {
	q := vByte("q", 0, 255)
	ok := false
	for _, b := range nodes[n].labels {
		ok = vOr(ok, q == b)
	}
	next := index
	got := dict.Follow(q, &next)
	vAssert(got == ok, "a step succeeds exactly along stored prefixes")
	vAssert(vOr(got, next == index), "a failed step leaves the position unchanged")
}

// vBigWalk visits every position; the symbolic label is tried at every
// position with three children or more and one in "every" of the others.
func vBigWalk(l *vLex, nodes []vNode, dict *Dictionary, every int) []uint32 {
	at := make([]uint32, len(nodes))
	at[0] = dict.Root()
	for n := range nodes {
		index := at[n]
		t := nodes[n].term
		vAssert(dict.HasValue(index) == (t >= 0), "a value is present exactly at keys")
		if t >= 0 {
			vAssert(dict.Value(index) == l.vals[t], "the value at a position is the value of its key")
		}
		for c, b := range nodes[n].labels {
			next := index
			vAssert(dict.Follow(b, &next), "a stored prefix is followed")
			at[nodes[n].kids[c]] = next
		}
		if len(nodes[n].kids) > 2 || n%every == 0 {
			vLabelCheck(l, nodes, dict, n, index)
		}
	}
	vReach("walked")
	return at
}

// C17 and others: Params: lexicon (4), what (bits: 1 walk, 2 completion, 4
// ranked completion, 8 numbering, 16 numbering with a ranked guide, 32 reload),
// every.
func HBig() {
	l := vMake(0, false)
	d, dict := l.build()
	what, every := vParam(4), vParam(5)
	nodes := vTree(l)
	if what&32 != 0 {
		w := &vWriter{limit: 1 << 30}
		vAssert(dict.Write(w), "the dictionary is written")
		dict = ReadDictionary(&vReader{data: w.data, first: 1 << 30, rest: 1 << 30, limit: len(w.data)})
		vAssert(dict != nil, "the dictionary is read back")
	}
	if what&1 != 0 {
		vBigWalk(l, nodes, dict, every)
	}
	var guide *Guide
	if what&(2|8) != 0 {
		guide = BuildGuide(d, dict)
		vAssert(guide != nil, "the guide is built")
	}
	var ranked *RankedGuide
	if what&(4|16) != 0 {
		ranked = BuildRankedGuide(d, dict)
		vAssert(ranked != nil, "the ranked guide is built")
	}
	if what&2 != 0 {
		c := NewCompleter(dict, guide)
		for _, n := range vStarts(nodes) {
			c.Start(l.at(dict, nodes[n].first, nodes[n].depth))
			vReach("completed")
			for i := 0; i < nodes[n].count; i++ {
				k := nodes[n].first + i
				vAssert(c.Next(), "a key below the prefix is delivered")
				vAssert(c.Key() == string(l.keys[k][nodes[n].depth:]), "keys are completed in byte order")
				vAssert(c.Length() == len(l.keys[k])-nodes[n].depth, "the reported length is that of the key")
				vAssert(c.Value() == l.vals[k], "the completed key comes with its value")
			}
			vAssert(!c.Next(), "nothing else is delivered")
		}
	}
	if what&4 != 0 {
		c := NewRankedCompleter(dict, ranked)
		for _, n := range vStarts(nodes) {
			c.Start(l.at(dict, nodes[n].first, nodes[n].depth))
			vReach("completed by rank")
			seen := make([]bool, nodes[n].count)
			var last int32 = 0x7fffffff
			for i := 0; i < nodes[n].count; i++ {
				vAssert(c.Next(), "a key below the prefix is delivered")
				k := vTreeFind(nodes, n, c.Key())
				vAssert(k >= 0, "only keys below the prefix are delivered")
				vAssert(!seen[k-nodes[n].first], "no key is delivered twice")
				seen[k-nodes[n].first] = true
				vAssert(c.Value() == l.vals[k], "the completed key comes with its value")
				vAssert(c.Value() <= last, "values do not increase")
				last = c.Value()
				vAssert(c.Length() == len(l.keys[k])-nodes[n].depth, "the reported length is that of the key")
			}
			vAssert(!c.Next(), "nothing else is delivered")
		}
	}
	for kind := 0; kind < 2; kind++ {
		if what&(8<<kind) == 0 {
			continue
		}
		var sg SomeGuide = guide
		if kind == 1 {
			sg = ranked
		}
		x := BuildIndex(dict, sg)
		vAssert(x != nil, "the index is built")
		ix := NewIndexer(dict, sg, x)
		total := len(l.keys)
		vAssert(ix.TotalCount() == uint32(total), "the total is the number of keys")
		vReach("numbered")
		seen := make([]bool, total)
		for k := 0; k < total; k += every {
			got := ix.StringToIndex(string(l.keys[k]))
			vAssert(got < uint32(total), "a key has a number below the total")
			if kind == 0 {
				vAssert(got == uint32(k), "with the plain guide the number is the rank in byte order")
			}
			vAssert(!seen[got], "distinct keys have distinct numbers")
			seen[got] = true
			vAssert(ix.IndexToString(got) == string(l.keys[k]), "the number leads back to the key")
		}
		i := vU32("i", 0, 0xffffffff)
		vAssume(i >= uint32(total))
		vAssert(ix.IndexToBytes(i) == nil, "a number from the total upward maps to no key")
	}
}

// vStarts picks start positions: the root and some below it.
func vStarts(nodes []vNode) []int {
	out := []int{0}
	for c, n := range nodes[0].kids {
		if c%7 == 3 || len(nodes[0].kids) < 7 {
			out = append(out, n)
			for d, m := range nodes[n].kids {
				if d%11 == 5 || len(nodes[n].kids) < 4 {
					out = append(out, m)
				}
			}
		}
	}
	return out
}

// C05, C06: minimality and counters for large concrete lexicons.  Params:
// lexicon (4), initial size of the hash table (0: default).
func HMinimalBig() {
	l := vMake(0, true)
	b := NewDawgBuilder()
	if n := vParam(4); n != 0 {
		b = NewDawgBuilderWithSize(n)
	}
	l.insertAll(b)
	d := NewDawg()
	b.Finish(d)
	vMinimalBigCheck(l, d)
}

func vMinimalBigCheck(l *vLex, d *Dawg) {
	nodes := vTree(l)
	// classes of positions with the same suffixes and values below
	class := make([]int, len(nodes))
	var reps []int
	buckets := make([][]int, 1024)
	for n := len(nodes) - 1; n >= 0; n-- {
		x := &nodes[n]
		h := len(x.kids) * 7
		if x.term >= 0 {
			h += 3 + int(l.vals[x.term])
		}
		for c := range x.kids {
			h = h*31 + int(x.labels[c])*5 + class[x.kids[c]]
			h &= 0xffffff
		}
		h %= 1024
		found := -1
		for _, c := range buckets[h] {
			if vSameClass(l, nodes, class, reps[c], n) {
				found = c
				break
			}
		}
		if found < 0 {
			found = len(reps)
			reps = append(reps, n)
			buckets[h] = append(buckets[h], found)
		}
		class[n] = found
	}
	// the automaton, walked along the tree
	list := make([]uint32, len(reps))
	refs := make([]int, len(reps))
	owner := make([]int, d.Size())
	unit := make([]uint32, len(nodes))
	unit[0] = d.Root()
	total := 0
	for n := range nodes {
		x := &nodes[n]
		c := d.Child(unit[n])
		vAssert(c != 0, "an inserted key is spelt by the automaton")
		k := class[n]
		if refs[k] == 0 {
			vAssert(owner[c] == 0, "positions share their child list only when the same suffixes and values hang below them")
			owner[c] = k + 1
			list[k] = c
		} else {
			vAssert(list[k] == c, "positions share their child list when the same suffixes and values hang below them")
		}
		refs[k]++
		at := c
		if x.term >= 0 {
			vAssert(d.IsLeaf(at), "a key ends in a leaf")
			vAssert(d.Value(at) == l.vals[x.term], "the leaf carries the value of the key")
			at = d.Sibling(at)
			total++
		}
		for i, b := range x.labels {
			vAssert(at != 0, "every child of a position is in its list")
			vAssert(d.Label(at) == b, "labels of siblings ascend and are those of the keys")
			unit[x.kids[i]] = at
			at = d.Sibling(at)
			total++
		}
		vAssert(at == 0, "a list holds nothing else")
	}
	vReach("walked")
	transitions, merging := 0, 0
	for k := range reps {
		x := &nodes[reps[k]]
		transitions += len(x.kids)
		if x.term >= 0 {
			transitions++
		}
		if refs[k] > 1 {
			merging++
		}
		vAssert(d.IsMerging(list[k]) == (refs[k] > 1), "a list is flagged as merging exactly when more than one position refers to it")
	}
	vAssert(d.NumOfTransitions() == transitions, "the number of transitions agrees with the graph")
	vAssert(d.Size() == transitions+1, "the size agrees with the graph")
	vAssert(d.NumOfStates() == len(reps)+1, "the number of states agrees with the graph")
	vAssert(d.NumOfMergingStates() == merging, "the number of merging states agrees with the graph")
	vAssert(d.NumOfMergedTransitions() == total-transitions, "the number of merged transitions agrees with the graph")
	vAssert(d.NumOfMergedStates() == total-len(reps), "the number of merged states agrees with the graph")
}

func vSameClass(l *vLex, nodes []vNode, class []int, a, b int) bool {
	x, y := &nodes[a], &nodes[b]
	if (x.term >= 0) != (y.term >= 0) || len(x.kids) != len(y.kids) {
		return false
	}
	if x.term >= 0 && l.vals[x.term] != l.vals[y.term] {
		return false
	}
	for i := range x.kids {
		if x.labels[i] != y.labels[i] || class[x.kids[i]] != class[y.kids[i]] {
			return false
		}
	}
	return true
}
