package dawg

// C05: the automaton is minimal and its counters are honest.  Params: lexicon (4).
func HMinimal() {
	l := vMake(0, true)
	d := l.dawg()
	vMinimalCheck(l, d)
}

func vMinimalCheck(l *vLex, d *Dawg) {
	// positions of the trie, and the child list each of them has
	type pos struct{ i, j int }
	var ps []pos
	var list []uint32
	total := 0 // transitions of the trie
	// walk every distinct key
	for i := range l.keys {
		if i+1 < len(l.keys) && l.dup(i+1) {
			continue
		}
		at := d.Root()
		for j := 0; j <= len(l.keys[i]); j++ {
			c := d.Child(at)
			vAssert(c != 0, "an inserted key is spelt by the automaton")
			kids := l.kids(i, j)
			t := l.terminal(i, j)
			if l.isNew(i, j) || l.first(i, j) == l.first(i, len(l.keys[i])) && l.isNew(l.first(i, j), j) && l.dup(i) {
				ps = append(ps, pos{i, j})
				list = append(list, c)
				// the list of children: terminal first, then ascending labels
				n := c
				if t >= 0 {
					vAssert(d.Label(n) == 0, "a key ends in a leaf")
					vAssert(d.IsLeaf(n), "a key ends in a leaf (IsLeaf)")
					vAssert(d.Value(n) == l.vals[t], "the leaf carries the value of the key")
					n = d.Sibling(n)
					total++
				}
				for _, k := range kids {
					vAssert(n != 0, "every child of a position is in its list")
					vAssert(d.Label(n) == l.keys[k][j], "labels of siblings ascend and are those of the keys")
					vAssert(vNot(d.IsLeaf(n)), "an inner transition is no leaf")
					n = d.Sibling(n)
					total++
				}
				vAssert(n == 0, "a list holds nothing else")
			}
			if j == len(l.keys[i]) {
				break
			}
			// step to the unit of the next label
			n := c
			if t >= 0 {
				n = d.Sibling(n)
			}
			for _, k := range kids {
				if l.last(k, j+1) >= i {
					break
				}
				n = d.Sibling(n)
			}
			at = n
		}
	}
	vReach("walked")
	// sharing
	for x := range ps {
		for y := x + 1; y < len(ps); y++ {
			eq := l.sameBelow(ps[x].i, ps[x].j, ps[y].i, ps[y].j)
			vAssert(vIff(list[x] == list[y], eq), "two positions share their child list exactly when the same suffixes and values hang below them")
		}
	}
	// counters, computed from the graph; lists are concrete here
	var lists []uint32
	var refs []int
	for _, c := range list {
		seen := false
		for k := range lists {
			if lists[k] == c {
				refs[k]++
				seen = true
			}
		}
		if !seen {
			lists = append(lists, c)
			refs = append(refs, 1)
		}
	}
	transitions, merging := 0, 0
	for k, c := range lists {
		for n := c; n != 0; n = d.Sibling(n) {
			transitions++
		}
		if refs[k] > 1 {
			merging++
		}
		vAssert(d.IsMerging(c) == (refs[k] > 1), "a list is flagged as merging exactly when more than one position refers to it")
	}
	vAssert(d.NumOfTransitions() == transitions, "the number of transitions agrees with the graph")
	vAssert(d.Size() == transitions+1, "the size agrees with the graph")
	vAssert(d.NumOfStates() == len(lists)+1, "the number of states agrees with the graph")
	vAssert(d.NumOfMergingStates() == merging, "the number of merging states agrees with the graph")
	vAssert(d.NumOfMergedTransitions() == total-transitions, "the number of merged transitions agrees with the graph")
	vAssert(d.NumOfMergedStates() == total-len(lists), "the number of merged states agrees with the graph")
}

// sameBelow: do the same suffixes with the same values hang below two positions?
func (l *vLex) sameBelow(a, aj, b, bj int) bool {
	ta, tb := l.terminal(a, aj), l.terminal(b, bj)
	if (ta >= 0) != (tb >= 0) {
		return false
	}
	ka, kb := l.kids(a, aj), l.kids(b, bj)
	if len(ka) != len(kb) {
		return false
	}
	r := true
	if ta >= 0 {
		r = l.vals[ta] == l.vals[tb]
	}
	for i := range ka {
		r = vAnd(r, l.keys[ka[i]][aj] == l.keys[kb[i]][bj])
		r = vAnd(r, l.sameBelow(ka[i], aj+1, kb[i], bj+1))
	}
	return r
}

// C06: hash-table size.  Params: lexicon (4), initial size.
func HHashSize() {
	l := vMake(0, true)
	b := NewDawgBuilderWithSize(vParam(4))
	l.insertAll(b)
	d := NewDawg()
	b.Finish(d)
	vMinimalCheck(l, d)
}

// C06: builder reuse.  Params: two shapes (4+4), initial size (0: default), mode.
// mode 1: the builder finished an empty automaton first; 2: an insertion was
// rejected first; 3: both automata go to one Dawg object, cleared in between;
// 4: likewise, not cleared.  In modes 3 and 4 a third automaton follows.
func HReuse() {
	l := vMake(0, true)
	var b *DawgBuilder
	if n := vParam(8); n > 0 {
		b = NewDawgBuilderWithSize(n)
	} else {
		b = NewDawgBuilder()
	}
	mode := vParam(9)
	if mode == 1 {
		e := NewDawg()
		b.Finish(e)
		vAssert(vAnd(e.Size() == 1, e.Child(e.Root()) == 0), "an empty automaton has no transitions")
	}
	if mode == 2 {
		vAssert(!b.InsertKeyValue([]byte{1}, 1, -1), "a negative value is rejected")
	}
	l.insertAll(b)
	d := NewDawg()
	b.Finish(d)
	before := d
	if mode >= 3 {
		vMinimalCheck(l, d)
	}
	m := vSecond(vParam(4), vParam(5), vParam(6), vParam(7))
	m.insertAll(b)
	e := NewDawg()
	if mode >= 3 {
		if mode == 3 {
			d.Clear()
		}
		e = d
	}
	b.Finish(e)
	vReach("reused")
	vMinimalCheck(m, e)
	if mode < 3 {
		vMinimalCheck(l, before)
		return
	}
	m = vSecond(-2, 12, 3, 3)
	m.insertAll(b)
	f := NewDawg()
	b.Finish(f)
	vMinimalCheck(m, f)
}

// vSecond makes a second lexicon with variables of its own.
func vSecond(lenCode, lcpCode, dom, kind int) *vLex {
	if lenCode < 0 {
		return vConcrete(-lenCode, lcpCode, dom, kind)
	}
	lens, lcps := vCode(lenCode), vCode(lcpCode)
	l := &vLex{lcp: lcps}
	for i := range lens {
		k := make([]byte, lens[i])
		for j := range k {
			if i > 0 && j < lcps[i] {
				k[j] = l.keys[i-1][j]
				continue
			}
			k[j] = vByte(vName2("m", i, j), 1, 255)
			if i > 0 && j == lcps[i] && j < lens[i-1] {
				vAssume(k[j] > l.keys[i-1][j])
			}
		}
		l.keys = append(l.keys, k)
		switch kind {
		case 2:
			l.vals = append(l.vals, 0)
		case 3:
			l.vals = append(l.vals, int32(i+1))
		default:
			l.vals = append(l.vals, vI32(vName("w", i), 0, 0x7fffffff))
		}
	}
	return l
}
