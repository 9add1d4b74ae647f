package dawg

// C09: dictionaries with up to billions of keys.  A dictionary and a guide in
// their stored form are written down directly: a chain of levels, each with
// the children 'a' and 'b', both of which lead to the next level.
//
// Params: levels, whether every position is a key (else only the last ones),
// guide (0 plain, 1 ranked), what (0 number to key, 1 key to number), shift,
// pattern: beyond 8 levels only the 6 bits from the shift on are free, the
// others come from the pattern.
func HHuge() {
	depth, all := vParam(0), vParam(1) == 1
	n := 256 * (depth + 2)
	units := make([]uint32, n)
	guide := make([]byte, 2*n)
	for i := range units {
		units[i] = uint32(i&0xff) ^ 1 // matches no step from the base of a block
	}
	base := func(level int) uint32 { return uint32(256 * (level + 1)) }
	set := func(i uint32, label uint32, level int) {
		// a node whose children are in block `level`
		units[i] = label | (i^base(level))<<10
		if all || level == depth {
			units[i] |= 1 << 8
			units[base(level)] = 1<<31 | uint32(level)
		}
		if level < depth {
			guide[2*i] = 'a'
		}
	}
	set(0, 0, 0)
	for level := 0; level < depth; level++ {
		set(base(level)^'a', 'a', level+1)
		set(base(level)^'b', 'b', level+1)
		guide[2*(base(level)^'a')+1] = 'b'
	}
	out := vLE(uint32(n))
	for _, u := range units {
		out = append(out, vLE(u)...)
	}
	dict := ReadDictionary(&vReader{data: out, first: 1 << 30, rest: 1 << 30, limit: len(out)})
	vAssert(dict != nil, "the dictionary is read")
	out = append(vLE(uint32(n)), guide...)
	var sg SomeGuide
	if vParam(2) == 0 {
		g := ReadGuide(&vReader{data: out, first: 1 << 30, rest: 1 << 30, limit: len(out)})
		vAssert(g != nil, "the guide is read")
		sg = g
	} else {
		g := ReadRankedGuide(&vReader{data: out, first: 1 << 30, rest: 1 << 30, limit: len(out)})
		vAssert(g != nil, "the ranked guide is read")
		sg = g
	}
	x := BuildIndex(dict, sg)
	vAssert(x != nil, "the index is built")
	ix := NewIndexer(dict, sg, x)
	// sizes below each level
	size := make([]uint32, depth+1)
	size[depth] = 1
	for level := depth - 1; level >= 0; level-- {
		size[level] = 2 * size[level+1]
		if all {
			size[level]++
		}
	}
	vAssert(ix.TotalCount() == size[0], "the total is the number of keys")
	vReach("numbered")
	if vParam(3) == 0 {
		i := vU32("i", 0, 0xffffffff)
		if depth > 8 {
			vAssume(vOr(i >= size[0], (i^uint32(vParam(5)))&^(63<<uint(vParam(4))) == 0))
		}
		if vSplitBool(i >= size[0]) {
			vAssert(ix.IndexToBytes(i) == nil, "a number from the total upward maps to no key")
			return
		}
		got := ix.IndexToBytes(i)
		vAssert(got != nil, "a number below the total has a key")
		// where the number leads
		rest := i
		for level := 0; level < depth; level++ {
			if all {
				if vSplitBool(rest == 0) {
					vAssert(len(got) == level, "the number leads to its key (length)")
					return
				}
				rest--
			}
			second := rest >= size[level+1]
			vAssert(len(got) > level, "the number leads to its key (length)")
			vAssert(uint32(got[level]) == vIte32(second, 'b', 'a'), "the number leads to its key")
			rest = vIte32(second, rest-size[level+1], rest)
		}
		vAssert(len(got) == depth, "the number leads to its key (length)")
		return
	}
	q := make([]byte, depth)
	var want uint32
	for level := range q {
		bit := vParam(5)>>uint(level)&1 == 1
		if depth <= 8 || level >= vParam(4) && level < vParam(4)+6 {
			bit = vBool(vName("b", level))
		}
		q[level] = byte(vIte32(bit, 'b', 'a'))
		if all {
			want++
		}
		want += vIte32(bit, size[level+1], 0)
	}
	vAssert(ix.StringToIndex(string(q)) == want, "a key has its rank as its number")
	vAssert(ix.StringToIndex(string(q)+"a") == NotFound, "a string that is no key is not found")
	if !all && depth > 0 {
		vAssert(ix.StringToIndex(string(q[1:])) == NotFound, "a string that is no key is not found")
	}
}

func vLE(u uint32) []byte { return []byte{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)} }
