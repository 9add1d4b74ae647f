package dawg

// vAt walks the dictionary to position (i, j).
func (l *vLex) at(dict *Dictionary, i, j int) uint32 {
	index := dict.Root()
	for k := 0; k < j; k++ {
		vAssert(dict.Follow(l.keys[i][k], &index), "a stored prefix is followed")
	}
	return index
}

func vEqualString(s string, b []byte) bool {
	if len(s) != len(b) {
		return false
	}
	r := true
	for i := range b {
		r = vAnd(r, s[i] == b[i])
	}
	return r
}

// vFully runs a completer to its end from position (i, j), with the given
// prefix text, and compares with the lexicon.
func vFully(l *vLex, dict *Dictionary, c *Completer, i, j int, text []byte) {
	below := l.keysBelow(i, j)
	vReach("completed")
	for _, k := range below {
		vAssert(c.Next(), "a key below the prefix is delivered")
		want := vCat(text, l.keys[k][j:])
		vAssert(vEqualString(c.Key(), want), "the completed key is the prefix text followed by the rest of the key, in byte order")
		vAssert(c.Length() == len(want), "the reported length is that of the key")
		vAssert(c.Value() == l.vals[k], "the completed key comes with its value")
	}
	vAssert(!c.Next(), "nothing else is delivered")
	vAssert(!c.Next(), "the end is reported again")
}

func vText(n int) []byte {
	t := make([]byte, n)
	for i := range t {
		t[i] = vByte(vName("p", i), 0, 255)
	}
	return t
}

// C07.  Params: lexicon (4), mode, step between positions.
// mode 0: a new completer at every position; 1: one completer, restarted at
// every position after an unfinished run elsewhere; 2: with prefix texts.
func HComplete() {
	l := vMake(0, false)
	d, dict := l.build()
	guide := BuildGuide(d, dict)
	vAssert(guide != nil, "the guide is built")
	mode, step := vParam(4), vParam(5)
	if step < 1 {
		step = 1
	}
	shared := NewCompleter(dict, guide)
	n := 0
	for i := 0; i < len(l.keys); i += step {
		for j := 0; j <= len(l.keys[i]); j++ {
			if !l.isNew(i, j) && !(j == 0 && i == 0) {
				continue
			}
			index := l.at(dict, i, j)
			switch mode {
			case 0:
				c := NewCompleter(dict, guide)
				c.Start(index)
				vFully(l, dict, c, i, j, nil)
			case 1:
				// an unfinished run from another position comes first
				c := shared
				o := (i*7 + j*3 + n) % len(l.keys)
				c.StartString(l.at(dict, o, n%(len(l.keys[o])+1)), "zz")
				for k := 0; k < n%4; k++ {
					c.Next()
				}
				n++
				c.Start(index)
				vFully(l, dict, c, i, j, nil)
			default:
				c := NewCompleter(dict, guide)
				t := vText(2)
				c.StartStringLen(index, string(t), 1)
				vFully(l, dict, c, i, j, t[:1])
				c.StartString(index, string(t))
				vFully(l, dict, c, i, j, t)
				c.StartString(index, string(l.keys[i][:j]))
				vFully(l, dict, c, i, j, l.keys[i][:j])
			}
		}
	}
}

// C07, C08, C09, C01, C02 on the empty lexicon.  Params: how it came about.
func HEmpty() {
	b := NewDawgBuilder()
	if vParam(0) == 1 {
		vAssert(!b.InsertKeyValue([]byte{0}, 1, 5), "a key with a zero byte is rejected")
	}
	if vParam(0) == 2 {
		vAssert(!b.InsertKeyValue([]byte{7}, 1, -5), "a negative value is rejected")
	}
	d := NewDawg()
	b.Finish(d)
	dict := d.Build()
	vAssert(dict != nil, "an empty dictionary is built")
	q := vQuery(2)
	for n := 0; n <= 2; n++ {
		vAssert(dict.FindString(string(q[:n])) == -1, "an empty dictionary finds nothing")
		vAssert(!dict.ContainsString(string(q[:n])), "an empty dictionary contains nothing")
	}
	index := dict.Root()
	vAssert(!dict.HasValue(index), "the root of an empty dictionary has no value")
	vAssert(!dict.Follow(q[0], &index), "an empty dictionary follows nothing")
	vAssert(index == dict.Root(), "a failed step leaves the position unchanged")
	g := BuildGuide(d, dict)
	r := BuildRankedGuide(d, dict)
	vAssert(g != nil, "the guide of an empty dictionary is built")
	vAssert(r != nil, "the ranked guide of an empty dictionary is built")
	c := NewCompleter(dict, g)
	c.Start(dict.Root())
	vAssert(!c.Next(), "an empty dictionary completes nothing")
	c.StartString(dict.Root(), "x")
	vAssert(!c.Next(), "an empty dictionary completes nothing")
	rc := NewRankedCompleter(dict, r)
	rc.Start(dict.Root())
	vAssert(!rc.Next(), "an empty dictionary completes nothing by rank")
	for k := 0; k < 2; k++ {
		var sg SomeGuide = g
		if k == 1 {
			sg = r
		}
		x := BuildIndex(dict, sg)
		vAssert(x != nil, "the index of an empty dictionary is built")
		ix := NewIndexer(dict, sg, x)
		vAssert(ix.TotalCount() == 0, "an empty dictionary has no keys")
		vAssert(ix.StringToIndex(string(q)) == NotFound, "an empty dictionary numbers nothing")
		vAssert(ix.StringToIndex("") == NotFound, "an empty dictionary numbers nothing")
		i := vU32("i", 0, 0xffffffff)
		vAssert(ix.IndexToBytes(i) == nil, "no number has a key in an empty dictionary")
		vAssert(ix.IndexToString(i) == "", "no number has a key in an empty dictionary")
	}
	vReach("empty")
}

// vRankedFully runs a ranked completer to its end from position (i, j).
func vRankedFully(l *vLex, c *RankedCompleter, i, j int, text []byte) {
	below := l.keysBelow(i, j)
	vReach("completed")
	seen := make([]bool, len(below))
	var last int32 = 0x7fffffff
	for range below {
		vAssert(c.Next(), "a key below the prefix is delivered")
		key, val := c.Key(), c.Value()
		vAssert(c.Length() == len(key), "the reported length is that of the key")
		vAssert(val <= last, "values do not increase")
		last = val
		hit := false
		for k := range below {
			want := vCat(text, l.keys[below[k]][j:])
			is := vEqualString(key, want)
			vAssert(vNot(vAnd(is, seen[k])), "no key is delivered twice")
			vAssert(vImplies(is, val == l.vals[below[k]]), "the completed key comes with its value")
			seen[k] = vOr(seen[k], is)
			hit = vOr(hit, is)
		}
		vAssert(hit, "only keys below the prefix are delivered")
	}
	vAssert(!c.Next(), "nothing else is delivered")
	vAssert(!c.Next(), "the end is reported again")
}

// C08.  Params: lexicon (4), mode (as for HComplete), step.
func HRanked() {
	l := vMake(0, false)
	d, dict := l.build()
	guide := BuildRankedGuide(d, dict)
	vAssert(guide != nil, "the ranked guide is built")
	mode, step := vParam(4), vParam(5)
	if step < 1 {
		step = 1
	}
	shared := NewRankedCompleter(dict, guide)
	n := 0
	for i := 0; i < len(l.keys); i += step {
		for j := 0; j <= len(l.keys[i]); j++ {
			if !l.isNew(i, j) && !(j == 0 && i == 0) {
				continue
			}
			index := l.at(dict, i, j)
			switch mode {
			case 0:
				c := NewRankedCompleter(dict, guide)
				c.Start(index)
				vRankedFully(l, c, i, j, nil)
			case 1:
				c := shared
				o := (i*7 + j*3 + n) % len(l.keys)
				c.StartString(l.at(dict, o, n%(len(l.keys[o])+1)), "zz")
				for k := 0; k < n%4; k++ {
					c.Next()
				}
				n++
				c.Start(index)
				vRankedFully(l, c, i, j, nil)
			default:
				c := NewRankedCompleter(dict, guide)
				t := vText(2)
				c.StartStringLen(index, string(t), 1)
				vRankedFully(l, c, i, j, t[:1])
				c.StartString(index, string(t))
				vRankedFully(l, c, i, j, t)
				c.StartString(index, string(l.keys[i][:j]))
				vRankedFully(l, c, i, j, l.keys[i][:j])
			}
		}
	}
}

// C09.  Params: lexicon (4), ranked guide?, length of the free query.
func HIndex() {
	l := vMake(0, false)
	d, dict := l.build()
	var guide SomeGuide
	if vParam(4) == 1 {
		guide = BuildRankedGuide(d, dict)
	} else {
		guide = BuildGuide(d, dict)
	}
	x := BuildIndex(dict, guide)
	vAssert(x != nil, "the index is built")
	ix := NewIndexer(dict, guide, x)
	vIndexCheck(l, ix, vParam(4) == 0, vParam(5))
}

func vIndexCheck(l *vLex, ix *Indexer, plain bool, qlen int) {
	all := l.keysBelow(0, 0)
	n := len(all)
	vReach("numbered")
	vAssert(ix.TotalCount() == uint32(n), "the total is the number of keys")
	nums := make([]uint32, n)
	for r, k := range all {
		nums[r] = ix.StringToIndex(string(l.keys[k]))
		vAssert(nums[r] < uint32(n), "a key has a number below the total")
		if plain {
			vAssert(nums[r] == uint32(r), "with the plain guide the number is the rank in byte order")
		} else if n <= 40 {
			for q := 0; q < r; q++ {
				vAssert(nums[q] != nums[r], "distinct keys have distinct numbers")
			}
		}
		vAssert(vEqualString(ix.IndexToString(nums[r]), l.keys[k]), "the number leads back to the key")
	}
	// numbers that belong to no key
	i := vU32("i", 0, 0xffffffff)
	vAssume(i >= uint32(n))
	vAssert(ix.IndexToBytes(i) == nil, "a number from the total upward maps to no key")
	vAssert(ix.IndexToString(i) == "", "a number from the total upward maps to no key (string)")
	// strings that are no keys
	if qlen >= 0 {
		q := vQuery(qlen)
		is := false
		for _, k := range all {
			is = vOr(is, vEqual(q, l.keys[k]))
		}
		got := ix.StringToIndex(string(q))
		vAssert(vImplies(vNot(is), got == NotFound), "a string that is no key is not found")
		for r, k := range all {
			vAssert(vImplies(vEqual(q, l.keys[k]), got == nums[r]), "a key is found under its number")
		}
	}
}
