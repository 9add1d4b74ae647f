package dawg

// C01: exact lookup.  Params: lexicon (4), mode, length.
// mode 0: a query of that many symbolic bytes
// mode 1: every position of the lexicon followed by that many symbolic bytes
func HFind() {
	l := vMake(0, false)
	_, dict := l.build()
	n := vParam(5)
	if vParam(4) == 0 {
		vFindCheck(l, dict, vQuery(n))
		return
	}
	for i := range l.keys {
		for j := 0; j <= len(l.keys[i]); j++ {
			if l.isNew(i, j) {
				vFindCheck(l, dict, vCat(l.keys[i][:j], vQuery(n)))
			}
		}
	}
}

func vFindCheck(l *vLex, dict *Dictionary, q []byte) {
	want := l.wanted(q)
	vReach("looked up")
	vAssert(dict.FindString(string(q)) == want, "FindString returns the value of exactly the inserted keys")
	vAssert(dict.ContainsString(string(q)) == (want != -1), "ContainsString accepts exactly the inserted keys")
}

// C02: walking.  Params: lexicon (4), step between the keys examined.  At every
// position all 256 labels are tried (one symbolic label), so by induction over
// the length the walk is exact for strings of every length.
func HWalk() {
	l := vMake(0, false)
	_, dict := l.build()
	step := vParam(4)
	if step < 1 {
		step = 1
	}
	if step > 1 {
		for i := range l.keys {
			vAssert(dict.FindString(string(l.keys[i])) == l.vals[l.terminal(i, len(l.keys[i]))], "a stored key is found with its value")
		}
	}
	for i := 0; i < len(l.keys); i += step {
		index := dict.Root()
		for j := 0; ; j++ {
			if step > 1 || l.isNew(i, j) {
				vNodeCheck(l, dict, index, i, j)
			}
			if j == len(l.keys[i]) {
				break
			}
			vAssert(dict.Follow(l.keys[i][j], &index), "a stored prefix is followed")
		}
	}
}

func vNodeCheck(l *vLex, dict *Dictionary, index uint32, i, j int) {
	t := l.terminal(i, j)
	vAssert(dict.HasValue(index) == (t >= 0), "a value is present exactly at keys")
	if t >= 0 {
		vAssert(dict.Value(index) == l.vals[t], "the value at a position is the value of its key")
	}
	q := vByte("q", 0, 255)
	ok := false
	for _, t := range l.kids(i, j) {
		ok = vOr(ok, q == l.keys[t][j])
	}
	vReach("position")
	next := index
	got := dict.Follow(q, &next)
	vAssert(got == ok, "a step succeeds exactly along stored prefixes")
	vAssert(vOr(got, next == index), "a failed step leaves the position unchanged")
}

// C02: the string forms, from the root.  Params: lexicon (4), length.
func HWalkString() {
	l := vMake(0, false)
	_, dict := l.build()
	n := vParam(4)
	q := vQuery(n)
	// longest stored prefix
	var longest uint32
	for m := 1; m <= n; m++ {
		hit := false
		for i := range l.keys {
			if len(l.keys[i]) >= m {
				hit = vOr(hit, vEqual(q[:m], l.keys[i][:m]))
			}
		}
		longest = vIte32(hit, uint32(m), longest)
	}
	full := longest == uint32(n)
	vReach("walked")
	index := dict.Root()
	vAssert(dict.FollowString(string(q), &index) == full, "FollowString succeeds exactly on stored prefixes")
	if vSplitBool(full) {
		want := l.wanted(q)
		vAssert(dict.HasValue(index) == (want != -1), "value present exactly when the walked string is a key")
		if vSplitBool(want != -1) {
			vAssert(dict.Value(index) == want, "the value found by walking is that of the key")
		}
	}
	count := 5
	index = dict.Root()
	ok := dict.FollowStringCount(string(q), &index, &count)
	vAssert(vAnd(ok == full, count == 5+int(longest)), "the counting form reports the length of the longest stored prefix")
	count = 7
	index = dict.Root()
	ok = dict.FollowStringLenCount(string(vCat(q, []byte{vByte("x", 0, 255)})), n, &index, &count)
	vAssert(vAnd(ok == full, count == 7+int(longest)), "the length-limited counting form reports the length of the longest stored prefix")
}

// C03: agreement of the lookup forms.  Params: lexicon (4), buffer length.
func HForms() {
	l := vMake(0, false)
	_, dict := l.build()
	vFormsCheck(dict, vParam(4))
}

func vSigned(name string) int { return int(vI32(name, -1000, 1<<30)) }

func vFormsCheck(dict *Dictionary, n int) {
	q := string(vQuery(n))
	for m := 0; m <= n; m++ {
		p := q[:m]
		has := dict.ContainsString(p)
		val := dict.FindString(p)
		vReach("compared")
		vAssert(has == (val != -1), "ContainsString agrees with FindString")
		vAssert(dict.ContainsStringLen(q, m) == has, "ContainsStringLen answers for the given number of bytes")
		vAssert(dict.FindStringLen(q, m) == val, "FindStringLen answers for the given number of bytes")
		old := vI32("old", -0x80000000, 0x7fffffff)
		v := old
		vAssert(dict.FindStringValue(p, &v) == has, "FindStringValue agrees with ContainsString")
		vAssert(v == int32(vIte32(has, uint32(val), uint32(old))), "FindStringValue delivers the value, or leaves the variable alone")
		v = old
		vAssert(dict.FindStringLenValue(q, m, &v) == has, "FindStringLenValue agrees with ContainsString")
		vAssert(v == int32(vIte32(has, uint32(val), uint32(old))), "FindStringLenValue delivers the value, or leaves the variable alone")
		ia, ib, ic, id := dict.Root(), dict.Root(), dict.Root(), dict.Root()
		start := vSigned("start")
		ca, cb := start, start
		fa := dict.FollowString(p, &ia)
		fb := dict.FollowStringLen(q, m, &ib)
		fc := dict.FollowStringCount(p, &ic, &ca)
		fd := dict.FollowStringLenCount(q, m, &id, &cb)
		vAssert(vAnd(fa == fb, vAnd(fa == fc, fa == fd)), "the follow forms agree")
		vAssert(vAnd(ia == ib, vAnd(ia == ic, ia == id)), "the follow forms end at the same position")
		vAssert(vAnd(ca == cb, vImplies(fa, ca == start+m)), "the counts agree")
		vAssert(vImplies(has, fa), "a key is a stored prefix")
		if vSplitBool(fa) {
			vAssert(dict.HasValue(ia) == has, "the position reached says whether the string is a key")
			if vSplitBool(has) {
				vAssert(dict.Value(ia) == val, "the position reached holds the value found")
			}
		}
	}
}
