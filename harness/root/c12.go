package dawg

// Code point classes used to split the work: param c < 0 leaves the whole
// range 0..0x10ffff, otherwise one of the intervals below is taken.
func vClass(name string, c int) rune {
	switch c {
	case 0:
		return vRune(name, 0, 0x7f)
	case 1:
		return vRune(name, 0x80, 0x2ff)
	case 2:
		return vRune(name, 0x300, 0x1fff)
	case 3:
		return vRune(name, 0x2000, 0x25ff)
	case 4:
		return vRune(name, 0x2600, 0x2fff)
	case 5:
		return vRune(name, 0x3000, 0x30ff)
	case 6:
		return vRune(name, 0x3100, 0xffff)
	case 7:
		return vRune(name, 0x10000, 0x10ffff)
	case 8:
		return vRune(name, 0, 0x1fff)
	case 9:
		return vRune(name, 0x2000, 0x10ffff)
	}
	return vRune(name, 0, 0x10ffff)
}

// vText gives n code points; classes is a decimal number whose digits (from
// the left, one per code point, digit-1 = class, 0 = any) split the work.
func vRuneSeq(prefix string, n, classes int) []rune {
	r := make([]rune, n)
	for i := n - 1; i >= 0; i-- {
		c := -1
		if classes > 0 {
			c = classes%11 - 1
			classes /= 11
		}
		r[i] = vClass(vName(prefix, i), c)
	}
	return r
}

// A long concrete text that visits many encoder states.
func vLongText(n, seed int) []rune {
	base := []rune{0x41, 0x44f, 0x3b1, 0x3042, 0x4e2d, 0x1f300, 0x20, 0x7a, 0x100, 0x2603, 0xac00, 0x5d0, 0x1f600, 0x3100, 0x80, 0x400, 0x2f00, 0x0}
	x := uint32(seed)*2654435761 + 12345
	var r []rune
	for len(r) < n {
		x = x*1664525 + 1013904223
		b := base[int(x>>8)%len(base)]
		x = x*1664525 + 1013904223
		k := 1 + int(x>>12)%4
		for j := 0; j < k && len(r) < n; j++ {
			x = x*1664525 + 1013904223
			r = append(r, b+rune(x>>16)%0x30)
		}
	}
	return r
}

// C12 and C13.  Params: code points, classes, what (1 round trip, 2 zero bytes
// and length, 3 both), concrete code points put before (0 = none), seed.
func HUtfc() {
	n, what := vParam(0), vParam(2)
	var r []rune
	if vParam(3) > 0 {
		r = vLongText(vParam(3), vParam(4))
	}
	r = append(r, vRuneSeq("c", n, vParam(1))...)
	s := vRunes(r)
	e := UtfcEncode(s)
	vReach("encoded")
	if what&2 != 0 {
		for _, b := range e {
			vAssert(b != 0, "the encoding contains no zero byte")
		}
		vAssert(len(e) <= 3*len(r), "at most three bytes per code point")
		vAssert((len(e) == 0) == (len(r) == 0), "only the empty string encodes to nothing")
	}
	if what&1 != 0 {
		t := UtfcDecode(e)
		vAssert(t == s, "decoding gives back the string")
		vReach("decoded")
	}
}

// C12: distinct strings have distinct encodings (checked directly, without
// the decoder).  Params: code points of either string, classes of either.
func HUtfcDistinct() {
	a := vRunes(vRuneSeq("a", vParam(0), vParam(2)))
	b := vRunes(vRuneSeq("b", vParam(1), vParam(3)))
	vAssume(a != b)
	vReach("distinct")
	ea, eb := UtfcEncode(a), UtfcEncode(b)
	vAssert(string(ea) != string(eb), "distinct strings have distinct encodings")
}

// C13: every encoding is accepted as a key and found again.
// Params: code points, classes, 1 to build and look up too.
func HUtfcKey() {
	s := vRunes(vRuneSeq("c", vParam(0), vParam(1)))
	vAssume(len(s) > 0)
	e := UtfcEncode(s)
	b := NewDawgBuilder()
	vAssert(b.InsertKeyValue(e, len(e), 7), "an encoding is accepted as a key")
	vReach("inserted")
	if vParam(2) == 0 {
		return
	}
	d := NewDawg()
	b.Finish(d)
	dict := d.Build()
	vAssert(dict != nil && dict.FindString(string(e)) == 7, "an encoding is found again")
	vReach("found")
}

type vTape struct {
	got   []byte
	limit int // bytes accepted, < 0: any number
	late  bool
	no    bool
}

func (t *vTape) Follow(b byte) bool {
	if t.no {
		t.late = true
	}
	if t.limit >= 0 && len(t.got) >= t.limit {
		t.no = true
		return false
	}
	t.got = append(t.got, b)
	return true
}

// C14: pieces, copies.  Params: code points, classes, split point, mode
// (0 one state, 1 copy into a used state, 2 copy into a new one, the original
// moving on before, 3 cleared used state).
func HUtfcPieces() {
	n, k, mode := vParam(0), vParam(2), vParam(3)
	r := vRuneSeq("c", n, vParam(1))
	s := vRunes(r)
	whole := &vTape{limit: -1}
	vAssert(UtfcFollow(s, whole), "encoding without refusal reports success")
	e := UtfcEncode(s)
	vAssert(vSameBytes(e, whole.got), "the follower sees the encoding")
	st := NewUtfcState()
	if mode == 3 {
		st.Follow(vClass("x", -1), &vTape{limit: -1})
		st.Clear()
	}
	t := &vTape{limit: -1}
	for i := 0; i < k; i++ {
		vAssert(st.Follow(r[i], t), "a step without refusal reports success")
	}
	pre := UtfcEncode(vRunes(r[:k]))
	vAssert(vSameBytes(pre, t.got), "a prefix encodes to a prefix")
	switch mode {
	case 1:
		u := NewUtfcState()
		u.Follow(vClass("x", -1), &vTape{limit: -1})
		u.Copy(st)
		st.Follow(vClass("y", -1), &vTape{limit: -1})
		st = u
	case 2:
		u := NewUtfcState()
		u.Copy(st)
		v := NewUtfcState()
		v.Copy(u)
		v.Follow(vClass("x", -1), &vTape{limit: -1})
		st = u
	}
	for i := k; i < n; i++ {
		vAssert(st.Follow(r[i], t), "a step without refusal reports success")
	}
	vAssert(vSameBytes(t.got, whole.got), "pieces encode like the whole")
	vReach("compared")
}

// C14: refusal.  Params: code points, classes, refusal position (-1 symbolic),
// mode (0 UtfcFollow, 1 state object).
func HUtfcRefuse() {
	n, at, mode := vParam(0), vParam(2), vParam(3)
	r := vRuneSeq("c", n, vParam(1))
	s := vRunes(r)
	e := UtfcEncode(s)
	if at < 0 {
		at = vInt("at", 0, 3*n)
	}
	t := &vTape{limit: at}
	ok := true
	if mode == 0 {
		ok = UtfcFollow(s, t)
	} else {
		st := NewUtfcState()
		for _, c := range r {
			if !st.Follow(c, t) {
				ok = false
				break
			}
		}
	}
	vAssert(ok == (at >= len(e)), "encoding fails exactly when a byte is refused")
	vAssert(!t.late, "nothing is delivered after a refusal")
	if at > len(e) {
		at = len(e)
	}
	vAssert(vSameBytes(t.got, e[:at]), "the bytes before the refusal are delivered")
	vReach("refused")
}

// C15.  Params: code points of the string, classes, history (bit 0 encode,
// 1 abort, 2 decode), code points of the history, its classes, concrete code
// points in the history (0 none).
func HUtfcHistory() {
	n, hist, m := vParam(0), vParam(2), vParam(3)
	b := vRunes(vRuneSeq("c", n, vParam(1)))
	hr := vRuneSeq("h", m, vParam(4))
	if vParam(5) > 0 {
		hr = append(vLongText(vParam(5), 1), hr...)
	}
	h := vRunes(hr)
	e0 := UtfcEncode(b)
	k0 := append([]byte{}, e0...)
	if hist&1 != 0 {
		UtfcEncode(h)
	}
	if hist&2 != 0 {
		UtfcFollow(h+h, &vTape{limit: vSplit(vInt("abort", 0, 4))})
	}
	if hist&4 != 0 {
		vAssert(UtfcDecode(k0) == b, "decoding is independent of earlier calls")
	}
	vAssert(vSameBytes(e0, k0), "a returned encoding is not changed by later calls")
	e1 := UtfcEncode(b)
	vAssert(vSameBytes(e1, k0), "the encoding is the same whatever happened before")
	if hist&4 != 0 {
		vAssert(UtfcDecode(e1) == b, "decoding is independent of earlier calls")
		vAssert(vSameBytes(e1, k0), "decoding leaves its argument alone")
	}
	// what a caller does with a result has no effect on later results
	for i := range e1 {
		e1[i] ^= 0x55
	}
	vAssert(vSameBytes(UtfcEncode(b), k0), "results are not shared")
	if hist&1 != 0 {
		eh := UtfcEncode(h)
		kh := append([]byte{}, eh...)
		t := &vTape{limit: -1}
		UtfcFollow(b, t)
		vAssert(vSameBytes(t.got, k0), "the encoding is the same whatever happened before")
		vAssert(vSameBytes(eh, kh), "a returned encoding is not changed by later calls")
	}
	vReach("compared")
}

func vSameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vAnd(ok, a[i] == b[i])
	}
	return ok
}
