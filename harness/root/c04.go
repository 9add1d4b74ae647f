package dawg

// C04: insertion contract.  Params: key length code, extra bytes in the
// buffers, mode, number of fixed valid keys before, maximum label.
// mode 0: InsertKeyValue; 1: InsertStringValue; 2: InsertString.
func HInsert() {
	lens := vCode(vParam(0))
	extra := vParam(1)
	mode := vParam(2)
	top := vParam(3)
	if top == 0 {
		top = 255
	}
	b := NewDawgBuilder()
	type ins struct {
		key []byte
		val int32
	}
	var accepted []ins
	for i := range lens {
		buf := make([]byte, lens[i]+extra)
		for j := range buf {
			buf[j] = vByte(vName2("k", i, j), 0, top)
		}
		key := append([]byte(nil), buf[:lens[i]]...)
		var val int32
		if mode != 2 {
			val = vI32(vName("v", i), -0x80000000, 0x7fffffff)
		}
		ok := val >= 0
		for j := range key {
			ok = vAnd(ok, key[j] != 0)
		}
		if len(accepted) > 0 {
			ok = vAnd(ok, vNot(vLess(key, accepted[len(accepted)-1].key)))
		}
		var got bool
		switch mode {
		case 0:
			got = b.InsertKeyValue(buf, lens[i], val)
		case 1:
			got = b.InsertStringValue(string(key), val)
		default:
			got = b.InsertString(string(key))
		}
		vReach("inserted")
		vAssert(got == ok, "an insertion succeeds exactly when the key is NUL-free, ordered and its value is non-negative")
		for j := range key {
			vAssert(buf[j] == key[j], "the caller's key is not modified")
		}
		for j := range buf {
			buf[j] = 0xee // the buffer belongs to the caller
		}
		if vSplitBool(ok) {
			accepted = append(accepted, ins{key, val})
		}
	}
	d := NewDawg()
	b.Finish(d)
	ref := NewDawgBuilder()
	for _, a := range accepted {
		vAssert(ref.InsertKeyValue(a.key, len(a.key), a.val), "an ordered key is accepted")
	}
	e := NewDawg()
	ref.Finish(e)
	vSameDawg(d, e, "rejected insertions have no effect")
}

// vSameDawg compares two automata unit by unit.
func vSameDawg(d, e *Dawg, msg string) {
	if d.Size() != e.Size() {
		vAssert(false, msg)
		return
	}
	ok := vAnd(d.NumOfStates() == e.NumOfStates(), d.NumOfTransitions() == e.NumOfTransitions())
	ok = vAnd(ok, vAnd(d.NumOfMergedStates() == e.NumOfMergedStates(), d.NumOfMergedTransitions() == e.NumOfMergedTransitions()))
	ok = vAnd(ok, d.NumOfMergingStates() == e.NumOfMergingStates())
	vSameNode(d, e, d.Root(), e.Root(), msg, 0)
	vAssert(ok, msg+" (counters)")
}

// vSameNode compares what hangs below two units.
func vSameNode(d, e *Dawg, a, b uint32, msg string, depth int) {
	if depth > 0 {
		vAssert(d.Label(a) == e.Label(b), msg+" (label)")
		if d.IsLeaf(a) {
			vAssert(d.Value(a) == e.Value(b), msg+" (value)")
			return
		}
	}
	x, y := d.Child(a), e.Child(b)
	vAssert((x == 0) == (y == 0), msg+" (children)")
	if x != 0 && y != 0 {
		vAssert(d.IsMerging(x) == e.IsMerging(y), msg+" (merging flag)")
	}
	for x != 0 && y != 0 {
		vSameNode(d, e, x, y, msg, depth+1)
		x, y = d.Sibling(x), e.Sibling(y)
		vAssert((x == 0) == (y == 0), msg+" (siblings)")
	}
}
