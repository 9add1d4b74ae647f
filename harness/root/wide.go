package dawg

// C17: building while the free space lies far away.  The builder is put into
// the state it has after many full blocks, with the units of two parents in
// chosen places; a first run with few blocks (all distances short) makes sure
// that this state still means what it is taken to mean.

// Params: number of full blocks, place of the first parent, place of the
// second, arrangement (0: both parents have the same children, 1: different
// ones), number of free units kept in the last blocks.
func HWide() {
	blocks := vParam(0)
	p1, p2 := vPlace(vParam(1), blocks), vPlace(vParam(2), blocks)
	lab := vByte("lab", 1, 255)
	n1, n2 := vPlace(vParam(1)%5120, 40), vPlace(vParam(2)%5120, 40)
	vAssume(vWideRun(40, n1, n2, vParam(3), vParam(4), lab) == "")
	vReach("near")
	bad := vWideRun(blocks, p1, p2, vParam(3), vParam(4), lab)
	vReach("far")
	vAssert(bad == "", "children placed far away: "+bad)
}

func vPlace(p, blocks int) int {
	if p < 0 {
		return blocks*blockSize + p
	}
	return p
}

func vWideRun(blocks, p1, p2, arr, free int, lab byte) string {
	// root -> 1 -> {x, y}, root -> 2 -> the same or {x, z}
	b := NewDawgBuilder()
	b.InsertKeyValue([]byte{1, 60, 5}, 3, 1)
	b.InsertKeyValue([]byte{1, 200, 6}, 3, 2)
	b.InsertKeyValue([]byte{2, 60, 5}, 3, 1)
	if arr == 0 {
		b.InsertKeyValue([]byte{2, 200, 6}, 3, 2)
	} else {
		b.InsertKeyValue([]byte{2, 201, 6}, 3, 2)
	}
	d := NewDawg()
	b.Finish(d)
	dict := NewDictionary()
	db := NewDictionaryBuilder(d, dict)
	db.linkTable = NewLinkTable(d.NumOfMergingStates() + d.NumOfMergingStates()>>1)
	db.units = make([]DictionaryUnit, blocks*blockSize)
	db.extras = make([][]DictionaryExtraUnit, blocks)
	for i := blocks - numOfUnfixedBlocks; i < blocks; i++ {
		db.extras[i] = make([]DictionaryExtraUnit, blockSize)
		for j := 0; j < blockSize; j++ {
			db.extras[i][j].setIsFixed()
			db.extras[i][j].setIsUsed()
		}
	}
	db.unfixedIndex = db.numOfUnits()
	// some free units, in a circular list, at odd places of the last block
	for k := 0; k < free; k++ {
		at := db.numOfUnits() - 1 - uint32(k*7%blockSize)
		prev := db.numOfUnits() - 1 - uint32((k+free-1)%free*7%blockSize)
		next := db.numOfUnits() - 1 - uint32((k+1)%free*7%blockSize)
		db.extra(at).clear()
		db.extra(at).setPrev(prev)
		db.extra(at).setNext(next)
	}
	if free > 0 {
		db.unfixedIndex = db.numOfUnits() - 1
	}
	a := d.Child(d.Root())
	c := d.Sibling(a)
	if !db.buildDictionaryIndices(a, uint32(p1)) || !db.buildDictionaryIndices(c, uint32(p2)) {
		return "refused"
	}
	db.fixAllBlocks()
	dict.setUnits(db.units)
	second := byte(200)
	if arr != 0 {
		second = 201
	}
	if s := vWideCheck(dict, uint32(p1), lab, 200); s != "" {
		return "first parent, " + s
	}
	if s := vWideCheck(dict, uint32(p2), lab, second); s != "" {
		return "second parent, " + s
	}
	return ""
}

func vWideCheck(dict *Dictionary, at uint32, lab byte, second byte) string {
	if dict.HasValue(at) {
		return "a value is present at no key"
	}
	for k, b := range []byte{60, second} {
		index := at
		if !dict.Follow(b, &index) {
			return "a child is lost"
		}
		if dict.HasValue(index) {
			return "a value is present at no key"
		}
		if !dict.Follow(byte(5+k), &index) {
			return "a grandchild is lost"
		}
		if !dict.HasValue(index) {
			return "a value is lost"
		}
		if dict.Value(index) != int32(k+1) {
			return "a value is wrong"
		}
	}
	index := at
	if vSplitBool(dict.Follow(lab, &index) != vOr(lab == 60, lab == second)) {
		return "a step does not succeed exactly along stored prefixes"
	}
	return ""
}
