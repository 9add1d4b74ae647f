package dawg

// C17: the fields packed into one unit, for every content of the unit.
func HUnit() {
	base := vU32("base", 0, 0xffffffff)
	off := vU32("off", 0, 0xffffffff)
	lab := vByte("lab", 0, 255)
	val := vI32("val", 0, 0x7fffffff)
	switch vParam(0) {
	case 0:
		u := base
		dictSetHasLeaf(&u)
		vAssert(dictHasLeaf(u), "the leaf flag is stored")
		vAssert(dictOffset(u) == dictOffset(base), "the leaf flag disturbs nothing")
		vAssert(dictLabel(u) == dictLabel(base), "the leaf flag disturbs nothing (label)")
	case 1:
		u := base
		dictSetValue(&u, val)
		vAssert(dictValue(u) == val, "every value is stored")
		vAssert(vAnd(dictIsLeaf(u), dictLabel(u) >= 1<<31), "a value matches no label")
	case 2:
		u := base
		dictSetLabel(&u, lab)
		vAssert(dictLabel(u)&0xff == uint32(lab), "every label is stored")
		vAssert(dictIsLeaf(u) == dictIsLeaf(base), "a label disturbs nothing")
		vAssert(vAnd(dictOffset(u) == dictOffset(base), dictHasLeaf(u) == dictHasLeaf(base)), "a label disturbs nothing")
	case 3:
		u := base
		vAssume(base < 1<<31)
		near := off < 1<<21
		far := vAnd(off < 1<<29, off&0xff == 0)
		ok := dictSetOffset(&u, off)
		vAssert(vImplies(vOr(near, far), ok), "every distance the format can express is accepted")
		vAssert(vImplies(vOr(near, far), dictOffset(u) == off), "every distance the format can express is stored")
		vAssert(vImplies(vOr(near, far), vAnd(dictHasLeaf(u) == dictHasLeaf(base), dictLabel(u) == dictLabel(base))), "a distance disturbs nothing")
		vAssert(vImplies(off >= 1<<29, vNot(ok)), "a distance too large is refused")
	}
	vReach("packed")
}

// C17: the bookkeeping word of a unit under construction.
func HExtra() {
	n := vU32("n", 0, 1<<29)
	var eu DictionaryExtraUnit
	eu.setNext(vU32("a", 0, 1<<29))
	eu.setPrev(vU32("b", 0, 1<<29))
	if vSplitBool(vBool("f")) {
		eu.setIsFixed()
	}
	if vSplitBool(vBool("u")) {
		eu.setIsUsed()
	}
	f, u, nx, pv := eu.isFixed(), eu.isUsed(), eu.next(), eu.prev()
	vAssert(vAnd(nx == vU32("a", 0, 1<<29), pv == vU32("b", 0, 1<<29)), "links are stored")
	vAssert(vAnd(f == vBool("f"), u == vBool("u")), "flags are stored")
	switch vParam(0) {
	case 0:
		eu.setNext(n)
		vAssert(vAnd(eu.next() == n, vAnd(eu.prev() == pv, vAnd(eu.isFixed() == f, eu.isUsed() == u))), "next disturbs nothing")
	case 1:
		eu.setPrev(n)
		vAssert(vAnd(eu.prev() == n, vAnd(eu.next() == nx, vAnd(eu.isFixed() == f, eu.isUsed() == u))), "prev disturbs nothing")
	case 2:
		eu.setIsFixed()
		vAssert(vAnd(eu.isFixed(), vAnd(eu.next() == nx, vAnd(eu.prev() == pv, eu.isUsed() == u))), "the fixed flag disturbs nothing")
	case 3:
		eu.setIsUsed()
		vAssert(vAnd(eu.isUsed(), vAnd(eu.next() == nx, vAnd(eu.prev() == pv, eu.isFixed() == f))), "the used flag disturbs nothing")
	case 4:
		eu.clear()
		vAssert(vAnd(vNot(eu.isUsed()), vNot(eu.isFixed())), "a cleared unit is clear")
	}
	vReach("packed")
}
