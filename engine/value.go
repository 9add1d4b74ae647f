package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Float, *StrV, SliceV, PtrV, *StructV, *ArrV, IfaceV,
// *FuncV, MapV, TupleV, *IterV.
type Value interface{}

type Float float64

// StrElem is a byte, or (r != nil) the UTF-8 encoding of a whole code point.
type StrElem struct {
	b *Term // 8 bits
	r *Term // 32 bits: a valid code point, not yet expanded to bytes
}

type StrV struct{ e []StrElem }

type SliceV struct {
	obj      int // 0: nil slice
	off      int
	len, cap int
}

// PtrV points at an object, or into it: idx selects an array element, path the
// fields below.
type PtrV struct {
	obj  int // 0: nil
	idx  *Term
	path string // encoded field path, one byte per step
}

type StructV struct{ f []Value }

type ArrV struct{ e []Value }

type IfaceV struct {
	t types.Type // nil: nil interface
	v Value
}

type FuncV struct {
	fn     *ssa.Function
	binds  []Value
	native func(x *Exec, st *State, args []Value) []Res
	bname  string // builtin
}

type MapV struct{ obj int }

type TupleV []Value

type IterV struct {
	s   *StrV
	m   []mapEnt
	pos int // object id holding the position
}

type mapEnt struct {
	k, v Value
}

// Obj is an immutable heap object version.
type Obj struct {
	kind  int // 0 cell, 1 columns array, 2 value array, 3 map, 4 iterator position, 5 file
	typ   types.Type
	val   Value
	n     int
	cols  []*ArrVer
	elems PVec[Value2]
	ents  []mapEnt
	site  string
}

// Value2 boxes a Value so that PVec diffing can compare pointers.
type Value2 = *vbox
type vbox struct{ v Value }

// ---- type helpers ----

func under(t types.Type) types.Type { return t.Underlying() }

func scalarWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

// leafWidths flattens a scalar or struct-of-scalars type; ok is false for others.
func leafWidths(t types.Type, out []int) ([]int, bool) {
	if w, _, ok := scalarWidth(t); ok {
		return append(out, w), true
	}
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			var ok bool
			out, ok = leafWidths(s.Field(i).Type(), out)
			if !ok {
				return nil, false
			}
		}
		if s.NumFields() == 0 {
			return nil, false
		}
		return out, true
	}
	return nil, false
}

type leafInfo struct {
	ws []int
	ok bool
}

func (x *Exec) leaves(t types.Type) ([]int, bool) {
	if l, ok := x.leafCache[t]; ok {
		return l.ws, l.ok
	}
	ws, ok := leafWidths(t, nil)
	if len(ws) > 16 {
		ok = false
	}
	x.leafCache[t] = leafInfo{ws, ok}
	return ws, ok
}

func (x *Exec) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := scalarWidth(t); ok {
			if w == 0 {
				return x.c.False
			}
			return x.c.Const(0, w)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return &StrV{}
		case types.Float64, types.Float32, types.UntypedFloat:
			return Float(0)
		case types.UnsafePointer:
			return PtrV{}
		case types.UntypedNil:
			return PtrV{}
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Map:
		return MapV{}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrV{e: make([]Value, u.Len())}
		z := x.zero(u.Elem())
		for i := range a.e {
			a.e[i] = z
		}
		return a
	case *types.Chan:
		return PtrV{}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = x.zero(u.At(i).Type())
		}
		return tv
	}
	x.unsup("zero value of %s", t)
	return nil
}

// ---- heap ----

func (x *Exec) newObj(st *State, o *Obj) int {
	x.nextObj++
	id := x.nextObj
	st.heap = st.heap.Set(id, o)
	return id
}

// newArrayObj allocates a zeroed backing array.
func (x *Exec) newArrayObj(st *State, elem types.Type, n int) int {
	return x.newObj(st, x.mkArrayObj(elem, n))
}

func (x *Exec) mkArrayObj(elem types.Type, n int) *Obj {
	if ws, ok := x.leaves(elem); ok {
		o := &Obj{kind: 1, typ: elem, n: n}
		for _, w := range ws {
			o.cols = append(o.cols, x.c.newArr(n, w))
		}
		return o
	}
	return &Obj{kind: 2, typ: elem, n: n}
}

// leafRange gives the first leaf and the type at a field path below t.
func leafRange(t types.Type, path string) (int, types.Type) {
	base := 0
	for i := 0; i < len(path); i++ {
		s := under(t).(*types.Struct)
		for k := 0; k < int(path[i]); k++ {
			ws, _ := leafWidths(s.Field(k).Type(), nil)
			base += len(ws)
		}
		t = s.Field(int(path[i])).Type()
	}
	return base, t
}

func (x *Exec) build(t types.Type, get func(i int) *Term, pos *int) Value {
	if _, _, ok := scalarWidth(t); ok {
		v := get(*pos)
		*pos++
		return v
	}
	s := under(t).(*types.Struct)
	sv := &StructV{f: make([]Value, s.NumFields())}
	for i := range sv.f {
		sv.f[i] = x.build(s.Field(i).Type(), get, pos)
	}
	return sv
}

func flattenVal(v Value, out []*Term) []*Term {
	switch t := v.(type) {
	case *Term:
		return append(out, t)
	case *StructV:
		for _, f := range t.f {
			out = flattenVal(f, out)
		}
		return out
	}
	panic(fmt.Sprintf("flattenVal %T", v))
}

// elemAt reads element idx (absolute) of an array object.
func (x *Exec) elemAt(o *Obj, idx *Term, path string) Value {
	if o.kind == 1 {
		base, t := leafRange(o.typ, path)
		p := base
		return x.build(t, func(i int) *Term { return x.c.Select(o.cols[i], idx) }, &p)
	}
	if !idx.isConst() {
		x.unsup("symbolic index into array of %s", o.typ)
	}
	var v Value
	if b := o.elems.Get(int(idx.val)); b != nil {
		v = b.v
	} else {
		v = x.zero(o.typ)
	}
	return getPath(x, v, path)
}

func getPath(x *Exec, v Value, path string) Value {
	for i := 0; i < len(path); i++ {
		switch s := v.(type) {
		case *StructV:
			v = s.f[path[i]]
		case *ArrV:
			v = s.e[path[i]]
		default:
			x.unsup("path into %T", v)
		}
	}
	return v
}

func setPath(x *Exec, v Value, path string, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch s := v.(type) {
	case *StructV:
		n := &StructV{f: append([]Value(nil), s.f...)}
		n.f[path[0]] = setPath(x, s.f[path[0]], path[1:], nv)
		return n
	case *ArrV:
		n := &ArrV{e: append([]Value(nil), s.e...)}
		n.e[path[0]] = setPath(x, s.e[path[0]], path[1:], nv)
		return n
	}
	x.unsup("store path into %T", v)
	return nil
}

func (x *Exec) setElem(o *Obj, idx *Term, path string, v Value) *Obj {
	n := *o
	if o.kind == 1 {
		base, _ := leafRange(o.typ, path)
		n.cols = append([]*ArrVer(nil), o.cols...)
		for i, t := range flattenVal(v, nil) {
			n.cols[base+i] = x.c.Store(o.cols[base+i], idx, t)
		}
		return &n
	}
	if !idx.isConst() {
		x.unsup("symbolic store into array of %s", o.typ)
	}
	if len(path) > 0 {
		var old Value
		if b := o.elems.Get(int(idx.val)); b != nil {
			old = b.v
		} else {
			old = x.zero(o.typ)
		}
		v = setPath(x, old, path, v)
	}
	n.elems = o.elems.Set(int(idx.val), &vbox{v})
	return &n
}

func (x *Exec) load(st *State, p PtrV) Value {
	o := st.heap.Get(p.obj)
	if o == nil {
		x.unsup("load from unknown object %d", p.obj)
	}
	switch o.kind {
	case 0:
		return getPath(x, o.val, p.path)
	case 1, 2:
		if p.idx == nil {
			// whole array value
			a := &ArrV{e: make([]Value, o.n)}
			for i := range a.e {
				a.e[i] = x.elemAt(o, x.c.Const(uint64(i), 64), "")
			}
			return a
		}
		return x.elemAt(o, p.idx, p.path)
	}
	x.unsup("load from object kind %d", o.kind)
	return nil
}

func (x *Exec) store(st *State, p PtrV, v Value) {
	o := st.heap.Get(p.obj)
	if o == nil {
		x.unsup("store to unknown object")
	}
	x.noteWrite(st, p.obj)
	switch o.kind {
	case 0:
		n := *o
		n.val = setPath(x, o.val, p.path, v)
		st.heap = st.heap.Set(p.obj, &n)
	case 1, 2:
		if p.idx == nil {
			a := v.(*ArrV)
			n := o
			for i, e := range a.e {
				n = x.setElem(n, x.c.Const(uint64(i), 64), "", e)
			}
			st.heap = st.heap.Set(p.obj, n)
			return
		}
		st.heap = st.heap.Set(p.obj, x.setElem(o, p.idx, p.path, v))
	default:
		x.unsup("store to object kind %d", o.kind)
	}
}

func (x *Exec) i64(n int) *Term { return x.c.Const(uint64(n), 64) }

// sliceElem reads element i of a slice.
func (x *Exec) sliceElem(st *State, s SliceV, i int) Value {
	return x.elemAt(st.heap.Get(s.obj), x.i64(s.off+i), "")
}

func (x *Exec) sliceBytes(st *State, s SliceV) []*Term {
	out := make([]*Term, s.len)
	for i := range out {
		out[i] = x.sliceElem(st, s, i).(*Term)
	}
	return out
}

func (x *Exec) newSlice(st *State, elem types.Type, vals []Value) SliceV {
	return x.newSliceCap(st, elem, vals, len(vals))
}

func (x *Exec) newSliceCap(st *State, elem types.Type, vals []Value, cap int) SliceV {
	if cap == 0 {
		return SliceV{obj: x.newArrayObj(st, elem, 0)}
	}
	o := x.mkArrayObj(elem, cap)
	for i, v := range vals {
		o = x.setElem(o, x.i64(i), "", v)
	}
	return SliceV{obj: x.newObj(st, o), len: len(vals), cap: cap}
}

// ---- strings ----

func (x *Exec) strConst(s string) *StrV {
	e := make([]StrElem, len(s))
	for i := 0; i < len(s); i++ {
		e[i].b = x.byteConst(s[i])
	}
	return &StrV{e}
}

func (x *Exec) byteConst(b byte) *Term {
	if x.bytes[b] == nil {
		x.bytes[b] = x.c.Const(uint64(b), 8)
	}
	return x.bytes[b]
}

func (s *StrV) hasRunes() bool {
	for _, e := range s.e {
		if e.r != nil {
			return true
		}
	}
	return false
}

func (s *StrV) concrete() (string, bool) {
	b := make([]byte, len(s.e))
	for i, e := range s.e {
		if e.r != nil || !e.b.isConst() {
			return "", false
		}
		b[i] = byte(e.b.val)
	}
	return string(b), true
}

// ---- states ----

type PC struct {
	lit  *Term
	prev *PC
	n    int
	// implied: entailed by the literals before it, used for simplification only
	implied bool

	known map[*Term]*Term
	memo  map[*Term]*Term
}

type State struct {
	heap PVec[*Obj]
	pc   *PC
	wit  *Model // satisfies pc when non-nil
}

func (st *State) clone() *State {
	n := *st
	return &n
}

// lits returns the path condition as a list of literals (conjunctions split).
func (st *State) lits() []*Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OBAnd {
			add(t.a)
			add(t.b)
			return
		}
		out = append(out, t)
	}
	for p := st.pc; p != nil; p = p.prev {
		if !p.implied {
			add(p.lit)
		}
	}
	return out
}

func pcLen(p *PC) int {
	if p == nil {
		return 0
	}
	return p.n
}

// assume adds a literal.
func (st *State) assume(t *Term) {
	if t.isTrue() {
		return
	}
	for p, k := st.pc, 0; p != nil && k < 8; p, k = p.prev, k+1 {
		if p.lit == t {
			return
		}
	}
	st.pc = &PC{lit: t, prev: st.pc, n: pcLen(st.pc) + 1}
}

// learn adds a literal that the path condition entails.
func (st *State) learn(t *Term) {
	old := st.pc
	st.assume(t)
	if st.pc != old {
		st.pc.implied = true
	}
}

// Res is one way an operation can end.
type Res struct {
	st    *State
	v     Value
	panic *Panic
}

type Panic struct {
	msg  string
	val  Value
	exit bool
	code int // exit status
	pos  string
}
