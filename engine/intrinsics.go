package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res

const verifPrefix = "zz_verif"

func (x *Exec) inVerifFile(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if !f.Pos().IsValid() {
		return false
	}
	name := x.prog.Fset.Position(f.Pos()).Filename
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	return strings.HasPrefix(name, verifPrefix)
}

func (x *Exec) lookupIntrinsic(fn *ssa.Function) (intrinsic, bool) {
	if in, ok := x.intrCache[fn]; ok {
		return in, in != nil
	}
	in, ok := x.lookupIntrinsic1(fn)
	if !ok {
		in = nil
	}
	if x.intrCache == nil {
		x.intrCache = map[*ssa.Function]intrinsic{}
	}
	x.intrCache[fn] = in
	return in, ok
}

func (x *Exec) lookupIntrinsic1(fn *ssa.Function) (intrinsic, bool) {
	if in, ok := x.intr[fn.String()]; ok {
		return in, true
	}
	if fn.Synthetic == "package initializer" {
		return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res { return one(st, nil) }, true
	}
	if fn.Pkg != nil && x.repoPkg(fn.Pkg) {
		if in, ok := vIntrinsics[fn.Name()]; ok && fn.Signature.Recv() == nil && x.inVerifFile(fn) {
			return in, true
		}
		if mode, ok := x.opt.Stub[fn.Name()]; ok && fn.Signature.Recv() == nil {
			sig := fn.Signature
			if sig.Params().Len() == 1 && sig.Results().Len() == 1 {
				wp, _, ok1 := scalarWidth(sig.Params().At(0).Type())
				wr, _, ok2 := scalarWidth(sig.Results().At(0).Type())
				if ok1 && ok2 && wp > 0 && wr > 0 {
					return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
						if mode == "const" {
							return one(st, x.c.Const(0, wr))
						}
						return one(st, x.c.UF(fn.Name(), wr, args[0].(*Term), nil))
					}, true
				}
			}
		}
		return nil, false
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if in, ok := stdIntrinsics[o.String()]; ok {
		return in, true
	}
	if p := o.Package(); p != nil {
		switch p.Pkg.Path() {
		case "sync/atomic", "internal/runtime/atomic":
			if in, ok := atomicIntrinsic(o); ok {
				return in, true
			}
		}
	}
	return nil, false
}

func (x *Exec) repoPkg(p *ssa.Package) bool {
	return strings.HasPrefix(p.Pkg.Path(), "github.com/deNULL/dawg") || p.Pkg.Name() == "main"
}

func cint(x *Exec, v Value, what string) int {
	t := v.(*Term)
	if !t.isConst() {
		x.unsup("%s must be concrete", what)
	}
	return int(sx(t.val, t.w))
}

func cstr(x *Exec, v Value, what string) string {
	s, ok := v.(*StrV).concrete()
	if !ok {
		x.unsup("%s must be concrete", what)
	}
	return s
}

func nondet(w int) intrinsic {
	return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
		name := cstr(x, args[0], "variable name")
		if w == 0 {
			return one(st, x.c.Var(name, 0, 0, 1))
		}
		lo, hi := cint(x, args[1], "bound"), cint(x, args[2], "bound")
		if lo < 0 {
			// signed range: full-width variable with an assumption
			t := x.c.Var(name, w, 0, mask(w))
			st = st.clone()
			a := x.c.Sle(x.c.Const(uint64(lo), w), t)
			b := x.c.Sle(t, x.c.Const(uint64(hi), w))
			return x.assume(st, x.c.BAnd(a, b), t)
		}
		return one(st, x.c.Var(name, w, uint64(lo), uint64(hi)))
	}
}

func (x *Exec) assume(st *State, c *Term, v Value) []Res {
	c = x.simp(st, c)
	if c.isTrue() {
		return one(st, v)
	}
	res, m := x.check(st, c)
	if res == resUnsat {
		return nil
	}
	n := st.clone()
	n.assume(c)
	n.wit = m
	return one(n, v)
}

func boolFn(f func(c *Ctx, a, b *Term) *Term) intrinsic {
	return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
		a := args[0].(*Term)
		var b *Term
		if len(args) > 1 {
			b = args[1].(*Term)
		}
		return one(st, f(x.c, a, b))
	}
}

var vIntrinsics map[string]intrinsic
var stdIntrinsics map[string]intrinsic

func init() {
	vIntrinsics = map[string]intrinsic{
		"vByte": nondet(8),
		"vU32":  nondet(32),
		"vI32":  nondet(32),
		"vInt":  nondet(64),
		"vBool": nondet(0),
		"vRune": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			lo, hi := cint(x, args[1], "bound"), cint(x, args[2], "bound")
			t := x.c.Var(cstr(x, args[0], "variable name"), 32, uint64(lo), uint64(hi))
			if lo <= 0xdfff && hi >= 0xd800 {
				bad := x.c.BAnd(x.c.Ule(x.c.Const(0xd800, 32), t), x.c.Ule(t, x.c.Const(0xdfff, 32)))
				return x.assume(st, x.c.BNot(bad), t)
			}
			return one(st, t)
		},
		"vRunes": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			s := args[0].(SliceV)
			n := &StrV{}
			for k := 0; k < s.len; k++ {
				r := x.sliceElem(st, s, k).(*Term)
				n.e = append(n.e, StrElem{r: r})
			}
			return one(st, n)
		},
		"vParam": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			k := cint(x, args[0], "parameter")
			if k >= len(x.params) {
				return one(st, x.i64(0))
			}
			return one(st, x.i64(x.params[k]))
		},
		"vAssume": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return x.assume(st, args[0].(*Term), nil)
		},
		"vAssert": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return x.doAssert(st, args[0].(*Term), cstr(x, args[1], "message"))
		},
		"vAnd":     boolFn(func(c *Ctx, a, b *Term) *Term { return c.BAnd(a, b) }),
		"vOr":      boolFn(func(c *Ctx, a, b *Term) *Term { return c.BOr(a, b) }),
		"vNot":     boolFn(func(c *Ctx, a, b *Term) *Term { return c.BNot(a) }),
		"vImplies": boolFn(func(c *Ctx, a, b *Term) *Term { return c.BOr(c.BNot(a), b) }),
		"vIff":     boolFn(func(c *Ctx, a, b *Term) *Term { return c.Eq(a, b) }),
		"vIte32": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.c.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
		},
		"vReach": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			name := cstr(x, args[0], "label")
			if x.reached[name] == 0 {
				if st.wit != nil {
					x.reached[name]++
				} else if res, m := x.check(st, x.c.True); res == resSat {
					st = st.clone()
					st.wit = m
					x.reached[name]++
				}
			} else {
				x.reached[name]++
			}
			return one(st, nil)
		},
		"vSplit": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return x.concretiseN(st, args[0].(*Term), 1024)
		},
		"vSplitBool": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			c := x.simp(st, args[0].(*Term))
			if c.isConst() {
				return one(st, c)
			}
			t, f := x.split(st, c)
			var out []Res
			if t != nil {
				out = append(out, Res{st: t, v: x.c.True})
			}
			if f != nil {
				out = append(out, Res{st: f, v: x.c.False})
			}
			return out
		},
		"vIsConst": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.c.Bool(args[0].(*Term).isConst()))
		},
		// vPanics(f) bool: runs f and tells whether it panicked.
		"vPanics": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			var out []Res
			for _, r := range x.call(st, args[0].(*FuncV), nil) {
				if r.panic != nil {
					if r.panic.exit {
						out = append(out, r)
						continue
					}
					out = append(out, Res{st: r.st, v: x.c.True})
				} else {
					out = append(out, Res{st: r.st, v: x.c.False})
				}
			}
			return out
		},
		"vFreeze": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			s := args[1].(SliceV)
			what := cstr(x, args[0], "label")
			seen := map[int]bool{}
			for k := 0; k < s.len; k++ {
				x.reachSet1(st, seen, true, x.sliceElem(st, s, k))
			}
			// package-level variables are shared by all goroutines as well
			if fn.Pkg != nil {
				for _, m := range fn.Pkg.Members {
					if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "v") && !strings.HasPrefix(g.Name(), "init$") {
						if id, ok := x.globals[g]; ok {
							x.reachSet1(st, seen, true, PtrV{obj: id})
						}
					}
				}
			}
			for id := range seen {
				x.frozen[id] = what
			}
			x.frozenOn = true
			return one(st, nil)
		},
		"vThaw": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			x.frozenOn = false
			return one(st, nil)
		},
		// vEnds runs f like a whole process and tells whether it failed.
		"vEnds": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			var out []Res
			for _, r := range x.call(st, args[0].(*FuncV), nil) {
				bad := r.panic != nil && !(r.panic.exit && r.panic.code == 0)
				out = append(out, Res{st: r.st, v: x.c.Bool(bad)})
			}
			return out
		},
		"vCapture": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			x.capture = args[0].(*Term).isTrue()
			st = st.clone()
			st.heap = st.heap.Set(x.fileObj(st, "<stdout>"), &Obj{kind: 5})
			return one(st, nil)
		},
		"vLimitFiles": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			x.fileLimit = args[0].(*Term)
			if x.fileLimit.isConst() && int64(x.fileLimit.val) < 0 {
				x.fileLimit = nil
			}
			return one(st, nil)
		},
		"vPutDir": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			st = st.clone()
			id := x.fileObj(st, cstr(x, args[0], "file name"))
			st.heap = st.heap.Set(id, &Obj{kind: 5, n: -1})
			return one(st, nil)
		},
		"vNative": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.c.False)
		},
		"vFileBytes": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			name := cstr(x, args[0], "file name")
			st = st.clone()
			id := x.fileObj(st, name)
			o := st.heap.Get(id)
			var vals []Value
			for i := 0; i < o.n; i++ {
				vals = append(vals, o.elems.Get(i).v)
			}
			return one(st, x.newSlice(st, types.Typ[types.Uint8], vals))
		},
		"vPutFile": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			name := cstr(x, args[0], "file name")
			st = st.clone()
			id := x.fileObj(st, name)
			o := &Obj{kind: 5}
			for _, b := range x.sliceBytes(st, args[1].(SliceV)) {
				o.elems = o.elems.Set(o.n, &vbox{b})
				o.n++
			}
			st.heap = st.heap.Set(id, o)
			return one(st, nil)
		},
		"vTempName": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, args[0])
		},
		"vSetArgs": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			s := args[0].(SliceV)
			x.cliArgs = nil
			for k := 0; k < s.len; k++ {
				x.cliArgs = append(x.cliArgs, cstr(x, x.sliceElem(st, s, k), "argument"))
			}
			x.flags = map[string]flagDef{}
			x.cliPos = nil
			return one(st, nil)
		},
		"vLog": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			if x.debug {
				dbg("vLog %s", cstr(x, args[0], ""))
			}
			return one(st, nil)
		},
	}
	nop := func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
		var v Value
		if fn.Signature.Results().Len() == 1 {
			v = x.zero(fn.Signature.Results().At(0).Type())
		} else if fn.Signature.Results().Len() > 1 {
			v = x.zero(fn.Signature.Results())
		}
		return one(st, v)
	}
	exit := func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
		if fn.Name() != "Exit" {
			return []Res{{st: st, panic: &Panic{msg: fn.String() + " called (process exit)", exit: true, code: 1}}}
		}
		var out []Res
		for _, r := range x.concretise(st, args[0].(*Term)) {
			out = append(out, Res{st: r.st, panic: &Panic{msg: fn.String() + " called (process exit)", exit: true, code: int(uint8(r.v.(*Term).val))}})
		}
		return out
	}
	str := func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res { return one(st, x.strConst("?")) }
	// While output is captured the fmt functions are replaced by those of the
	// harness (vfPrintf for fmt.Printf, ...).
	via := func(other intrinsic) intrinsic {
		return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			if x.capture || other == nil {
				for _, p := range x.prog.AllPackages() {
					if f := p.Func("vf" + fn.Name()); f != nil && p.Pkg.Name() == "main" {
						return x.call(st, &FuncV{fn: f}, args)
					}
				}
			}
			if other == nil {
				x.unsup("%s", fn)
			}
			return other(x, st, fn, args)
		}
	}
	stdIntrinsics = map[string]intrinsic{
		"fmt.Printf": via(nop), "fmt.Println": via(nop), "fmt.Print": via(nop), "fmt.Fprintf": via(nop), "fmt.Fprintln": via(nop), "fmt.Fprint": via(nop),
		"fmt.Sprintf": via(str), "fmt.Sprint": via(str), "fmt.Sprintln": via(str), "fmt.Append": via(nil), "fmt.Appendf": via(nil), "fmt.Appendln": via(nil),
		"fmt.Errorf": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return x.newError(st, "?")
		},
		"log.Fatal": exit, "log.Fatalf": exit, "log.Fatalln": exit, "os.Exit": exit,
		"log.Panic": exit, "log.Panicf": exit,
		"log.Printf": nop, "log.Println": nop, "log.Print": nop, "log.SetFlags": nop, "log.SetPrefix": nop,
		"runtime.KeepAlive": nop, "runtime.GC": nop,
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop, "(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.Pool).Get": poolGet, "(*sync.Pool).Put": poolPut,
		"internal/abi.NoEscape": ident, "internal/abi.Escape": ident,
		"internal/bytealg.IndexByte": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.indexByte(x.sliceBytes(st, args[0].(SliceV)), args[1].(*Term)))
		},
		"internal/bytealg.IndexByteString": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			var out []Res
			for _, r := range x.expandRunes(st, args[0].(*StrV)) {
				out = append(out, Res{st: r.st, v: x.indexByte(strBytes(r.v.(*StrV)), args[1].(*Term))})
			}
			return out
		},
		"internal/bytealg.Count": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.countByte(x.sliceBytes(st, args[0].(SliceV)), args[1].(*Term)))
		},
		"internal/bytealg.CountString": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			var out []Res
			for _, r := range x.expandRunes(st, args[0].(*StrV)) {
				out = append(out, Res{st: r.st, v: x.countByte(strBytes(r.v.(*StrV)), args[1].(*Term))})
			}
			return out
		},
		"internal/bytealg.Equal": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.strEq(bytesStr(x.sliceBytes(st, args[0].(SliceV))), bytesStr(x.sliceBytes(st, args[1].(SliceV)))))
		},
		"internal/bytealg.Compare": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.compare(bytesStr(x.sliceBytes(st, args[0].(SliceV))), bytesStr(x.sliceBytes(st, args[1].(SliceV)))))
		},
		"internal/bytealg.CompareString": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			var out []Res
			for _, r := range x.expandRunes(st, args[0].(*StrV)) {
				for _, q := range x.expandRunes(r.st, args[1].(*StrV)) {
					out = append(out, Res{st: q.st, v: x.compare(r.v.(*StrV), q.v.(*StrV))})
				}
			}
			return out
		},
		"internal/bytealg.MakeNoZero": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			var out []Res
			for _, r := range x.concretise(st, args[0].(*Term)) {
				n := int(r.v.(*Term).val)
				s := r.st.clone()
				c := roundupsize(n)
				out = append(out, Res{st: s, v: SliceV{obj: x.newArrayObj(s, types.Typ[types.Uint8], c), len: n, cap: c}})
			}
			return out
		},
		"internal/reflectlite.ValueOf": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, &StructV{f: []Value{args[0], nil, nil}})
		},
		"(internal/reflectlite.Value).Len": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.i64(args[0].(*StructV).f[0].(IfaceV).v.(SliceV).len))
		},
		"internal/reflectlite.Swapper": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			s := args[0].(IfaceV).v.(SliceV)
			return one(st, &FuncV{native: func(x *Exec, st *State, a []Value) []Res {
				var out []Res
				for _, r := range x.concretise(st, a[0].(*Term)) {
					for _, q := range x.concretise(r.st, a[1].(*Term)) {
						i, j := int(r.v.(*Term).val), int(q.v.(*Term).val)
						n := q.st.clone()
						vi, vj := x.sliceElem(n, s, i), x.sliceElem(n, s, j)
						o := n.heap.Get(s.obj)
						o = x.setElem(o, x.i64(s.off+i), "", vj)
						o = x.setElem(o, x.i64(s.off+j), "", vi)
						x.noteWrite(n, s.obj)
						n.heap = n.heap.Set(s.obj, o)
						out = append(out, Res{st: n})
					}
				}
				return out
			}})
		},
		"errors.Is": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.eqVal(st, args[0], args[1]))
		},
		"encoding/binary.Read":  binRead,
		"encoding/binary.Write": binWrite,
		"encoding/binary.Size": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			_, _, n := x.binTarget(st, args[0].(IfaceV))
			return one(st, x.i64(n))
		},
		"os.Open": osOpen, "os.Create": osOpen, "os.OpenFile": osOpen,
		"(*os.File).Close": nop, "(*os.File).Sync": nop, "(*os.File).Write": fileWrite, "(*os.File).WriteString": fileWriteString, "(*os.File).Read": fileRead,
		"(*os.File).Name": str,
		"flag.BoolVar":    flagVar, "flag.StringVar": flagVar, "flag.IntVar": flagVar,
		"flag.Bool": flagNew, "flag.String": flagNew, "flag.Int": flagNew,
		"flag.Parse": flagParse, "flag.NArg": flagNArg, "flag.Arg": flagArg,
		"flag.Args": func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			st = st.clone()
			var vs []Value
			for _, a := range x.cliPos {
				vs = append(vs, x.strConst(a))
			}
			return one(st, x.newSlice(st, types.Typ[types.String], vs))
		},
		"flag.Usage": nop, "flag.PrintDefaults": nop,
	}
}

func ident(x *Exec, st *State, fn *ssa.Function, args []Value) []Res { return one(st, args[0]) }

func strBytes(s *StrV) []*Term {
	out := make([]*Term, len(s.e))
	for i := range out {
		out[i] = s.e[i].b
	}
	return out
}

func bytesStr(b []*Term) *StrV {
	s := &StrV{e: make([]StrElem, len(b))}
	for i := range b {
		s.e[i].b = b[i]
	}
	return s
}

func (x *Exec) indexByte(b []*Term, c *Term) *Term {
	r := x.c.Const(^uint64(0), 64)
	for i := len(b) - 1; i >= 0; i-- {
		r = x.c.Ite(x.c.Eq(b[i], c), x.i64(i), r)
	}
	return r
}

func (x *Exec) countByte(b []*Term, c *Term) *Term {
	r := x.i64(0)
	for i := range b {
		r = x.c.Add(r, x.c.Ite(x.c.Eq(b[i], c), x.i64(1), x.i64(0)))
	}
	return r
}

func (x *Exec) compare(a, b *StrV) *Term {
	return x.c.Ite(x.strLess(a, b), x.c.Const(^uint64(0), 64), x.c.Ite(x.strLess(b, a), x.i64(1), x.i64(0)))
}

func (x *Exec) newError(st *State, msg string) []Res {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			return x.call(st, &FuncV{fn: p.Func("New")}, []Value{x.strConst(msg)})
		}
	}
	x.unsup("errors.New not available")
	return nil
}

func (x *Exec) doAssert(st *State, c *Term, msg string) []Res {
	x.asserts++
	c = x.simp(st, c)
	if c.isTrue() {
		x.assertOK++
		return one(st, nil)
	}
	x.s.final = true
	res, m := x.check(st, x.c.BNot(c))
	x.s.final = false
	switch res {
	case resSat:
		x.report(st, m, "assert", msg, x.where())
	case resUnknown:
		x.unknowns = append(x.unknowns, "assertion undecided (solver limit): "+msg)
		return one(st, nil)
	}
	x.assertOK++
	return one(st, nil)
}

func (x *Exec) where() string {
	if n := len(x.frames); n > 0 {
		return x.frames[n-1].fi.name
	}
	return ""
}

// ---- sync.Pool as a LIFO store ----

func (x *Exec) poolObj(st *State, p PtrV) int {
	k := fmt.Sprint(p)
	if id, ok := x.pools[k]; ok {
		if st.heap.Get(id) == nil {
			st.heap = st.heap.Set(id, &Obj{kind: 3})
		}
		return id
	}
	id := x.newObj(st, &Obj{kind: 3})
	x.pools[k] = id
	return id
}

func poolGet(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	st = st.clone()
	p := args[0].(PtrV)
	id := x.poolObj(st, p)
	o := st.heap.Get(id)
	if n := len(o.ents); n > 0 {
		v := o.ents[n-1].v
		st.heap = st.heap.Set(id, &Obj{kind: 3, ents: o.ents[: n-1 : n-1]})
		return one(st, v)
	}
	sv := x.load(st, p).(*StructV)
	f, _ := sv.f[len(sv.f)-1].(*FuncV)
	if f == nil {
		return one(st, IfaceV{})
	}
	return x.call(st, f, nil)
}

func poolPut(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	st = st.clone()
	id := x.poolObj(st, args[0].(PtrV))
	o := st.heap.Get(id)
	ents := append(append([]mapEnt(nil), o.ents...), mapEnt{x.i64(len(o.ents)), args[1]})
	st.heap = st.heap.Set(id, &Obj{kind: 3, ents: ents})
	return one(st, nil)
}

// ---- sync/atomic ----

func atomicIntrinsic(fn *ssa.Function) (intrinsic, bool) {
	n := fn.Name()
	if fn.Signature.Recv() != nil {
		return nil, false
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			return one(st, x.load(st, args[0].(PtrV)))
		}, true
	case strings.HasPrefix(n, "Store"):
		return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			st = st.clone()
			x.store(st, args[0].(PtrV), args[1])
			return one(st, nil)
		}, true
	case strings.HasPrefix(n, "Add"):
		return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			st = st.clone()
			v := x.c.Add(x.load(st, args[0].(PtrV)).(*Term), args[1].(*Term))
			x.store(st, args[0].(PtrV), v)
			return one(st, v)
		}, true
	case strings.HasPrefix(n, "Swap"):
		return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			st = st.clone()
			v := x.load(st, args[0].(PtrV))
			x.store(st, args[0].(PtrV), args[1])
			return one(st, v)
		}, true
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
			v := x.load(st, args[0].(PtrV))
			eq := x.simp(st, x.eqVal(st, v, args[1]))
			var out []Res
			t, f := st, st
			if eq.isTrue() {
				f = nil
			} else if eq.isFalse() {
				t = nil
			} else {
				t, f = x.split(st, eq)
			}
			if t != nil {
				t = t.clone()
				x.store(t, args[0].(PtrV), args[2])
				out = append(out, Res{st: t, v: x.c.True})
			}
			if f != nil {
				out = append(out, Res{st: f, v: x.c.False})
			}
			return out
		}, true
	}
	return nil, false
}

// ---- encoding/binary ----

// binTarget resolves the data argument: element type, where it lives, byte size.
type binLoc struct {
	ptr   PtrV   // single value behind a pointer
	slice SliceV // slice elements
	val   Value  // plain value (Write only)
	kind  int    // 0 pointer, 1 slice, 2 value
}

func (x *Exec) binTarget(st *State, d IfaceV) (types.Type, binLoc, int) {
	if d.t == nil {
		x.unsup("binary data nil")
	}
	size := func(t types.Type) int {
		ws, ok := leafWidths(t, nil)
		if !ok {
			x.unsup("binary data of type %s", t)
		}
		n := 0
		for _, w := range ws {
			if w == 0 {
				n++
			} else {
				n += w / 8
			}
		}
		return n
	}
	switch u := under(d.t).(type) {
	case *types.Slice:
		s := d.v.(SliceV)
		return u.Elem(), binLoc{slice: s, kind: 1}, s.len * size(u.Elem())
	case *types.Pointer:
		p := d.v.(PtrV)
		if p.obj == 0 {
			x.unsup("binary data nil pointer")
		}
		if sl, ok := under(u.Elem()).(*types.Slice); ok {
			s := x.load(st, p).(SliceV)
			return sl.Elem(), binLoc{slice: s, kind: 1}, s.len * size(sl.Elem())
		}
		if ar, ok := under(u.Elem()).(*types.Array); ok {
			n := int(ar.Len())
			if p.path != "" || p.idx != nil {
				x.unsup("binary data array in struct")
			}
			s := SliceV{obj: p.obj, len: n, cap: n}
			return ar.Elem(), binLoc{slice: s, kind: 1}, n * size(ar.Elem())
		}
		return u.Elem(), binLoc{ptr: p}, size(u.Elem())
	}
	return d.t, binLoc{val: d.v, kind: 2}, size(d.t)
}

func (x *Exec) bigEndian(o IfaceV) bool {
	if o.t == nil {
		x.unsup("nil byte order")
	}
	n := o.t.String()
	switch {
	case strings.Contains(n, "littleEndian"), strings.Contains(n, "nativeEndian"):
		return false
	case strings.Contains(n, "bigEndian"):
		return true
	}
	x.unsup("byte order %s", n)
	return false
}

func (x *Exec) toBytes(v Value, big bool, out []Value) []Value {
	for _, t := range flattenVal(v, nil) {
		if t.w == 0 {
			out = append(out, x.c.Ite(t, x.byteConst(1), x.byteConst(0)))
			continue
		}
		n := t.w / 8
		for k := 0; k < n; k++ {
			j := k
			if big {
				j = n - 1 - k
			}
			out = append(out, x.c.Extract(t, j*8+7, j*8))
		}
	}
	return out
}

func (x *Exec) fromBytes(t types.Type, b []*Term, big bool) Value {
	ws, _ := leafWidths(t, nil)
	pos := 0
	var ts []*Term
	for _, w := range ws {
		if w == 0 {
			ts = append(ts, x.c.BNot(x.c.Eq(b[pos], x.byteConst(0))))
			pos++
			continue
		}
		n := w / 8
		var r *Term
		for k := 0; k < n; k++ {
			j := pos + n - 1 - k
			if big {
				j = pos + k
			}
			if r == nil {
				r = b[j]
			} else {
				r = x.c.Concat(r, b[j])
			}
		}
		ts = append(ts, r)
		pos += n
	}
	p := 0
	return x.build(t, func(i int) *Term { return ts[i] }, &p)
}

func (x *Exec) pkgFunc(path, name string) *ssa.Function {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == path {
			return p.Func(name)
		}
	}
	x.unsup("%s.%s not available", path, name)
	return nil
}

func binRead(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	big := x.bigEndian(args[1].(IfaceV))
	et, loc, n := x.binTarget(st, args[2].(IfaceV))
	if loc.kind == 2 {
		x.unsup("binary.Read into a value")
	}
	st = st.clone()
	u8 := types.Typ[types.Uint8]
	buf := SliceV{obj: x.newArrayObj(st, u8, n), len: n, cap: n}
	var out []Res
	for _, r := range x.call(st, &FuncV{fn: x.pkgFunc("io", "ReadFull")}, []Value{args[0], buf}) {
		if r.panic != nil {
			out = append(out, r)
			continue
		}
		err := r.v.(TupleV)[1].(IfaceV)
		if err.t != nil {
			out = append(out, Res{st: r.st, v: err})
			continue
		}
		s := r.st.clone()
		b := x.sliceBytes(s, buf)
		if loc.kind == 0 {
			x.store(s, loc.ptr, x.fromBytes(et, b, big))
		} else if loc.slice.len > 0 {
			es := n / loc.slice.len
			o := s.heap.Get(loc.slice.obj)
			for k := 0; k < loc.slice.len; k++ {
				o = x.setElem(o, x.i64(loc.slice.off+k), "", x.fromBytes(et, b[k*es:(k+1)*es], big))
			}
			x.noteWrite(s, loc.slice.obj)
			s.heap = s.heap.Set(loc.slice.obj, o)
		}
		out = append(out, Res{st: s, v: IfaceV{}})
	}
	return out
}

func binWrite(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	big := x.bigEndian(args[1].(IfaceV))
	_, loc, _ := x.binTarget(st, args[2].(IfaceV))
	var bs []Value
	switch loc.kind {
	case 0:
		bs = x.toBytes(x.load(st, loc.ptr), big, nil)
	case 2:
		bs = x.toBytes(loc.val, big, nil)
	default:
		for k := 0; k < loc.slice.len; k++ {
			bs = x.toBytes(x.sliceElem(st, loc.slice, k), big, bs)
		}
	}
	st = st.clone()
	sl := x.newSlice(st, types.Typ[types.Uint8], bs)
	w := args[0].(IfaceV)
	if w.t == nil {
		return nilPanic(st)
	}
	m := x.prog.LookupMethod(w.t, nil, "Write")
	if m == nil {
		x.unsup("Write method of %s", w.t)
	}
	var out []Res
	for _, r := range x.call(st, &FuncV{fn: m}, []Value{w.v, sl}) {
		if r.panic == nil {
			r.v = r.v.(TupleV)[1]
		}
		out = append(out, r)
	}
	return out
}

// ---- files ----

func (x *Exec) fileObj(st *State, name string) int {
	if id, ok := x.files[name]; ok {
		if st.heap.Get(id) == nil {
			st.heap = st.heap.Set(id, &Obj{kind: 5})
		}
		return id
	}
	id := x.newObj(st, &Obj{kind: 5})
	x.files[name] = id
	return id
}

// osOpen gives a fake *os.File: a cell holding {file object id, position}.
func osOpen(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	name := cstr(x, args[0], "file name")
	fail := func() []Res {
		var out []Res
		for _, r := range x.newError(st, "cannot open "+name) {
			r.v = TupleV{PtrV{}, r.v}
			out = append(out, r)
		}
		return out
	}
	create := fn.Name() == "Create"
	if fn.Name() == "OpenFile" {
		fl := cint(x, args[1], "open flags")
		create = fl&os.O_CREATE != 0
		if create && fl&os.O_TRUNC == 0 || fl&os.O_APPEND != 0 {
			x.unsup("open flags %x", fl)
		}
	}
	if strings.HasPrefix(name, "missing/") {
		return fail()
	}
	st = st.clone()
	if id, ok := x.files[name]; ok && st.heap.Get(id) != nil {
		if create && st.heap.Get(id).n < 0 {
			return fail() // a directory
		}
	} else if !create {
		return fail()
	}
	id := x.fileObj(st, name)
	if create {
		st.heap = st.heap.Set(id, &Obj{kind: 5})
	}
	f := PtrV{obj: x.newObj(st, &Obj{kind: 0, val: &StructV{f: []Value{x.i64(id), x.i64(0)}}})}
	return one(st, TupleV{f, IfaceV{}})
}

func (x *Exec) fileOf(st *State, v Value) (PtrV, int, int) {
	p := v.(PtrV)
	if p.obj == 0 {
		x.unsup("nil *os.File")
	}
	sv, ok := st.heap.Get(p.obj).val.(*StructV)
	if !ok || len(sv.f) != 2 {
		x.unsup("unknown *os.File")
	}
	if !sv.f[0].(*Term).isConst() || !sv.f[1].(*Term).isConst() {
		x.unsup("symbolic file position")
	}
	return p, int(sv.f[0].(*Term).val), int(sv.f[1].(*Term).val)
}

func fileWrite(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	st = st.clone()
	if o := x.stdFile(st, args[0]); o >= 0 {
		b := x.sliceBytes(st, args[1].(SliceV))
		if o > 0 {
			f := *st.heap.Get(o)
			for _, t := range b {
				f.elems = f.elems.Set(f.n, &vbox{t})
				f.n++
			}
			st.heap = st.heap.Set(o, &f)
		}
		return one(st, TupleV{x.i64(len(b)), IfaceV{}})
	}
	p, id, pos := x.fileOf(st, args[0])
	o := *st.heap.Get(id)
	b := x.sliceBytes(st, args[1].(SliceV))
	if x.fileLimit != nil && len(b) > 0 {
		fits, not := x.split(st, x.c.Ule(x.i64(pos+len(b)), x.fileLimit))
		var out []Res
		if not != nil {
			for _, r := range x.newError(not, "file too large") {
				r.v = TupleV{x.i64(0), r.v}
				out = append(out, r)
			}
		}
		if fits == nil {
			return out
		}
		lim := x.fileLimit
		x.fileLimit = nil
		out = append(out, fileWrite(x, fits, fn, args)...)
		x.fileLimit = lim
		return out
	}
	for _, t := range b {
		o.elems = o.elems.Set(pos, &vbox{t})
		pos++
		if pos > o.n {
			o.n = pos
		}
	}
	st.heap = st.heap.Set(id, &o)
	st.heap = st.heap.Set(p.obj, &Obj{kind: 0, val: &StructV{f: []Value{x.i64(id), x.i64(pos)}}})
	return one(st, TupleV{x.i64(len(b)), IfaceV{}})
}

func fileWriteString(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	var out []Res
	for _, r := range x.expandRunes(st, args[1].(*StrV)) {
		n := r.st.clone()
		var vs []Value
		for _, b := range strBytes(r.v.(*StrV)) {
			vs = append(vs, b)
		}
		out = append(out, fileWrite(x, n, fn, []Value{args[0], x.newSlice(n, types.Typ[types.Uint8], vs)})...)
	}
	return out
}

// stdFile tells whether f is os.Stdout (the object captured, 0 if output is
// not captured) or os.Stderr (0); otherwise it gives -1.
func (x *Exec) stdFile(st *State, f Value) int {
	p := f.(PtrV)
	for g, id := range x.globals {
		if g.Pkg.Pkg.Path() != "os" || g.Name() != "Stdout" && g.Name() != "Stderr" {
			continue
		}
		if v, ok := st.heap.Get(id).val.(PtrV); ok && v.obj != 0 && v.obj == p.obj {
			if g.Name() == "Stdout" && x.capture {
				return x.fileObj(st, "<stdout>")
			}
			return 0
		}
	}
	return -1
}

func fileRead(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	st = st.clone()
	p, id, pos := x.fileOf(st, args[0])
	o := st.heap.Get(id)
	s := args[1].(SliceV)
	if o.n < 0 {
		var out []Res
		for _, r := range x.newError(st, "is a directory") {
			r.v = TupleV{x.i64(0), r.v}
			out = append(out, r)
		}
		return out
	}
	if s.len == 0 {
		return one(st, TupleV{x.i64(0), IfaceV{}})
	}
	n := 0
	if s.len > 0 && pos < o.n {
		d := st.heap.Get(s.obj)
		for n < s.len && pos < o.n {
			d = x.setElem(d, x.i64(s.off+n), "", o.elems.Get(pos).v)
			n++
			pos++
		}
		st.heap = st.heap.Set(s.obj, d)
	}
	st.heap = st.heap.Set(p.obj, &Obj{kind: 0, val: &StructV{f: []Value{x.i64(id), x.i64(pos)}}})
	err := Value(IfaceV{})
	if n == 0 {
		for g, gid := range x.globals {
			if g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
				err = st.heap.Get(gid).val
			}
		}
	}
	return one(st, TupleV{x.i64(n), err})
}

// ---- flag ----

type flagDef struct {
	p    PtrV
	kind string
}

func flagKind(fn *ssa.Function) string {
	switch {
	case strings.HasPrefix(fn.Name(), "Bool"):
		return "bool"
	case strings.HasPrefix(fn.Name(), "String"):
		return "string"
	}
	return "int"
}

func flagVar(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	st = st.clone()
	p := args[0].(PtrV)
	x.flags[cstr(x, args[1], "flag name")] = flagDef{p, flagKind(fn)}
	x.store(st, p, args[2])
	return one(st, nil)
}

func flagNew(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	st = st.clone()
	t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	p := x.allocPtr(st, t)
	x.flags[cstr(x, args[0], "flag name")] = flagDef{p, flagKind(fn)}
	x.store(st, p, args[1])
	return one(st, p)
}

func flagParse(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	st = st.clone()
	as := x.cliArgs
	for len(as) > 0 {
		a := as[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		as = as[1:]
		n := strings.TrimLeft(a, "-")
		val, has := "", false
		if i := strings.IndexByte(n, '='); i >= 0 {
			n, val, has = n[:i], n[i+1:], true
		}
		d, ok := x.flags[n]
		if !ok {
			return []Res{{st: st, panic: &Panic{msg: "flag provided but not defined: " + n, exit: true}}}
		}
		switch d.kind {
		case "bool":
			x.store(st, d.p, x.c.Bool(!has || val == "true" || val == "1"))
		case "string":
			if !has {
				if len(as) == 0 {
					return []Res{{st: st, panic: &Panic{msg: "flag needs an argument", exit: true}}}
				}
				val, as = as[0], as[1:]
			}
			x.store(st, d.p, x.strConst(val))
		default:
			x.unsup("flag kind")
		}
	}
	x.cliPos = as
	return one(st, nil)
}

func flagNArg(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	return one(st, x.i64(len(x.cliPos)))
}

func flagArg(x *Exec, st *State, fn *ssa.Function, args []Value) []Res {
	k := cint(x, args[0], "argument number")
	if k < 0 || k >= len(x.cliPos) {
		return one(st, &StrV{})
	}
	return one(st, x.strConst(x.cliPos[k]))
}

// ---- program start ----

var initOrder = []string{"internal/byteorder", "unicode/utf8", "unicode/utf16", "math/bits", "math", "cmp", "slices", "maps", "io", "strconv", "sort", "bytes", "strings", "bufio", "container/heap", "container/list", "encoding/binary", "bytes"}
var zeroPkgs = map[string]bool{"errors": true, "internal/bytealg": true, "os": true, "log": true, "flag": true, "sync": true, "internal/cpu": true, "fmt": true, "internal/stringslite": true, "runtime": true, "unsafe": true, "sync/atomic": true, "unicode": false}

func (x *Exec) allocGlobals(st *State, p *ssa.Package) {
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, done := x.globals[g]; done {
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(abort); !ok {
							panic(r)
						}
					}
				}()
				x.globals[g] = x.allocPtr(st, t).obj
			}()
		}
	}
}

// initProgram allocates globals and runs the package initialisers.
func (x *Exec) initProgram(repo []*ssa.Package) (*State, error) {
	st := &State{wit: newModel()}
	byPath := map[string]*ssa.Package{}
	for _, p := range x.prog.AllPackages() {
		byPath[p.Pkg.Path()] = p
		if zeroPkgs[p.Pkg.Path()] {
			x.allocGlobals(st, p)
		}
	}
	for g, id := range x.globals {
		if g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
			f := PtrV{obj: x.newObj(st, &Obj{kind: 0, val: &StructV{f: []Value{x.i64(-1), x.i64(0)}}})}
			st.heap = st.heap.Set(id, &Obj{kind: 0, val: f})
		}
	}
	x.initing = true
	defer func() { x.initing = false }()
	order := initOrder
	for _, p := range repo {
		for _, i := range p.Pkg.Imports() {
			if i.Path() == "unicode" || i.Path() == "strings" && p.Pkg.Name() == "main" {
				order = append([]string{"unicode"}, initOrder...)
			}
		}
	}
	for _, n := range order {
		p := byPath[n]
		if p == nil || x.inited[p] {
			continue
		}
		x.allocGlobals(st, p)
		if s, err := x.runInit(st, p); err == nil {
			st = s
		} else if x.debug {
			dbg("init %s: %v", n, err)
		}
		x.inited[p] = true
	}
	for _, p := range repo {
		x.allocGlobals(st, p)
		s, err := x.runInit(st, p)
		if err != nil {
			return nil, fmt.Errorf("init of %s: %v", p.Pkg.Path(), err)
		}
		st = s
		x.inited[p] = true
	}
	return st, nil
}

func (x *Exec) runInit(st *State, p *ssa.Package) (res *State, err error) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				err = fmt.Errorf("%s", a.why)
				x.frames = nil
				x.depth = 0
				return
			}
			panic(r)
		}
	}()
	fn := p.Func("init")
	fi := x.info(fn)
	regs := make([]Value, fi.nregs)
	regs[fi.nregs-1] = deferList(nil)
	x.frames = append(x.frames, frameRec{fi: fi, regs: regs})
	outs := x.run(fi, st.clone(), regs, fn.Blocks[0], 0, nil)
	x.frames = x.frames[:len(x.frames)-1]
	if len(outs) != 1 || outs[0].kind != 1 {
		return nil, fmt.Errorf("initialiser did not finish normally")
	}
	return outs[0].st, nil
}

var _ = token.ADD
