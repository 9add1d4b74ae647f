package PKG

// Vocabulary of the harnesses.  The engine replaces every one of these
// functions by its symbolic meaning; the bodies below are what runs when a
// counterexample is replayed against the compiled code.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sync"
)

type vReplay struct {
	Harness string            `json:"harness"`
	Params  []int             `json:"params"`
	Vars    map[string]uint64 `json:"vars"`
}

type vSkip struct{ why string }
type vFail struct{ msg string }

var vAssign *vReplay
var vMu sync.Mutex

func vLoad() *vReplay {
	vMu.Lock()
	defer vMu.Unlock()
	if vAssign == nil {
		vAssign = &vReplay{Vars: map[string]uint64{}}
		if b, err := os.ReadFile(os.Getenv("VERIF_ASSIGN")); err == nil {
			if err := json.Unmarshal(b, vAssign); err != nil {
				panic(err)
			}
		}
	}
	return vAssign
}

func vGet(name string, lo int) uint64 {
	if v, ok := vLoad().Vars[name]; ok {
		return v
	}
	return uint64(lo)
}

func vRange(name string, v int64, lo, hi int) {
	if v < int64(lo) || v > int64(hi) {
		panic(vSkip{name + " out of range"})
	}
}

func vByte(name string, lo, hi int) byte {
	v := byte(vGet(name, lo))
	vRange(name, int64(v), lo, hi)
	return v
}
func vU32(name string, lo, hi int) uint32 {
	v := uint32(vGet(name, lo))
	vRange(name, int64(v), lo, hi)
	return v
}
func vI32(name string, lo, hi int) int32 {
	v := int32(uint32(vGet(name, lo)))
	vRange(name, int64(v), lo, hi)
	return v
}
func vInt(name string, lo, hi int) int {
	v := int(vGet(name, lo))
	vRange(name, int64(v), lo, hi)
	return v
}
func vBool(name string) bool { return vGet(name, 0) != 0 }
func vRune(name string, lo, hi int) rune {
	v := rune(vGet(name, lo))
	vRange(name, int64(v), lo, hi)
	if v >= 0xd800 && v <= 0xdfff {
		panic(vSkip{"surrogate"})
	}
	return v
}
func vRunes(r []rune) string { return string(r) }
func vParam(i int) int {
	p := vLoad().Params
	if i < len(p) {
		return p[i]
	}
	return 0
}
func vAssume(c bool) {
	if !c {
		panic(vSkip{"assumption"})
	}
}
func vAssert(c bool, msg string) {
	if !c {
		panic(vFail{msg})
	}
}
func vAnd(a, b bool) bool     { return a && b }
func vOr(a, b bool) bool      { return a || b }
func vNot(a bool) bool        { return !a }
func vImplies(a, b bool) bool { return !a || b }
func vIff(a, b bool) bool     { return a == b }
func vIte32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}
func vReach(label string)    {}
func vSplit(n int) int       { return n }
func vSplitBool(b bool) bool { return b }
func vLog(msg string)        { fmt.Println(msg) }
func vNative() bool          { return true }

// vPanics runs f and tells whether it panicked.
func vPanics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case vSkip, vFail:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return
}

// vFreeze marks everything reachable from objs read-only until vThaw.
func vFreeze(label string, objs ...any) {}
func vThaw()                            {}

// vReadOnly runs f, which must not write to anything reachable from objs.
// The replay runs f in two goroutines under the race detector.
func vReadOnly(label string, f func(), objs ...any) {
	if !vNative() {
		vFreeze(label, objs...)
		f()
		vThaw()
		return
	}
	vConcurrently(f)
}

func vConcurrently(f func()) {
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func vTempDir() string             { return os.Getenv("VERIF_TMP") }
func vTempName(name string) string { return vTempDir() + "/" + name }
func vPutFile(name string, b []byte) {
	if err := os.WriteFile(name, b, 0o644); err != nil {
		panic(err)
	}
}
func vFileBytes(name string) []byte {
	b, _ := os.ReadFile(name)
	return b
}
func vSetArgs(args []string) {
	os.Args = append([]string{"dawgtool"}, args...)
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ContinueOnError)
}
