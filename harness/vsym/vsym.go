// Package vsym is the interface between harnesses and the symbolic executor.
//
// Under gosym every function here is an intrinsic. The bodies below are used
// only when a harness is replayed natively: inputs then come from a JSON file
// written by the checker (a solver model), observations and failures go to
// another JSON file that the checker compares with its own prediction.
package vsym

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"time"
)

type report struct {
	Outcome string            `json:"outcome"` // ok, assert, assume, missing
	Msg     string            `json:"msg"`
	Known   string            `json:"known"`
	Obs     map[string]string `json:"obs"`
	Missing []string          `json:"missing"`
}

var (
	mu     sync.Mutex
	inputs map[string]string
	count  = map[string]int{}
	rep    = report{Outcome: "ok", Obs: map[string]string{}}
	thor   bool
)

func load() {
	if inputs != nil {
		return
	}
	inputs = map[string]string{}
	if p := os.Getenv("VSYM_INPUT"); p != "" {
		b, err := os.ReadFile(p)
		if err == nil {
			err = json.Unmarshal(b, &inputs)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "vsym:", err)
			os.Exit(97)
		}
	}
	thor = os.Getenv("VSYM_THOROUGH") == "1"
}

func fresh(name string) string {
	k := count[name]
	count[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func flush() {
	if p := os.Getenv("VSYM_OUTPUT"); p != "" {
		b, _ := json.Marshal(rep)
		f, err := os.OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
		if err == nil {
			f.Write(b)
			f.Close()
		}
	}
}

// Finish is called by the generated main function.
func Finish() {
	mu.Lock()
	defer mu.Unlock()
	noLimit()
	flush()
	os.Exit(0)
}

func get(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	load()
	n := fresh(name)
	v, ok := inputs[n]
	if !ok {
		rep.Missing = append(rep.Missing, n)
	}
	return v, ok
}

func num(name string) uint64 {
	v, ok := get(name)
	if !ok {
		return 0
	}
	if i, err := strconv.ParseInt(v, 10, 64); err == nil {
		return uint64(i)
	}
	u, _ := strconv.ParseUint(v, 10, 64)
	return u
}

// symbolic inputs
func Byte(name string) byte     { return byte(num(name)) }
func Uint16(name string) uint16 { return uint16(num(name)) }
func Uint32(name string) uint32 { return uint32(num(name)) }
func Uint64(name string) uint64 { return num(name) }
func Int8(name string) int8     { return int8(num(name)) }
func Int16(name string) int16   { return int16(num(name)) }
func Int32(name string) int32   { return int32(num(name)) }
func Int64(name string) int64   { return int64(num(name)) }
func Bool(name string) bool     { return num(name) != 0 }

// Range is a symbolic integer in [lo, hi].
func Range(name string, lo, hi int64) int64 {
	v, ok := get(name)
	if !ok {
		return lo
	}
	i, _ := strconv.ParseInt(v, 10, 64)
	return i
}

// Choose is an explored choice in [0, n); each value is a separate path.
func Choose(name string, n int) int { return int(num(name)) }

// Concrete enumerates the feasible values of v.
func Concrete(v int64) int64 { return v }

func Bytes(name string, n int) []byte {
	v, _ := get(name)
	b, _ := hex.DecodeString(v)
	r := make([]byte, n)
	copy(r, b)
	return r
}

func String(name string, n int) string { return string(Bytes(name, n)) }

func fail(code int, outcome, msg, known string) {
	mu.Lock()
	noLimit()
	rep.Outcome, rep.Msg, rep.Known = outcome, msg, known
	flush()
	fmt.Fprintf(os.Stderr, "vsym: %s: %s\n", outcome, msg)
	os.Exit(code)
}

func Assume(c bool) {
	if !c {
		fail(4, "assume", "assumption does not hold natively", "")
	}
}

func Assert(c bool, msg string) {
	if !c {
		fail(3, "assert", msg, "")
	}
}

// AssertKnown is Assert inside the region of a listed known finding.
func AssertKnown(c bool, msg string, id string) {
	if !c {
		fail(3, "assert", msg, id)
	}
}

// Cover marks a point that some path must reach.
func Cover(name string) {}

func obs(label, v string) {
	mu.Lock()
	rep.Obs[fresh("obs "+label)] = v
	mu.Unlock()
}

func ObsInt(label string, v int64) { obs(label, strconv.FormatInt(v, 10)) }
func ObsBool(label string, v bool) {
	if v {
		obs(label, "1")
	} else {
		obs(label, "0")
	}
}
func ObsBytes(label string, v []byte) { obs(label, hex.EncodeToString(v)) }
func ObsStr(label string, v string)   { obs(label, hex.EncodeToString([]byte(v))) }

// Thorough reports the tier.
func Thorough() bool { mu.Lock(); defer mu.Unlock(); load(); return thor }

// Symbolic is true under the symbolic executor.
func Symbolic() bool { return false }

// Repeat picks an iteration count: sym symbolically, native natively.
func Repeat(sym, native int) int { return native }

// WaitHook waits until all other goroutines are blocked, for harnesses that run
// in fake time.
var WaitHook func()

// Settle lets all other goroutines run until they block.
func Settle() {
	if WaitHook != nil {
		WaitHook()
		return
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
	}
}

// Advance lets virtual time pass.
func Advance(ns int64) { time.Sleep(time.Duration(ns)) }

func Yield()            { runtime.Gosched() }
func Explore(bound int) {}

// Delays explores all schedules that deviate at most bound times from running
// each goroutine until it blocks, in the order in which they started.
func Delays(bound int) {}

func Sequential() {}
func Races()      {}

// Touch notes that a model reads or writes memory of the code that calls it.
func Touch(b []byte, write bool) {}

func MapOrder(b bool) {}
func SymbolicClock()  {}

// SymbolicDigest makes SHA-1 an arbitrary collision-free function: the digest
// of the k-th distinct input is the symbolic input sha1#k. Natively the same
// digests come from the inputs through a hook in an overlaid crypto/sha1.
func SymbolicDigest() { mu.Lock(); symDigest = true; mu.Unlock() }

var (
	symDigest bool
	digests   = map[string][20]byte{}
	// RealDigest is the unhooked SHA-1 when crypto/sha1 is overlaid.
	RealDigest func([]byte) [20]byte
)

// DigestHook supplies the digests of the solver's model.
func DigestHook(data []byte) (d [20]byte, ok bool) {
	mu.Lock()
	on := symDigest
	d, ok = digests[string(data)]
	mu.Unlock()
	if !on {
		return d, false
	}
	if !ok {
		copy(d[:], Bytes("sha1", 20))
		mu.Lock()
		digests[string(data)] = d
		mu.Unlock()
	}
	return d, true
}
func Stop()            { Finish() }
func HeldLocks() int64 { return 0 }

// Alive is the number of other goroutines (natively not meaningful).
func Alive() int64 { return 0 }

// Digest is SHA-1; symbolically a collision-free function.
func Digest(data []byte) []byte {
	s := sha1.Sum(data)
	return s[:]
}

// Dir is a scratch directory of this run.
func Dir() string {
	d := os.Getenv("VSYM_DIR")
	if d == "" {
		d, _ = os.Getwd()
	}
	return d
}

// FileLimit makes writes beyond offset n of any file fail, as a full device
// does. Negative lifts the limit.
func FileLimit(n int64) {
	if n < 0 {
		noLimit()
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = uint64(n)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}

func noLimit() {
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = l.Max
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}

// AnyLen, AnySwap, AnySize, AnyBytes and AnySet are for the models of functions
// that work by reflection; natively the real functions run.
func AnyLen(x any) int                 { panic("engine only") }
func AnySwap(x any, i, j int)          { panic("engine only") }
func AnySize(x any) int                { panic("engine only") }
func AnyBytes(x any, big bool) []byte  { panic("engine only") }
func AnySet(x any, b []byte, big bool) { panic("engine only") }

// AnyAssign stores x where target points, if its type allows that.
func AnyAssign(target any, x any) bool { panic("engine only") }

// AnyComparable says whether values of x's type can be compared.
func AnyComparable(x any) bool { panic("engine only") }
