package exec

import (
	"crypto/sha1"
	"fmt"
	"go/types"
	"math"
	"strings"

	"gosym/smt"
)

type fallthru struct{}

// redirects maps functions to Go-source models in the models package.
var redirects = map[string]string{
	"os.Open": "Open", "os.Create": "Create", "os.OpenFile": "OpenFile", "os.Stat": "Stat", "os.Lstat": "Lstat",
	"os.MkdirAll": "MkdirAll", "os.Mkdir": "Mkdir", "os.Remove": "Remove", "os.RemoveAll": "RemoveAll", "os.Rename": "Rename",
	"os.Symlink": "Symlink", "os.Truncate": "Truncate", "os.Chmod": "Chmod", "os.ReadFile": "ReadFile", "os.WriteFile": "WriteFile",
	"os.Getwd": "Getwd", "os.MkdirTemp": "MkdirTemp", "os.SameFile": "SameFile", "os.ReadDir": "ReadDir", "os.CreateTemp": "CreateTemp",
	"(*os.File).ReadDir": "FileReadDir", "(*os.File).Readdir": "FileReaddir", "(*os.File).Readdirnames": "FileReaddirnames",
	"(*os.File).Read": "FileRead", "(*os.File).ReadAt": "FileReadAt", "(*os.File).Write": "FileWrite", "(*os.File).WriteAt": "FileWriteAt",
	"(*os.File).WriteString": "FileWriteString", "(*os.File).Seek": "FileSeek", "(*os.File).Stat": "FileStat", "(*os.File).Truncate": "FileTruncate",
	"(*os.File).Close": "FileClose", "(*os.File).Sync": "FileSync", "(*os.File).Name": "FileName", "(*os.File).Chmod": "FileChmod", "(*os.File).ReadFrom": "FileReadFrom",
	"crypto/sha1.New": "NewSHA1", "crypto/sha1.Sum": "SumSHA1",
	"math/rand.NewSource": "NewSource", "math/rand.Int63": "RandInt63", "math/rand.Uint64": "RandUint64", "math/rand.Uint32": "RandUint32",
	"math/rand.Int31": "RandInt31", "math/rand.Int": "RandInt", "math/rand.Intn": "RandIntn", "math/rand.Int63n": "RandInt63n", "math/rand.Int31n": "RandInt31n",
	"(*math/rand.Rand).Intn": "RandRIntn", "(*math/rand.Rand).Int63": "RandRInt63", "(*math/rand.Rand).Int31n": "RandRInt31n",
	"(*math/rand.Rand).Int63n": "RandRInt63n", "(*math/rand.Rand).Uint32": "RandRUint32", "crypto/rand.Read": "RandReader",
	"sort.Slice": "SortSlice", "sort.SliceStable": "SortSliceStable", "sort.SliceIsSorted": "SortSliceIsSorted",
	"encoding/binary.Write": "BinaryWrite", "encoding/binary.Read": "BinaryRead", "encoding/binary.Size": "BinarySize", "context.WithValue": "ContextWithValue", "errors.As": "ErrorsAs", "errors.Is": "ErrorsIs",
	"(*sync.Map).Load": "SyncMapLoad", "(*sync.Map).Store": "SyncMapStore", "(*sync.Map).Swap": "SyncMapSwap", "(*sync.Map).LoadOrStore": "SyncMapLoadOrStore", "(*sync.Map).LoadAndDelete": "SyncMapLoadAndDelete", "(*sync.Map).Delete": "SyncMapDelete", "(*sync.Map).CompareAndSwap": "SyncMapCompareAndSwap", "(*sync.Map).Range": "SyncMapRange",
	"net.Listen": "Listen", "net.Dial": "Dial", "net.DialTimeout": "DialTimeout", "(*net.Dialer).Dial": "DialerDial",
	"(*net/http.Client).Do": "HTTPDo", "net/http.Get": "HTTPGet", "(*net/http.Client).Get": "HTTPClientGet",
}

var intrinsics map[string]intrinsic

func (m *Machine) i64(v int64) T { return m.ctx.BV(uint64(v), 64) }
func (m *Machine) nilErr() value { return iface{} }
func (m *Machine) constStr(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	m.unsupported("symbolic string where a constant is needed")
	return ""
}

func (m *Machine) newErr(fr *frame, msg value) value {
	f := m.P.SSA.ImportedPackage("errors").Func("New")
	return m.callFn(fr, m.info(f), []value{msg}, nil)
}

func (m *Machine) timeVal(ns int64) value {
	sec := ns / 1_000_000_000
	nsec := ns % 1_000_000_000
	return structV{m.ctx.BV(uint64(nsec), 64), m.i64(sec + 62135596800), (*value)(nil)}
}

func (m *Machine) fresh(name string) string {
	p := m.path
	k := p.names[name]
	p.names[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func (m *Machine) needPath() {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.initing > 0 {
		m.unsupported("symbolic input during initialisation")
	}
}

func (m *Machine) addInput(name, kind string, signed bool, ts ...T) {
	m.path.inputs = append(m.path.inputs, &Input{Name: name, Kind: kind, Terms: ts, Sign: signed})
}

func symInt(w uint8, signed bool) intrinsic {
	return func(m *Machine, fr *frame, args []value) value {
		m.needPath()
		n := m.fresh(m.constStr(args[0]))
		t := m.ctx.Var(n, w)
		m.addInput(n, "int", signed, t)
		return t
	}
}

func (m *Machine) symBytes(name string, n int) []T {
	m.needPath()
	nm := m.fresh(name)
	ts := make([]T, n)
	for i := range ts {
		ts[i] = m.ctx.Var(fmt.Sprintf("%s[%d]", nm, i), 8)
	}
	m.addInput(nm, "bytes", false, ts...)
	return ts
}

func log2ceil(x uint64) uint8 {
	n := uint8(0)
	for x > 0 {
		n++
		x >>= 1
	}
	return n
}

func nop(m *Machine, fr *frame, args []value) value { return nil }

func first(m *Machine, fr *frame, args []value) value { return args[0] }

type hashEnt struct {
	in  []T
	out [20]byte
	sym []T
}

// digest models SHA-1 as a collision-free function: equal inputs give equal
// digests, different inputs different ones; concrete inputs give the real one.
func (m *Machine) digest(in []T) []T {
	m.needPath()
	p := m.path
	conc := true
	for _, t := range in {
		if !t.IsConst() {
			conc = false
			break
		}
	}
	cst := func(d [20]byte) []T {
		r := make([]T, 20)
		for i := range r {
			r[i] = m.ctx.BV(uint64(d[i]), 8)
		}
		return r
	}
	for i := range p.hashes {
		h := &p.hashes[i]
		if len(h.in) != len(in) {
			continue
		}
		e := m.termsEq(h.in, in)
		if e.IsFalse() {
			continue
		}
		if m.branch(e) {
			if h.sym != nil {
				return h.sym
			}
			return cst(h.out)
		}
	}
	var d [20]byte
	if p.symDig {
		// any digest at all, collision-free; the replay installs the model's
		// digests through a hook in crypto/sha1
		t := m.symBytes("sha1", 20)
		for _, h := range p.hashes {
			o := h.sym
			if o == nil {
				o = cst(h.out)
			}
			m.assume(m.ctx.Not(m.termsEq(o, t)))
		}
		p.hashes = append(p.hashes, hashEnt{in: in, sym: t})
		return t
	}
	if conc {
		b := make([]byte, len(in))
		for i, t := range in {
			b[i] = byte(t.K)
		}
		d = sha1.Sum(b)
	} else {
		d = sha1.Sum([]byte(fmt.Sprintf("gosym digest %d", len(p.hashes))))
	}
	p.hashes = append(p.hashes, hashEnt{in: in, out: d})
	return cst(d)
}

// ---------------------------------------------------------------- formatting

var pow10 [20]uint64

func init() {
	x := uint64(1)
	for i := range pow10 {
		pow10[i] = x
		x *= 10
	}
}

// decimal renders an integer term in decimal: the digits are fresh variables
// tied to the value by the positional sum.
func (m *Machine) decimal(t T, signed bool) value {
	c := m.ctx
	if t.IsConst() {
		if signed {
			return fmt.Sprint(t.SInt())
		}
		return fmt.Sprint(t.K)
	}
	m.needPath()
	var out []T
	u := t
	if signed {
		u = c.SExt(t, 64)
		if m.branch(c.Slt(u, c.BV(0, 64))) {
			out = append(out, c.BV('-', 8))
			u = c.Neg(u)
		}
	} else {
		u = c.ZExt(t, 64)
	}
	p := m.path
	if ds, ok := p.decs[u]; ok {
		return mkStr(append(out, ds...))
	}
	sign := len(out)
	n := 1
	for n < 20 && !m.branch(c.Ult(u, c.BV(pow10[n], 64))) {
		n++
	}
	if n == 1 {
		return mkStr(append(out, c.Add(c.Extract(u, 0, 8), c.BV('0', 8))))
	}
	nm := m.fresh("%dec")
	uv := p.ev.Eval(u)
	ds := make([]T, n)
	md := smt.Model{}
	for k, v := range p.model {
		md[k] = v
	}
	for i := n - 1; i >= 0; i-- {
		vn := fmt.Sprintf("%s[%d]", nm, i)
		lo := uint64(0)
		if i == 0 {
			lo = 1
		}
		ds[i] = c.VarR(vn, 4, lo, 9)
		md[vn] = uv % 10
		uv /= 10
	}
	m.setModel(md)
	h := c.BV(0, 64)
	for i, d := range ds {
		if i == 19 {
			lim := c.BV(^uint64(0)/10, 64)
			m.addPC(c.Ule(h, lim))
			m.addPC(c.Or(c.Ult(h, lim), c.Ule(d, c.BV(5, 4))))
		}
		h = c.Add(c.Mul(h, c.BV(10, 64)), c.ZExt(d, 64))
		out = append(out, c.Add(c.ZExt(d, 8), c.BV('0', 8)))
	}
	m.addPC(c.Eq(u, h))
	if p.decs == nil {
		p.decs = map[T][]T{}
	}
	p.decs[u] = append([]T(nil), out[sign:]...)
	return mkStr(out)
}

func sl(v value) sliceV {
	s, _ := v.(sliceV)
	return s
}

func init() {
	intrinsics = map[string]intrinsic{
		// ---------------------------------------------------------- vsym
		"vsym.Byte": symInt(8, false), "vsym.Uint16": symInt(16, false), "vsym.Uint32": symInt(32, false), "vsym.Uint64": symInt(64, false),
		"vsym.Int64": symInt(64, true), "vsym.Int32": symInt(32, true), "vsym.Int16": symInt(16, true), "vsym.Int8": symInt(8, true),
		"vsym.Bool": symInt(0, false),
		"vsym.Range": func(m *Machine, fr *frame, args []value) value {
			m.needPath()
			n := m.fresh(m.constStr(args[0]))
			lo, hi := args[1].(T).SInt(), args[2].(T).SInt()
			c := m.ctx
			if hi <= lo {
				m.addInput(n, "int", true, m.i64(lo))
				return m.i64(lo)
			}
			d := uint64(hi) - uint64(lo)
			w := log2ceil(d)
			v := c.VarR(fmt.Sprintf("%s{%d}", n, d), w, 0, d)
			t := c.Add(c.ZExt(v, 64), m.i64(lo))
			m.addInput(n, "int", true, t)
			return t
		},
		"vsym.Choose": func(m *Machine, fr *frame, args []value) value {
			m.needPath()
			n := m.fresh(m.constStr(args[0]))
			k := m.choose(int(args[1].(T).SInt()))
			m.addInput(n, "int", true, m.i64(int64(k)))
			return m.i64(int64(k))
		},
		"vsym.Concrete": func(m *Machine, fr *frame, args []value) value {
			return m.i64(int64(m.concretize(args[0].(T))))
		},
		"vsym.Bytes": func(m *Machine, fr *frame, args []value) value {
			return m.termsToSlice(m.symBytes(m.constStr(args[0]), int(args[1].(T).SInt())))
		},
		"vsym.String": func(m *Machine, fr *frame, args []value) value {
			return mkStr(m.symBytes(m.constStr(args[0]), int(args[1].(T).SInt())))
		},
		"vsym.Assume": func(m *Machine, fr *frame, args []value) value {
			m.needPath()
			m.assume(args[0].(T))
			return nil
		},
		"vsym.Assert": func(m *Machine, fr *frame, args []value) value {
			m.assertion(fr, args[0].(T), m.constMsg(args[1]), "")
			return nil
		},
		"vsym.AssertKnown": func(m *Machine, fr *frame, args []value) value {
			m.assertion(fr, args[0].(T), m.constMsg(args[1]), m.constStr(args[2]))
			return nil
		},
		"vsym.Cover": func(m *Machine, fr *frame, args []value) value {
			m.path.covers[m.constStr(args[0])] = true
			return nil
		},
		"vsym.ObsInt": func(m *Machine, fr *frame, args []value) value {
			n := m.fresh("obs " + m.constStr(args[0]))
			m.path.obs = append(m.path.obs, obsEnt{n, "int", []T{args[1].(T)}})
			return nil
		},
		"vsym.ObsBool": func(m *Machine, fr *frame, args []value) value {
			n := m.fresh("obs " + m.constStr(args[0]))
			m.path.obs = append(m.path.obs, obsEnt{n, "int", []T{m.ctx.Ite(args[1].(T), m.i64(1), m.i64(0))}})
			return nil
		},
		"vsym.ObsBytes": func(m *Machine, fr *frame, args []value) value {
			n := m.fresh("obs " + m.constStr(args[0]))
			m.path.obs = append(m.path.obs, obsEnt{n, "bytes", m.bytesTerms(sl(args[1]))})
			return nil
		},
		"vsym.ObsStr": func(m *Machine, fr *frame, args []value) value {
			n := m.fresh("obs " + m.constStr(args[0]))
			m.path.obs = append(m.path.obs, obsEnt{n, "bytes", m.strTerms(args[1])})
			return nil
		},
		"vsym.Thorough": func(m *Machine, fr *frame, args []value) value { return m.ctx.Bool(m.cfg.Thorough) },
		"vsym.Symbolic": func(m *Machine, fr *frame, args []value) value { return m.ctx.True },
		"vsym.Repeat":   func(m *Machine, fr *frame, args []value) value { return args[0] },
		"vsym.Settle": func(m *Machine, fr *frame, args []value) value {
			m.sch.settle(fr.g)
			return nil
		},
		"vsym.Advance": func(m *Machine, fr *frame, args []value) value {
			m.sch.advance(m.sch.now + args[0].(T).SInt())
			return nil
		},
		"vsym.Yield": func(m *Machine, fr *frame, args []value) value {
			m.sch.preemptAt(fr.g)
			return nil
		},
		"vsym.Explore": func(m *Machine, fr *frame, args []value) value {
			m.sch.explore = true
			m.sch.bound = int(args[0].(T).SInt())
			return nil
		},
		"vsym.Delays": func(m *Machine, fr *frame, args []value) value {
			m.sch.explore, m.sch.delays = true, true
			m.sch.bound = int(args[0].(T).SInt())
			return nil
		},
		"vsym.Sequential": func(m *Machine, fr *frame, args []value) value {
			m.sch.explore = false
			return nil
		},
		"vsym.Races": func(m *Machine, fr *frame, args []value) value {
			m.race = &raceDet{m: m, cells: map[any]*cellHist{}, seen: map[string]bool{}}
			return nil
		},
		"vsym.Touch": func(m *Machine, fr *frame, args []value) value {
			if m.race == nil {
				return nil
			}
			b, _ := args[0].(sliceV)
			for i := 0; i < len(b) && i < 64; i++ {
				if args[1].(T).IsTrue() {
					m.race.wrAny(fr.g, &b[i])
				} else {
					m.race.rdAny(fr.g, &b[i])
				}
			}
			return nil
		},
		"vsym.MapOrder": func(m *Machine, fr *frame, args []value) value {
			m.path.mapOrder = args[0].(T).IsTrue()
			return nil
		},
		"vsym.Stop": func(m *Machine, fr *frame, args []value) value {
			panic(&abort{abStop, ""})
		},
		"vsym.Alive": func(m *Machine, fr *frame, args []value) value {
			n := 0
			for _, g := range m.sch.gs {
				if !g.done && g.id != 0 {
					n++
				}
			}
			return m.i64(int64(n))
		},
		"vsym.HeldLocks": func(m *Machine, fr *frame, args []value) value {
			n := 0
			for _, s := range m.path.muState {
				if s.writer || s.readers > 0 {
					n++
				}
			}
			return m.i64(int64(n))
		},
		"vsym.FileLimit": func(m *Machine, fr *frame, args []value) value {
			return m.callFn(fr, m.info(m.P.Models.Func("SetLimit")), args, nil)
		},
		"vsym.Dir": func(m *Machine, fr *frame, args []value) value { return "/scratch" },
		"vsym.SymbolicClock": func(m *Machine, fr *frame, args []value) value {
			m.path.flags["symclock"] = true
			return nil
		},
		"vsym.Digest": func(m *Machine, fr *frame, args []value) value {
			return m.termsToSlice(m.digest(m.bytesTerms(sl(args[0]))))
		},
		// SetDigest fixes the digest of one input for this path; the native
		// replay patches crypto/sha1 the same way.
		"vsym.SymbolicDigest": func(m *Machine, fr *frame, args []value) value {
			m.path.symDig = true
			return nil
		},
		// ---------------------------------------------------------- fmt, log
		"fmt.Sprintf": func(m *Machine, fr *frame, args []value) value {
			f := &fmtr{m: m, fr: fr}
			s, _ := f.sprintf(args[0], sl(args[1]))
			return s
		},
		"fmt.Sprint": func(m *Machine, fr *frame, args []value) value {
			return (&fmtr{m: m, fr: fr}).sprint(sl(args[0]), false)
		},
		"fmt.Sprintln": func(m *Machine, fr *frame, args []value) value {
			return (&fmtr{m: m, fr: fr}).sprint(sl(args[0]), true)
		},
		"fmt.Errorf": func(m *Machine, fr *frame, args []value) value {
			f := &fmtr{m: m, fr: fr, err: true}
			fs, ok := args[0].(string)
			if !ok {
				return m.newErr(fr, args[0])
			}
			s, w := f.sprintf(fs, sl(args[1]))
			if len(w) > 0 {
				we := m.ti(m.P.SSA.ImportedPackage("fmt").Type("wrapError").Type())
				p := new(value)
				*p = structV{s, w[0]}
				return iface{m.ti(types.NewPointer(we.t)), p}
			}
			return m.newErr(fr, s)
		},
		"fmt.Fprintf": func(m *Machine, fr *frame, args []value) value {
			f := &fmtr{m: m, fr: fr}
			s, _ := f.sprintf(args[1], sl(args[2]))
			return m.writeTo(fr, args[0], s)
		},
		"fmt.Fprint": func(m *Machine, fr *frame, args []value) value {
			return m.writeTo(fr, args[0], (&fmtr{m: m, fr: fr}).sprint(sl(args[1]), false))
		},
		"fmt.Fprintln": func(m *Machine, fr *frame, args []value) value {
			return m.writeTo(fr, args[0], (&fmtr{m: m, fr: fr}).sprint(sl(args[1]), true))
		},
		"fmt.Printf": print0, "fmt.Println": print0, "fmt.Print": print0,
		"log.Printf": nop, "log.Println": nop, "log.Print": nop,
		"log.Fatal": fatal, "log.Fatalf": fatal, "log.Fatalln": fatal, "os.Exit": fatal,
		"log.Panic": func(m *Machine, fr *frame, args []value) value {
			panic(&targetPanic{v: iface{m.ti(types.Typ[types.String]), "log.Panic"}, where: fr.whereOwn()})
		},
		// ---------------------------------------------------------- strconv
		"strconv.FormatInt": func(m *Machine, fr *frame, args []value) value {
			if t := args[0].(T); !t.IsConst() && args[1].(T).IsConst() && args[1].(T).K == 10 {
				return m.decimal(t, true)
			}
			return fallthru{}
		},
		"strconv.FormatUint": func(m *Machine, fr *frame, args []value) value {
			if t := args[0].(T); !t.IsConst() && args[1].(T).IsConst() && args[1].(T).K == 10 {
				return m.decimal(t, false)
			}
			return fallthru{}
		},
		"strconv.Itoa": func(m *Machine, fr *frame, args []value) value {
			return m.decimal(args[0].(T), true)
		},
		"strconv.AppendInt": func(m *Machine, fr *frame, args []value) value {
			if t := args[1].(T); args[2].(T).IsConst() && args[2].(T).K == 10 {
				b := m.strTerms(m.decimal(t, true))
				r := append(sliceV{}, sl(args[0])...)
				return append(r, m.termsToSlice(b)...)
			}
			return fallthru{}
		},
		"strconv.AppendUint": func(m *Machine, fr *frame, args []value) value {
			if t := args[1].(T); args[2].(T).IsConst() && args[2].(T).K == 10 {
				b := m.strTerms(m.decimal(t, false))
				r := append(sliceV{}, sl(args[0])...)
				return append(r, m.termsToSlice(b)...)
			}
			return fallthru{}
		},
		// ---------------------------------------------------------- bytes
		"internal/bytealg.IndexByte":           indexByte,
		"internal/bytealg.IndexByteString":     indexByte,
		"internal/bytealg.LastIndexByte":       lastIndexByte,
		"internal/bytealg.LastIndexByteString": lastIndexByte,
		"internal/bytealg.Count":               countByte,
		"internal/bytealg.CountString":         countByte,
		"internal/bytealg.Equal": func(m *Machine, fr *frame, args []value) value {
			return m.termsEq(m.anyTerms(args[0]), m.anyTerms(args[1]))
		},
		"bytes.Equal": func(m *Machine, fr *frame, args []value) value {
			return m.termsEq(m.anyTerms(args[0]), m.anyTerms(args[1]))
		},
		"internal/bytealg.Compare":       compareBytes,
		"internal/bytealg.CompareString": compareBytes,
		"strings.Compare":                compareBytes,
		"bytes.Compare":                  compareBytes,
		"internal/bytealg.Index":         indexBytes,
		"internal/bytealg.IndexString":   indexBytes,
		"internal/bytealg.MakeNoZero": func(m *Machine, fr *frame, args []value) value {
			n := int(m.concretize(args[0].(T)))
			return make(sliceV, n, roundup(n, 1))
		},
		"strings.Index": strIndex,
		"strings.Contains": func(m *Machine, fr *frame, args []value) value {
			i := strIndex(m, fr, args).(T)
			return m.ctx.Not(m.ctx.Slt(i, m.i64(0)))
		},
		"bytes.Index":           strIndex,
		"strings.EqualFold":     nil,
		"internal/abi.NoEscape": first, "internal/abi.Escape": first,
		"internal/stringslite.Clone": first, "strings.Clone": first,
		"runtime.KeepAlive": nop, "runtime.SetFinalizer": nop, "runtime.GC": nop, "runtime.Gosched": func(m *Machine, fr *frame, args []value) value {
			m.sch.yield(fr.g)
			return nil
		},
		"runtime.AddCleanup":         nil,
		"runtime.NumCPU":             func(m *Machine, fr *frame, args []value) value { return m.i64(8) },
		"runtime.GOMAXPROCS":         func(m *Machine, fr *frame, args []value) value { return m.i64(8) },
		"runtime/debug.SetGCPercent": func(m *Machine, fr *frame, args []value) value { return m.i64(100) },
		"internal/race.Acquire":      nop, "internal/race.Release": nop, "internal/race.ReleaseMerge": nop, "internal/race.Disable": nop, "internal/race.Enable": nop,
		"internal/race.Read": nop, "internal/race.Write": nop, "internal/race.ReadRange": nop, "internal/race.WriteRange": nop, "internal/race.Errors": nop,
		"internal/msan.Read": nop, "internal/msan.Write": nop, "internal/asan.Read": nop, "internal/asan.Write": nop,
		"(*internal/godebug.Setting).Value":         func(m *Machine, fr *frame, args []value) value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"internal/godebug.New":                      func(m *Machine, fr *frame, args []value) value { p := new(value); return p },
		"(*internal/godebug.Setting).Name":          func(m *Machine, fr *frame, args []value) value { return "" },
		"internal/bytealg.IndexRabinKarp":           nil,
		"errors.Is":                                 nil,
		// ---------------------------------------------------------- sync
		"(*sync.Mutex).Lock":      func(m *Machine, fr *frame, args []value) value { m.sch.lock(fr.g, m.cell(args[0])); return nil },
		"(*sync.Mutex).Unlock":    func(m *Machine, fr *frame, args []value) value { m.sch.unlock(fr.g, m.cell(args[0])); return nil },
		"(*sync.Mutex).TryLock":   tryLock,
		"(*sync.RWMutex).Lock":    func(m *Machine, fr *frame, args []value) value { m.sch.lock(fr.g, m.cell(args[0])); return nil },
		"(*sync.RWMutex).Unlock":  func(m *Machine, fr *frame, args []value) value { m.sch.unlock(fr.g, m.cell(args[0])); return nil },
		"(*sync.RWMutex).RLock":   func(m *Machine, fr *frame, args []value) value { m.sch.rlock(fr.g, m.cell(args[0])); return nil },
		"(*sync.RWMutex).RUnlock": func(m *Machine, fr *frame, args []value) value { m.sch.runlock(fr.g, m.cell(args[0])); return nil },
		"(*sync.RWMutex).TryLock": tryLock,
		"(*sync.WaitGroup).Add":   wgAdd,
		"(*sync.WaitGroup).Done":  func(m *Machine, fr *frame, args []value) value { return wgAdd(m, fr, []value{args[0], m.i64(-1)}) },
		"(*sync.WaitGroup).Wait": func(m *Machine, fr *frame, args []value) value {
			st := m.wg(m.cell(args[0]))
			m.sch.preempt(fr.g)
			m.sch.block(fr.g, "WaitGroup.Wait", func() bool { return st.n == 0 })
			if m.race != nil {
				m.race.join(fr.g, st.vc)
			}
			return nil
		},
		"(*sync.Cond).Wait": func(m *Machine, fr *frame, args []value) value {
			p := m.cell(args[0])
			cs := m.cond(p)
			w := &condWait{}
			cs.q = append(cs.q, w)
			l := m.condL(p)
			unl, lk := m.methodByName(l.t, "Unlock"), m.methodByName(l.t, "Lock")
			m.callFn(fr, m.info(unl), []value{l.v}, nil)
			m.sch.block(fr.g, "sync.Cond.Wait", func() bool { return w.done })
			if m.race != nil {
				m.race.join(fr.g, w.vc)
			}
			m.callFn(fr, m.info(lk), []value{l.v}, nil)
			return nil
		},
		"(*sync.Cond).Signal": func(m *Machine, fr *frame, args []value) value {
			cs := m.cond(m.cell(args[0]))
			m.sch.preempt(fr.g)
			if len(cs.q) > 0 {
				cs.q[0].done, cs.q[0].vc = true, m.vcSnap(fr.g)
				cs.q = cs.q[1:]
			}
			return nil
		},
		"(*sync.Cond).Broadcast": func(m *Machine, fr *frame, args []value) value {
			cs := m.cond(m.cell(args[0]))
			m.sch.preempt(fr.g)
			for _, w := range cs.q {
				w.done, w.vc = true, m.vcSnap(fr.g)
			}
			cs.q = nil
			return nil
		},
		"(*sync.Pool).Get": func(m *Machine, fr *frame, args []value) value {
			p := m.cell(args[0])
			ti := m.ti(m.P.SSA.ImportedPackage("sync").Type("Pool").Type())
			fs := m.agg(ti, p)
			nf, _ := fs[len(fs)-1].(*closure)
			if nf == nil {
				return iface{}
			}
			return m.call(fr, nf, nil)
		},
		"(*sync.Pool).Put":                 nop,
		"sync.runtime_registerPoolCleanup": nop, "sync.runtime_notifyListCheck": nop, "sync.throw": fatal, "sync.fatal": fatal,
		// ---------------------------------------------------------- time
		"time.Now": func(m *Machine, fr *frame, args []value) value {
			if m.path.flags["symclock"] {
				n := m.fresh("clock")
				c := m.ctx
				sec := c.ZExt(c.Var(n+".s", 34), 64)
				ns := c.ZExt(c.Var(n+".ns", 30), 64)
				m.assume(c.Ult(ns, c.BV(1_000_000_000, 64)))
				return structV{ns, c.Add(sec, m.i64(62135596800)), (*value)(nil)}
			}
			return m.timeVal(m.sch.now)
		},
		"time.Sleep": func(m *Machine, fr *frame, args []value) value {
			m.sch.sleep(fr.g, int64(m.concretize(args[0].(T))))
			return nil
		},
		"time.NewTicker": func(m *Machine, fr *frame, args []value) value {
			d := int64(m.concretize(args[0].(T)))
			if d <= 0 {
				m.rtPanicPlain("non-positive interval for NewTicker")
			}
			return m.mkTimer(fr, "Ticker", d, d)
		},
		"time.NewTimer": func(m *Machine, fr *frame, args []value) value {
			return m.mkTimer(fr, "Timer", int64(m.concretize(args[0].(T))), 0)
		},
		"time.AfterFunc": func(m *Machine, fr *frame, args []value) value {
			p := m.mkTimer(fr, "Timer", int64(m.concretize(args[0].(T))), 0).(*value)
			t := m.sch.tickers[p]
			t.ch = nil
			t.fn = args[1]
			t.fr = fr
			return p
		},
		"time.After": func(m *Machine, fr *frame, args []value) value {
			p := m.mkTimer(fr, "Timer", int64(m.concretize(args[0].(T))), 0).(*value)
			return m.sch.tickers[p].ch
		},
		"time.Tick": func(m *Machine, fr *frame, args []value) value {
			d := int64(m.concretize(args[0].(T)))
			p := m.mkTimer(fr, "Ticker", d, d).(*value)
			return m.sch.tickers[p].ch
		},
		"(*time.Ticker).Stop":  timerStop,
		"(*time.Timer).Stop":   timerStop,
		"(*time.Ticker).Reset": timerReset,
		"(*time.Timer).Reset":  timerReset,
		"time.runtimeNano":     func(m *Machine, fr *frame, args []value) value { return m.i64(m.sch.now) },
		"time.initLocal":       nop,
		"unique.Make": func(m *Machine, fr *frame, args []value) value {
			var key string
			if !uniqueKey(args[0], &key) {
				m.unsupported("unique.Make of a symbolic value")
			}
			p, ok := m.uniques[key]
			if !ok {
				p = new(value)
				*p = args[0]
				if m.uniques == nil {
					m.uniques = map[string]*value{}
				}
				m.uniques[key] = p
			}
			return structV{p}
		},
		// ---------------------------------------------------------- math
		"math.Min": fminmax(true), "math.Max": fminmax(false),
		"math.Float64bits": fbits, "math.Float64frombits": ffrom, "math.Float32bits": fbits, "math.Float32frombits": ffrom,
		"internal/strconv.float64bits": fbits, "internal/strconv.float64frombits": ffrom, "internal/strconv.float32bits": fbits, "internal/strconv.float32frombits": ffrom,
		"math.Floor": fhost(math.Floor), "math.Ceil": fhost(math.Ceil), "math.Sqrt": fhost(math.Sqrt), "math.Log": fhost(math.Log), "math.Log2": fhost(math.Log2), "math.Trunc": fhost(math.Trunc), "math.Abs": func(m *Machine, fr *frame, args []value) value {
			return m.ctx.FUn(smt.OFAbs, args[0].(T))
		},
		"math.Pow": func(m *Machine, fr *frame, args []value) value {
			x, y := args[0].(T), args[1].(T)
			if !x.IsFConst() || !y.IsFConst() {
				m.unsupported("math.Pow of a symbolic value")
			}
			return m.ctx.FConst(math.Pow(x.Float(), y.Float()), 64)
		},
		"math/bits.Mul64": func(m *Machine, fr *frame, args []value) value {
			a, b := args[0].(T), args[1].(T)
			if a.IsConst() && b.IsConst() {
				hi, lo := mul64(a.K, b.K)
				return tupleV{m.ctx.BV(hi, 64), m.ctx.BV(lo, 64)}
			}
			return fallthru{}
		},
		// ---------------------------------------------------------- runtime bits
		"os.runtime_args":       func(m *Machine, fr *frame, args []value) value { return sliceV{"prog"} },
		"syscall.runtime_envs":  func(m *Machine, fr *frame, args []value) value { return sliceV{} },
		"os.runtime_beforeExit": nop,
		"runtime.GOROOT":        func(m *Machine, fr *frame, args []value) value { return "/usr/local/go" },
		"os.Getenv":             func(m *Machine, fr *frame, args []value) value { return "" },
		"syscall.Getenv":        func(m *Machine, fr *frame, args []value) value { return tupleV{"", m.ctx.False} },
		"os.LookupEnv":          func(m *Machine, fr *frame, args []value) value { return tupleV{"", m.ctx.False} },
		"os.Getpid":             func(m *Machine, fr *frame, args []value) value { return m.i64(4242) },
		"internal/cpu.Name":     func(m *Machine, fr *frame, args []value) value { return "" },
		"os.init":               nil,
		"models.sha1":           nil,
	}
	for k, f := range intrinsics {
		if f == nil {
			delete(intrinsics, k)
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		for _, pk := range []string{"sync/atomic."} {
			intrinsics[pk+"Load"+ty] = func(m *Machine, fr *frame, args []value) value {
				return m.atomicLoad(fr, ty, args[0])
			}
			intrinsics[pk+"Store"+ty] = func(m *Machine, fr *frame, args []value) value {
				m.atomicOp(fr, ty, args[0], func(old value) (value, value) { return args[1], nil })
				return nil
			}
			intrinsics[pk+"Swap"+ty] = func(m *Machine, fr *frame, args []value) value {
				return m.atomicOp(fr, ty, args[0], func(old value) (value, value) { return args[1], old })
			}
			intrinsics[pk+"Add"+ty] = func(m *Machine, fr *frame, args []value) value {
				return m.atomicOp(fr, ty, args[0], func(old value) (value, value) {
					n := m.ctx.Add(old.(T), args[1].(T))
					return n, n
				})
			}
			intrinsics[pk+"And"+ty] = func(m *Machine, fr *frame, args []value) value {
				return m.atomicOp(fr, ty, args[0], func(old value) (value, value) {
					return m.ctx.BAnd(old.(T), args[1].(T)), old
				})
			}
			intrinsics[pk+"Or"+ty] = func(m *Machine, fr *frame, args []value) value {
				return m.atomicOp(fr, ty, args[0], func(old value) (value, value) {
					return m.ctx.BOr(old.(T), args[1].(T)), old
				})
			}
			intrinsics[pk+"CompareAndSwap"+ty] = func(m *Machine, fr *frame, args []value) value {
				return m.atomicOp(fr, ty, args[0], func(old value) (value, value) {
					var e T
					if ty == "Pointer" {
						e = m.ctx.Bool(m.ptrKey(old) == m.ptrKey(args[1]))
					} else {
						e = m.ctx.Eq(old.(T), args[1].(T))
					}
					if m.branch(e) {
						return args[2], m.ctx.True
					}
					return nil, m.ctx.False
				})
			}
		}
	}
	// atomic.Value keeps an interface in its first field
	intrinsics["(*sync/atomic.Value).Load"] = func(m *Machine, fr *frame, args []value) value {
		p := m.cell(args[0])
		m.sch.preempt(fr.g)
		return orZero(&tinfo{k: kIface, zero: iface{}}, m.agg(m.ti(m.P.SSA.ImportedPackage("sync/atomic").Type("Value").Type()), p)[0])
	}
	intrinsics["(*sync/atomic.Value).Store"] = func(m *Machine, fr *frame, args []value) value {
		p := m.cell(args[0])
		m.sch.preempt(fr.g)
		m.set(&m.agg(m.ti(m.P.SSA.ImportedPackage("sync/atomic").Type("Value").Type()), p)[0], args[1])
		return nil
	}
}

func mul64(a, b uint64) (hi, lo uint64) {
	const mask32 = 1<<32 - 1
	x0, x1 := a&mask32, a>>32
	y0, y1 := b&mask32, b>>32
	w0 := x0 * y0
	t := x1*y0 + w0>>32
	w1 := t & mask32
	w2 := t >> 32
	w1 += x0 * y1
	return x1*y1 + w2 + w1>>32, a * b
}

func (m *Machine) constMsg(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return "assertion"
}

func (m *Machine) assertion(fr *frame, c T, msg, knownID string) {
	m.needPath()
	m.path.reached[msg] = true
	if c.IsTrue() {
		return
	}
	if v, ok := m.known(c); ok && v {
		return
	}
	r, md := m.check(c)
	switch r {
	case smt.Sat:
		m.violation("assert", msg, fr.where(), knownID, md)
		// continue on the side where it holds, if there is one
		if r2, md2 := m.solver.Check(m.path.pc, c, m.path.model); r2 == smt.Sat {
			if m.path.ev.Eval(c) != 1 {
				m.setModel(md2)
			}
			m.addPC(c)
			return
		}
		panic(&abort{abStop, "assertion fails on the whole path"})
	case smt.Unknown:
		m.path.incompl = append(m.path.incompl, "solver returned unknown on assertion: "+msg)
	}
}

func print0(m *Machine, fr *frame, args []value) value { return tupleV{m.i64(0), iface{}} }

func fatal(m *Machine, fr *frame, args []value) value {
	panic(&abort{abExit, "process exit at " + fr.whereOwn()})
}

func (m *Machine) writeTo(fr *frame, w value, s value) value {
	it := w.(iface)
	if it.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := m.methodByName(it.t, "Write")
	if fn == nil {
		m.unsupported("Fprintf writer " + it.t.String())
	}
	return m.callFn(fr, m.info(fn), []value{it.v, m.termsToSlice(m.strTerms(s))}, nil)
}

func (m *Machine) anyTerms(v value) []T {
	if s, ok := v.(sliceV); ok {
		return m.bytesTerms(s)
	}
	return m.strTerms(v)
}

func indexByte(m *Machine, fr *frame, args []value) value {
	c := m.ctx
	b := m.anyTerms(args[0])
	x := args[1].(T)
	r := m.i64(-1)
	for i := len(b) - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(b[i], x), m.i64(int64(i)), r)
	}
	return r
}

func lastIndexByte(m *Machine, fr *frame, args []value) value {
	c := m.ctx
	b := m.anyTerms(args[0])
	x := args[1].(T)
	r := m.i64(-1)
	for i := range b {
		r = c.Ite(c.Eq(b[i], x), m.i64(int64(i)), r)
	}
	return r
}

func countByte(m *Machine, fr *frame, args []value) value {
	c := m.ctx
	x := args[1].(T)
	r := m.i64(0)
	for _, t := range m.anyTerms(args[0]) {
		r = c.Add(r, c.Ite(c.Eq(t, x), m.i64(1), m.i64(0)))
	}
	return r
}

func compareBytes(m *Machine, fr *frame, args []value) value {
	c := m.ctx
	lt, eq := m.termsCmp(m.anyTerms(args[0]), m.anyTerms(args[1]))
	return c.Ite(lt, m.i64(-1), c.Ite(eq, m.i64(0), m.i64(1)))
}

func indexBytes(m *Machine, fr *frame, args []value) value {
	c := m.ctx
	a, b := m.anyTerms(args[0]), m.anyTerms(args[1])
	r := m.i64(-1)
	for i := len(a) - len(b); i >= 0; i-- {
		r = c.Ite(m.termsEq(a[i:i+len(b)], b), m.i64(int64(i)), r)
	}
	return r
}

func strIndex(m *Machine, fr *frame, args []value) value {
	x, ok1 := args[0].(string)
	y, ok2 := args[1].(string)
	if ok1 && ok2 {
		return m.i64(int64(strings.Index(x, y)))
	}
	return indexBytes(m, fr, args)
}

func (m *Machine) cell(v value) *value {
	switch p := v.(type) {
	case *value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case *symPtr:
		i := m.concretize(p.idx)
		return &p.base[i]
	}
	m.unsupported(fmt.Sprintf("pointer %T", v))
	return nil
}

func (m *Machine) wg(p *value) *wgState {
	s := m.path.wgState[p]
	if s == nil {
		s = &wgState{}
		m.path.wgState[p] = s
	}
	return s
}

type condWait struct {
	done bool
	vc   []int32
}

type condState struct{ q []*condWait }

func (m *Machine) cond(p *value) *condState {
	s := m.path.conds[p]
	if s == nil {
		s = &condState{}
		m.path.conds[p] = s
	}
	return s
}

func (m *Machine) condL(p *value) iface {
	ti := m.ti(m.P.SSA.ImportedPackage("sync").Type("Cond").Type())
	fs := m.agg(ti, p)
	l, _ := fs[1].(iface)
	if l.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return l
}

func wgAdd(m *Machine, fr *frame, args []value) value {
	st := m.wg(m.cell(args[0]))
	m.sch.preempt(fr.g)
	st.n += int64(m.concretize(args[1].(T)))
	if st.n < 0 {
		panic(&targetPanic{v: iface{m.ti(types.Typ[types.String]), "sync: negative WaitGroup counter"}, where: fr.whereOwn()})
	}
	if m.race != nil {
		st.vc = vcMax(st.vc, m.vcSnap(fr.g))
		m.race.tick(fr.g)
	}
	return nil
}

func tryLock(m *Machine, fr *frame, args []value) value {
	st := m.mu(m.cell(args[0]))
	m.sch.preempt(fr.g)
	if st.writer || st.readers > 0 {
		return m.ctx.False
	}
	m.sch.lock(fr.g, m.cell(args[0]))
	return m.ctx.True
}

// atomicLoad is a load; in a loop that does nothing but loads, preemptions at
// later iterations repeat those at the first two.
func (m *Machine) atomicLoad(fr *frame, ty string, pv value) value {
	p := m.cell(pv)
	g := fr.g
	n := g.loads[p]
	if n < 2 {
		l, k := g.loads, m.path.preempts
		m.sch.preempt(g)
		if l == nil || m.path.preempts != k {
			l, n = map[*value]int{}, 0
		}
		l[p] = n + 1
		g.loads = l
	}
	return m.atomicDo(fr, ty, pv, func(old value) (value, value) { return nil, old })
}

func (m *Machine) atomicOp(fr *frame, ty string, pv value, f func(old value) (value, value)) value {
	if m.initing == 0 {
		m.sch.preempt(fr.g)
	}
	return m.atomicDo(fr, ty, pv, f)
}

func (m *Machine) atomicDo(fr *frame, ty string, pv value, f func(old value) (value, value)) value {
	if m.spec > 0 {
		panic(specAbort{})
	}
	p := m.cell(pv)
	if m.race != nil {
		k := [2]any{"atomic", p}
		_ = k
		m.race.atomic(fr.g, p)
	}
	old := *p
	if old == nil {
		switch ty {
		case "Int32", "Uint32":
			old = m.ctx.BV(0, 32)
		case "Pointer":
			old = (*value)(nil)
		default:
			old = m.ctx.BV(0, 64)
		}
	}
	n, r := f(old)
	if n != nil {
		m.set(p, n)
	}
	return r
}

func (m *Machine) mkTimer(fr *frame, typ string, d, period int64) value {
	ti := m.ti(m.P.SSA.ImportedPackage("time").Type(typ).Type())
	ch := &chanV{cap: 1, ti: ti.fields[0]}
	p := new(value)
	st := make(structV, ti.n)
	st[0] = ch
	*p = st
	t := &timer{when: m.sch.now + d, period: period, ch: ch}
	m.sch.addTimer(t)
	m.sch.tickers[p] = t
	return p
}

func timerStop(m *Machine, fr *frame, args []value) value {
	t := m.sch.tickers[m.cell(args[0])]
	was := t != nil && !t.off
	if t != nil {
		t.off = true
	}
	return m.ctx.Bool(was)
}

func timerReset(m *Machine, fr *frame, args []value) value {
	t := m.sch.tickers[m.cell(args[0])]
	if t == nil {
		m.unsupported("reset of unknown timer")
	}
	was := !t.off
	d := int64(m.concretize(args[1].(T)))
	t.off = false
	t.when = m.sch.now + d
	if t.period > 0 {
		t.period = d
	}
	return m.ctx.Bool(was)
}

func fminmax(isMin bool) intrinsic {
	return func(m *Machine, fr *frame, args []value) value {
		a, b := args[0].(T), args[1].(T)
		c := m.ctx
		if a.IsFConst() && b.IsFConst() {
			if isMin {
				return c.FConst(math.Min(a.Float(), b.Float()), 64)
			}
			return c.FConst(math.Max(a.Float(), b.Float()), 64)
		}
		if m.branch(c.Or(c.FIsNaN(a), c.FIsNaN(b))) {
			return c.FConst(math.NaN(), 64)
		}
		if isMin {
			return c.Ite(c.FCmp(smt.OFLe, a, b), a, b)
		}
		return c.Ite(c.FCmp(smt.OFLe, a, b), b, a)
	}
}

func fbits(m *Machine, fr *frame, args []value) value {
	t := args[0].(T)
	if !t.IsFConst() {
		m.unsupported("bits of a symbolic float")
	}
	return m.ctx.BV(t.K, t.W)
}

func ffrom(m *Machine, fr *frame, args []value) value {
	t := args[0].(T)
	if !t.IsConst() {
		m.unsupported("float from symbolic bits")
	}
	if t.W == 32 {
		return m.ctx.FConst(float64(math.Float32frombits(uint32(t.K))), 32)
	}
	return m.ctx.FConst(math.Float64frombits(t.K), 64)
}

func fhost(f func(float64) float64) intrinsic {
	return func(m *Machine, fr *frame, args []value) value {
		t := args[0].(T)
		if !t.IsFConst() {
			m.unsupported("math function of a symbolic float")
		}
		return m.ctx.FConst(f(t.Float()), 64)
	}
}

func (r *raceDet) atomic(g *gor, p *value) {
	// atomics synchronise with each other; a plain access to the same cell races
	if r.m.initing > 0 {
		return
	}
	h := r.hist(p)
	c := r.own(g)
	ah := r.avc(p)
	if h.w.g >= 0 && !r.hb(h.w, g) {
		r.report("atomic access", g, h.w)
	}
	for _, a := range h.reads {
		if !r.hb(a, g) && !a.atomic {
			r.report("atomic access", g, a)
		}
	}
	r.join(g, *ah)
	*ah = vcMax(append([]int32(nil), *ah...), g.vc)
	for i := range h.reads {
		if h.reads[i].g == g.id && h.reads[i].atomic {
			h.reads[i].c = c
			r.tick(g)
			return
		}
	}
	h.reads = append(h.reads, access{g: g.id, c: c, where: r.at(g), atomic: true})
	r.tick(g)
}

func (r *raceDet) avc(p *value) *[]int32 {
	if r.av == nil {
		r.av = map[*value]*[]int32{}
	}
	if r.av[p] == nil {
		r.av[p] = new([]int32)
	}
	return r.av[p]
}

// uniqueKey renders a concrete value.
func uniqueKey(v value, k *string) bool {
	switch x := v.(type) {
	case nil:
		*k += "0;"
		return true
	case T:
		if !x.IsConst() {
			return false
		}
		*k += fmt.Sprintf("%d.%d;", x.W, x.K)
		return true
	case string:
		*k += fmt.Sprintf("%q;", x)
		return true
	case structV:
		*k += "{"
		for _, f := range x {
			if !uniqueKey(f, k) {
				return false
			}
		}
		*k += "}"
		return true
	}
	return false
}
