package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// native builds and runs harnesses against the real code.
type native struct {
	dir   string // scratch
	hs    []*harness
	mu    sync.Mutex
	built map[string]string // variant -> binary
	errs  map[string]error
	once  map[string]*sync.Once
	runs  int
	n     int
	sem   chan bool
}

type nresult struct {
	Outcome string // ok, assert, assume, panic, hang, exit, race, deadlock, fail
	Msg     string
	Known   string
	Obs     map[string]string
	Missing []string
	Stderr  string
}

func newNative(hs []*harness) (*native, error) {
	d, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		return nil, err
	}
	os.Chmod(d, 0755)
	return &native{dir: d, hs: hs, built: map[string]string{}, errs: map[string]error{}, once: map[string]*sync.Once{}, sem: make(chan bool, 6)}, nil
}

func (n *native) close() { os.RemoveAll(n.dir) }

func (n *native) binary(race bool) (string, error) {
	v := "plain"
	if race {
		v = "race"
	}
	n.mu.Lock()
	o := n.once[v]
	if o == nil {
		o = new(sync.Once)
		n.once[v] = o
	}
	n.mu.Unlock()
	o.Do(func() {
		b, err := n.build(v, race)
		n.mu.Lock()
		n.built[v], n.errs[v] = b, err
		n.mu.Unlock()
	})
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.built[v], n.errs[v]
}

func goroot() string {
	out, _ := exec.Command("go", "env", "GOROOT").Output()
	return strings.TrimSpace(string(out))
}

func (n *native) build(v string, race bool) (string, error) {
	pk := map[string]bool{}
	var pkgs []string
	sha, rnd, fake := false, false, false
	for _, h := range n.hs {
		if !pk[h.Pkg] {
			pk[h.Pkg] = true
			pkgs = append(pkgs, h.Pkg)
		}
		sha = sha || h.Sha1
		rnd = rnd || h.Rand
		fake = fake || h.FakeTime
	}
	repl := overlayFiles(helperPkgs(pkgs))
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\n\t\"gotor/zzverif/vsym\"\n")
	for _, p := range pkgs {
		fmt.Fprintf(&sb, "\t\"gotor/zzverif/%s\"\n", p)
	}
	if sha {
		sb.WriteString("\t\"crypto/sha1\"\n")
	}
	if rnd {
		sb.WriteString("\t\"gotor/zzverif/models\"\n\t\"math/rand\"\n")
	}
	if fake {
		sb.WriteString("\t\"testing/synctest\"\n")
	}
	sb.WriteString(")\n\nfunc main() {\n")
	if sha {
		sb.WriteString("\tsha1.VsymHook = vsym.DigestHook\n\tvsym.RealDigest = sha1.VsymReal\n")
	}
	if rnd {
		var on []string
		for _, h := range n.hs {
			if h.Rand {
				on = append(on, strconv.Quote(h.Name))
			}
		}
		fmt.Fprintf(&sb, "\tswitch os.Getenv(\"VSYM_HARNESS\") {\n\tcase %s:\n\t\trand.VsymHook = models.NewSource\n\t}\n", strings.Join(on, ", "))
	}
	sb.WriteString("\tswitch os.Getenv(\"VSYM_HARNESS\") {\n")
	for _, h := range n.hs {
		if h.FakeTime {
			fmt.Fprintf(&sb, "\tcase %q:\n\t\tvsym.WaitHook = synctest.Wait\n\t\tsynctest.VsymRun(func() {\n\t\t\t%s.%s()\n\t\t\tvsym.Finish()\n\t\t})\n", h.Name, h.Pkg, h.Name)
			continue
		}
		fmt.Fprintf(&sb, "\tcase %q:\n\t\t%s.%s()\n", h.Name, h.Pkg, h.Name)
	}
	sb.WriteString("\tdefault:\n\t\tpanic(\"no such harness\")\n\t}\n\tvsym.Finish()\n}\n")
	mf := filepath.Join(n.dir, "main_"+v+".go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	repl[filepath.Join(srcDir(), "zzverif", "runner", "main.go")] = mf
	if sha {
		if err := n.sha1Overlay(repl); err != nil {
			return "", err
		}
	}
	if rnd {
		if err := n.randOverlay(repl); err != nil {
			return "", err
		}
	}
	if fake {
		// A bubble without a test
		g := filepath.Join(n.dir, "synctest.go")
		if err := os.WriteFile(g, []byte("package synctest\n\nimport \"internal/synctest\"\n\nfunc VsymRun(f func()) { synctest.Run(f) }\n"), 0644); err != nil {
			return "", err
		}
		repl[filepath.Join(goroot(), "src/testing/synctest/vsym.go")] = g
	}
	ob, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(n.dir, "overlay_"+v+".json")
	if err := os.WriteFile(of, ob, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(n.dir, "runner_"+v)
	args := []string{"build", "-overlay", of, "-o", bin}
	env := goEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "gotor/zzverif/runner")
	c := exec.Command("go", args...)
	c.Dir = srcDir()
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

// randOverlay gives math/rand a hook so that a replay can use the random
// values of the solver's model.
func (n *native) randOverlay(repl map[string]string) error {
	f := filepath.Join(goroot(), "src/math/rand/rand.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	s := strings.Replace(string(b), "func NewSource(seed int64) Source {\n", "func NewSource(seed int64) Source {\n\tif VsymHook != nil {\n\t\treturn VsymHook(seed)\n\t}\n", 1)
	if s == string(b) {
		return fmt.Errorf("math/rand has an unexpected shape")
	}
	s += "\n// VsymHook replaces sources during a replay.\nvar VsymHook func(seed int64) Source\n"
	g := filepath.Join(n.dir, "rand.go")
	if err := os.WriteFile(g, []byte(s), 0644); err != nil {
		return err
	}
	repl[f] = g
	return nil
}

// sha1Overlay gives crypto/sha1 a hook so that a replay can use the digests
// of the solver's model.
func (n *native) sha1Overlay(repl map[string]string) error {
	f := filepath.Join(goroot(), "src/crypto/sha1/sha1.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	s := string(b)
	s2 := strings.Replace(s, "func New() hash.Hash {", "func newReal() hash.Hash {", 1)
	s2 = strings.Replace(s2, "func Sum(data []byte) [Size]byte {", "func VsymReal(data []byte) [Size]byte {", 1)
	if s2 == s {
		return fmt.Errorf("crypto/sha1 has an unexpected shape")
	}
	s2 += `
// VsymHook replaces digests during a replay.
var VsymHook func(data []byte) ([Size]byte, bool)

func Sum(data []byte) [Size]byte {
	if VsymHook != nil {
		if d, ok := VsymHook(data); ok {
			return d
		}
	}
	return VsymReal(data)
}

type vsymHash struct {
	hash.Hash
	all []byte
}

func (v *vsymHash) Write(p []byte) (int, error) { v.all = append(v.all, p...); return v.Hash.Write(p) }
func (v *vsymHash) Reset()                      { v.all = nil; v.Hash.Reset() }
func (v *vsymHash) Sum(in []byte) []byte {
	d := Sum(v.all)
	return append(in, d[:]...)
}

func New() hash.Hash { return &vsymHash{Hash: newReal()} }
`
	g := filepath.Join(n.dir, "sha1.go")
	if err := os.WriteFile(g, []byte(s2), 0644); err != nil {
		return err
	}
	repl[f] = g
	return nil
}

var panicRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|.*goroutine stack exceeds.*)$`)

// run executes one harness natively on concrete inputs.
func (n *native) run(h *harness, in map[string]string, race, thorough bool, ms int) nresult {
	bin, err := n.binary(race)
	if err != nil {
		return nresult{Outcome: "fail", Msg: err.Error()}
	}
	n.sem <- true
	defer func() { <-n.sem }()
	n.mu.Lock()
	n.n++
	id := n.n
	n.runs++
	n.mu.Unlock()
	d := filepath.Join(n.dir, fmt.Sprintf("run%d", id))
	work := filepath.Join(d, "w")
	os.MkdirAll(work, 0755)
	defer os.RemoveAll(d)
	inf, outf := filepath.Join(d, "in.json"), filepath.Join(d, "out.json")
	b, _ := json.Marshal(in)
	os.WriteFile(inf, b, 0644)
	os.WriteFile(outf, nil, 0666)
	if ms == 0 {
		ms = h.NativeMS
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	if !race {
		cmd = exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 8000000; ulimit -c 0; exec \"$0\"", bin)
	}
	cmd.Dir = work
	tv := "0"
	if thorough {
		tv = "1"
	}
	cmd.Env = []string{"VSYM_INPUT=" + inf, "VSYM_OUTPUT=" + outf, "VSYM_HARNESS=" + h.Name, "VSYM_DIR=" + work, "VSYM_THOROUGH=" + tv,
		"HOME=" + work, "TMPDIR=" + work, "GOMEMLIMIT=3GiB", "GORACE=halt_on_error=1 exitcode=66", "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	if h.FakeTime {
		cmd.Env = append(cmd.Env, "GODEBUG=asynctimerchan=0")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Getuid() == 0 {
		os.Chown(work, 65534, 65534)
		os.Chown(outf, 65534, 65534)
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	var eb bytes.Buffer
	cmd.Stderr = &limitW{b: &eb, n: 1 << 20}
	err = cmd.Run()
	r := nresult{Stderr: eb.String()}
	var rep struct {
		Outcome, Msg, Known string
		Obs                 map[string]string
		Missing             []string
	}
	if ob, e := os.ReadFile(outf); e == nil && len(ob) > 0 {
		json.Unmarshal(ob, &rep)
	}
	r.Obs, r.Missing = rep.Obs, rep.Missing
	if ctx.Err() != nil {
		r.Outcome, r.Msg = "hang", fmt.Sprintf("still running after %d ms", ms)
		return r
	}
	code := 0
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			r.Outcome, r.Msg = "fail", err.Error()
			return r
		}
		code = ee.ExitCode()
	}
	switch {
	case code == 0:
		r.Outcome = "ok"
	case code == 3:
		r.Outcome, r.Msg, r.Known = "assert", rep.Msg, rep.Known
	case code == 4:
		r.Outcome, r.Msg = "assume", rep.Msg
	case code == 66:
		r.Outcome, r.Msg = "race", "data race"
	case code == 97:
		r.Outcome, r.Msg = "fail", r.Stderr
	case code == 2:
		r.Outcome = "panic"
		if m := panicRe.FindString(r.Stderr); m != "" {
			r.Msg = m
			if strings.Contains(m, "all goroutines are asleep") || strings.Contains(m, "goroutines in bubble are blocked") {
				r.Outcome = "deadlock"
			}
			if strings.Contains(m, "out of memory") || strings.Contains(m, "cannot allocate memory") {
				r.Outcome = "hang"
			}
		}
	default:
		r.Outcome, r.Msg = "exit", fmt.Sprintf("exit code %d", code)
	}
	return r
}

type limitW struct {
	b *bytes.Buffer
	n int
}

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}
