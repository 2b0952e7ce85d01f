package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"gosym/exec"
)

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	repoDir  = envOr("VERIF_REPO", "/repo")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func srcDir() string { return filepath.Join(repoDir, "src") }

// harness describes one harness function and its directives:
//
//	//gosym:bounds  text of the stated bounds
//	//gosym:assume  text of an assumption
//	//gosym:cpu Q T CPU seconds per tier
//	//gosym:thorough      only in the thorough tier
//	//gosym:loose         native runs are not deterministic
//	//gosym:race          native confirmation uses the race detector
//	//gosym:huge          byte slices of up to 2^32 bytes that are only read
//	//gosym:stress N      native repetitions for schedule-dependent findings
//	//gosym:steps N       step limit of one path
//	//gosym:cover a b c   points some path must reach
//	//gosym:paths Q T     path budget
type harness struct {
	Name, Pkg, File string
	Prop            string
	Bounds, Assume  []string
	CPUQ, CPUT      float64
	PathsQ, PathsT  int
	ThoroughOnly    bool
	Loose, Race     bool
	Stress          int
	Steps           int64
	Cover           []string
	SpinQuantum     int64
	Huge            bool
	NativeMS        int
	Sha1, Rand      bool
	NoNative        bool
	FakeTime        bool // natively in a synctest bubble
}

var propRe = regexp.MustCompile(`^([CS]\d\d)_`)

// scan lists the harness functions under /verif/harness.
func scan() ([]*harness, error) {
	var r []*harness
	root := filepath.Join(verifDir, "harness")
	dirs, err := os.ReadDir(root)
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "vsym" || d.Name() == "models" {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(root, d.Name(), "*.go"))
		sort.Strings(files)
		for _, f := range files {
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			for _, dc := range af.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				mt := propRe.FindStringSubmatch(fd.Name.Name)
				if mt == nil {
					continue
				}
				h := &harness{Name: fd.Name.Name, Pkg: d.Name(), File: f, Prop: mt[1], CPUQ: 60, CPUT: 1600, PathsQ: 200000, PathsT: 5000000, Stress: 60, NativeMS: 10000}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						h.directive(c.Text)
					}
				}
				r = append(r, h)
			}
		}
	}
	return r, nil
}

func (h *harness) directive(t string) {
	if !strings.HasPrefix(t, "//gosym:") {
		return
	}
	t = strings.TrimPrefix(t, "//gosym:")
	w, rest, _ := strings.Cut(t, " ")
	rest = strings.TrimSpace(rest)
	fs := strings.Fields(rest)
	num := func(i int) float64 {
		if i < len(fs) {
			v, _ := strconv.ParseFloat(fs[i], 64)
			return v
		}
		return 0
	}
	switch w {
	case "bounds":
		h.Bounds = append(h.Bounds, rest)
	case "assume":
		h.Assume = append(h.Assume, rest)
	case "cpu":
		h.CPUQ, h.CPUT = num(0), num(1)
	case "paths":
		h.PathsQ, h.PathsT = int(num(0)), int(num(1))
	case "thorough":
		h.ThoroughOnly = true
	case "loose":
		h.Loose = true
	case "race":
		h.Race = true
	case "stress":
		h.Stress = int(num(0))
	case "steps":
		h.Steps = int64(num(0))
	case "huge":
		h.Huge = true
	case "spin":
		h.SpinQuantum = int64(num(0))
	case "cover":
		h.Cover = append(h.Cover, fs...)
	case "native-ms":
		h.NativeMS = int(num(0))
	case "sha1":
		h.Sha1 = true
	case "rand":
		h.Rand = true
	case "faketime":
		h.FakeTime = true
	case "nonative":
		h.NoNative = true
	default:
		panic("unknown directive " + w + " in " + h.Name)
	}
}

// overlayFiles maps virtual file names in the repository to harness files.
func overlayFiles(pkgs []string) map[string]string {
	r := map[string]string{}
	for _, p := range pkgs {
		files, _ := filepath.Glob(filepath.Join(verifDir, "harness", p, "*.go"))
		for _, f := range files {
			r[filepath.Join(srcDir(), "zzverif", p, filepath.Base(f))] = f
		}
	}
	return r
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GOWORK=off", "CGO_ENABLED=0")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// helperPkgs returns the harness helper packages that the given ones import.
func helperPkgs(pkgs []string) []string {
	seen := map[string]bool{}
	var out []string
	var add func(p string)
	add = func(p string) {
		if seen[p] {
			return
		}
		seen[p] = true
		out = append(out, p)
		files, _ := filepath.Glob(filepath.Join(verifDir, "harness", p, "*.go"))
		for _, f := range files {
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ImportsOnly)
			if err != nil {
				continue
			}
			for _, im := range af.Imports {
				s, _ := strconv.Unquote(im.Path.Value)
				if strings.HasPrefix(s, "gotor/zzverif/") {
					add(strings.TrimPrefix(s, "gotor/zzverif/"))
				}
			}
		}
	}
	add("vsym")
	add("models")
	for _, p := range pkgs {
		add(p)
	}
	return out
}

// load type-checks the harness packages with the repository's current sources
// and builds SSA for everything they reach.
func load(pkgs []string) (*exec.Program, map[string]*ssa.Package, error) {
	all := helperPkgs(pkgs)
	ov := map[string][]byte{}
	for v, f := range overlayFiles(all) {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: srcDir(), Overlay: ov, Env: goEnv(), Tests: false}
	var pats []string
	for _, p := range all {
		pats = append(pats, "gotor/zzverif/"+p)
	}
	init, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(init, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, nil, fmt.Errorf("the harness does not compile against the repository:\n%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(init, ssa.InstantiateGenerics)
	prog.Build()
	m := map[string]*ssa.Package{}
	P := &exec.Program{SSA: prog}
	for i, p := range init {
		m[filepath.Base(p.PkgPath)] = sp[i]
		if p.PkgPath == "gotor/zzverif/models" {
			P.Models = sp[i]
		}
		P.Sizes = p.TypesSizes
	}
	P.Vsym = "gotor/zzverif/vsym"
	runtime.GC()
	return P, m, nil
}
