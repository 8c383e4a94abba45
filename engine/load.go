package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var prog *ssa.Program
var pkgPaths = map[string]*ssa.Package{}
var rtErr *RType
var globalReady = map[uint32]bool{}
var firstHeapObj uint32

func pkgByPath(p string) *ssa.Package { return pkgPaths[p] }
func rtErrorType() *RType             { return rtErr }

// overlayFiles maps files to put into the repository tree to their sources in /verif.
type overlay map[string]string

func addDir(ov overlay, src, dst, prefix string) int {
	n := 0
	es, _ := os.ReadDir(src)
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") {
			ov[filepath.Join(dst, prefix+e.Name())] = filepath.Join(src, e.Name())
			n++
		}
	}
	return n
}

func pkgDirOf(d string) string {
	switch {
	case strings.HasPrefix(d, "cmd_"):
		return "cmd/" + d[4:]
	case d == "vharness" || d == "vref" || d == "vsym" || d == "vos":
		return "internal/" + d
	}
	return d
}

type loadSpec struct {
	repo, verif, prop string
	ov                overlay
	harnessPkgs       []string // directories relative to the repo
	extra             []string
	faults            bool     // replays need the file operations to be counted
	race              bool     // replays look for races
	dropped           []string // harness files left out because they do not compile
}

func newSpec(repo, verif, prop string) *loadSpec {
	s := &loadSpec{repo: repo, verif: verif, prop: prop, ov: overlay{}}
	addDir(s.ov, filepath.Join(verif, "vsym"), filepath.Join(repo, "internal/vsym"), "")
	addDir(s.ov, filepath.Join(verif, "vref"), filepath.Join(repo, "internal/vref"), "")
	dir := filepath.Join(verif, "harness", prop)
	es, err := os.ReadDir(dir)
	if err != nil {
		fatal("no harness for %s: %v", prop, err)
	}
	for _, e := range es {
		if e.IsDir() {
			d := pkgDirOf(e.Name())
			if addDir(s.ov, filepath.Join(dir, e.Name()), filepath.Join(repo, d), "zz_verif_") > 0 {
				s.harnessPkgs = append(s.harnessPkgs, d)
			}
			if e.Name() != "vharness" {
				addDir(s.ov, filepath.Join(verif, "harness", "common", e.Name()), filepath.Join(repo, d), "zz_verif_common_")
			} else {
				addDir(s.ov, filepath.Join(verif, "harness", "common", e.Name()), filepath.Join(repo, d), "zz_verif_common_")
			}
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "load.txt")); err == nil {
		s.extra = strings.Fields(string(b))
	}
	_, serr := os.Stat(filepath.Join(dir, "faults.txt"))
	s.faults = serr == nil
	_, serr = os.Stat(filepath.Join(dir, "race.txt"))
	s.race = serr == nil
	return s
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GO111MODULE=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
}

func (s *loadSpec) load() {
	for try := 0; ; try++ {
		errs := s.load1()
		if len(errs) == 0 {
			return
		}
		// drop harness files that no longer fit the code
		drop := map[string]bool{}
		var other []string
		for _, e := range errs {
			f := e.Pos
			for i := 0; i < 2; i++ {
				if k := strings.LastIndexByte(f, ':'); k > 0 {
					f = f[:k]
				}
			}
			if k := strings.IndexByte(f, ':'); k > 0 {
				f = f[:k]
			}
			if src, ok := s.ov[f]; ok && strings.Contains(src, "/harness/") {
				drop[f] = true
			} else {
				other = append(other, e.Error())
			}
		}
		if len(drop) == 0 || try > 20 {
			sort.Strings(other)
			for _, o := range other {
				fmt.Fprintln(os.Stderr, o)
			}
			fatal("the code does not load")
		}
		for f := range drop {
			s.dropped = append(s.dropped, filepath.Base(s.ov[f]))
			for _, e := range errs {
				if strings.HasPrefix(e.Pos, f) {
					fmt.Fprintln(os.Stderr, "harness file left out:", e.Error())
				}
			}
			alt := s.ov[f] + ".alt"
			delete(s.ov, f)
			if _, err := os.Stat(alt); err == nil {
				s.ov[f] = alt
			}
		}
	}
}

func (s *loadSpec) load1() []packages.Error {
	ov := map[string][]byte{}
	for dst, src := range s.ov {
		b, err := os.ReadFile(src)
		if err != nil {
			fatal("%v", err)
		}
		ov[dst] = b
	}
	eng := overlay{}
	addDir(eng, filepath.Join(s.verif, "vos"), filepath.Join(s.repo, "internal/vos"), "")
	for dst, src := range eng {
		b, err := os.ReadFile(src)
		if err != nil {
			fatal("%v", err)
		}
		ov[dst] = b
	}
	pats := []string{"./internal/vos"}
	for _, d := range s.harnessPkgs {
		pats = append(pats, "./"+d)
	}
	pats = append(pats, s.extra...)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: s.repo, Overlay: ov, Env: goEnv()}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fatal("load: %v", err)
	}
	var errs []packages.Error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			errs = append(errs, p.Errors...)
		}
	})
	if len(errs) > 0 {
		return errs
	}
	prog, _ = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	for _, p := range prog.AllPackages() {
		pkgPaths[p.Pkg.Path()] = p
	}
	return nil
}

// setup assigns global objects and runs package initialisers.
func setup(spec *loadSpec) *State {
	vos := pkgByPath(vosPath)
	for n, m := range vos.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "S_") {
			stubs[n] = f
		}
	}
	st := &State{w: &Worker{solver: NewSolver(flagSolver)}, names: map[string]int{}, dom: map[uint32][4]uint64{}, multi: map[uint32]bool{}}
	st.h.owner = newOwner()
	var ps []*ssa.Package
	for _, p := range prog.AllPackages() {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	for _, p := range ps {
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.Members[n].(*ssa.Global)
			l := layoutOf(g.Type().Underlying().(*types.Pointer).Elem())
			id := st.h.put(newObj(st.h.owner, l.n, l.kind == kArray && l.byt))
			globalIDs[g] = id
			globalList = append(globalList, g)
			if wantInit(p.Pkg.Path()) || p.Pkg.Path() == "internal/cpu" {
				globalReady[id] = true
			}
		}
	}
	firstHeapObj = st.h.next
	rtErr = rtypeOf(pkgByPath("runtime").Type("errorString").Object().Type())
	run := newInitRun()
	st.run = run
	initOne := func(p *ssa.Package) {
		if f := p.Func("init"); f != nil {
			st.pushFrame(fnOf(f), nil, nil, -1, fkNormal)
			if why := st.runPath(); why != "done" {
				for e := range run.errs {
					fmt.Fprintln(os.Stderr, "init:", p.Pkg.Path(), e)
					fmt.Fprintln(os.Stderr, run.errStack[e])
				}
				for _, vs := range run.viol {
					v := vs[0]
					fmt.Fprintln(os.Stderr, "init:", p.Pkg.Path(), v.msg, v.stack)
				}
				fatal("initialisation of %s failed: %s", p.Pkg.Path(), why)
			}
		}
	}
	initOne(vos)
	for _, p := range ps {
		if wantInit(p.Pkg.Path()) && (p.Pkg.Name() != "main" || spec.isHarness(p.Pkg.Path())) {
			initOne(p)
		}
	}
	return st
}

func newInitRun() *HarnessRun {
	return &HarnessRun{name: "init", incompl: map[string]int{}, viol: map[string][]*Violation{}, covers: map[string]int{},
		pathWhy: map[string]int{}, errs: map[string]int{}, errStack: map[string]string{}, maxViol: 4, maxSteps: 1 << 60}
}

func (st *State) uninitGlobal(id uint32) {
	if o := st.h.get(id); o.written {
		return
	}
	for _, g := range globalList {
		if globalIDs[g] == id {
			panic(engineErr("read of global %s of a package whose initialiser is not run", g))
		}
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	os.Exit(2)
}

func (s *loadSpec) isHarness(path string) bool {
	for _, d := range s.harnessPkgs {
		if path == modPath+"/"+d {
			return true
		}
	}
	return false
}

// weight is a harness's share of the time, from the lines "name weight" of share.txt.
func (s *loadSpec) weight(name string) int {
	b, _ := os.ReadFile(filepath.Join(s.verif, "harness", s.prop, "share.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		var n string
		var w int
		if fmt.Sscan(l, &n, &w); n == name && w > 0 {
			return w
		}
	}
	return 1
}
