package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagTier    string
	flagSeed    int64
	flagProp    string
	flagRun     string
	flagRepo    string
	flagVerif   string
	flagWorkers int
	flagBudget  time.Duration
	flagVerbose bool
	flagNoRep   bool
	flagScript  string
	flagCPU     string
	flagReplay  string
	flagSlow    time.Duration
)

func main() {
	flag.StringVar(&flagProp, "prop", "", "property")
	flag.StringVar(&flagTier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&flagSeed, "seed", 1, "seed for generated corpora")
	flag.StringVar(&flagRun, "run", "", "only harnesses whose name contains this")
	flag.StringVar(&flagRepo, "repo", "/repo", "repository")
	flag.StringVar(&flagVerif, "verif", "/verif", "verification directory")
	flag.IntVar(&flagWorkers, "workers", 8, "workers")
	flag.DurationVar(&flagBudget, "budget", 0, "time budget for the whole property")
	flag.BoolVar(&flagVerbose, "v", false, "verbose")
	flag.BoolVar(&flagNoRep, "noreplay", false, "do not replay violations natively")
	flag.BoolVar(&noMerge, "nomerge", false, "no if-conversion")
	flag.BoolVar(&flagCross, "cross", false, "cross-check solver answers with a second solver")
	flag.StringVar(&flagSolver, "solver", defaultSolver(), "solver command")
	flag.StringVar(&flagCPU, "cpuprofile", "", "write profile")
	flag.BoolVar(&debugPanics, "debug", false, "crash on internal errors")
	flag.DurationVar(&flagSlow, "slow", 0, "report solver queries slower than this")
	flag.StringVar(&flagReplay, "replay", "", "replay a recorded counterexample against the real code")
	flag.Parse()
	if flagCPU != "" {
		startProfile(flagCPU)
	}
	if flagReplay != "" {
		os.Exit(replayOne(flagReplay, flagRepo, flagVerif))
	}
	t0 := time.Now()
	spec := newSpec(flagRepo, flagVerif, flagProp)
	spec.load()
	tLoad := time.Since(t0)
	base := setup(spec)
	if flagVerbose {
		fmt.Printf("load %.1fs, init %.1fs, %d steps, %d objects\n", tLoad.Seconds(), (time.Since(t0) - tLoad).Seconds(), base.steps, base.h.next)
	}
	fnMu.Lock()
	for _, fn := range fnTab {
		fn.entered.Store(false)
	}
	fnMu.Unlock()
	var fns []*ssa.Function
	for _, d := range spec.harnessPkgs {
		p := pkgByPath(modPath + "/" + d)
		if p == nil {
			continue
		}
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Verif"+flagProp+"_") && strings.Contains(n, flagRun) {
				fns = append(fns, f)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	if len(fns) == 0 && len(spec.dropped) > 0 && flagRun == "" {
		fmt.Printf("NOT-CHECKED: no harness of %s fits the code any more\n", flagProp)
	} else if len(fns) == 0 {
		fatal("no harness functions for %s", flagProp)
	}
	total := flagBudget
	if total == 0 {
		total = 240 * time.Second
		if flagTier == "thorough" {
			total = 780 * time.Second
		}
	}
	end := t0.Add(total)
	var workers []*Worker
	for i := 0; i < flagWorkers; i++ {
		workers = append(workers, &Worker{solver: NewSolver(flagSolver)})
	}
	harnessDirs = spec.harnessPkgs
	rp := newReplayer(spec)
	var runs []*HarnessRun
	for i, f := range fns {
		// a harness may use what is left, less a share for those after it
		left := time.Until(end)
		w := 0
		for _, g := range fns[i:] {
			w += spec.weight(g.Name())
		}
		b := left * time.Duration(spec.weight(f.Name())) / time.Duration(w)
		if b < 2*time.Second {
			b = 2 * time.Second
		}
		r := runHarness(base, fnOf(f), workers, b, maxStepsOf(flagTier), !flagNoRep)
		if flagVerbose {
			r.report()
		}
		resetTerms()
		if r.violN > 0 && !flagNoRep && !rp.confirmAny(r) && r.cut {
			// no counterexample was real: explore the rest after all
			b = min(b, time.Until(end))
			r = runHarness(base, fnOf(f), workers, max(b, 2*time.Second), maxStepsOf(flagTier), false)
			if flagVerbose {
				r.report()
			}
			resetTerms()
		}
		runs = append(runs, r)
		if r.confirmed {
			break
		}
	}
	stopProfile()
	code := finish(spec, base, runs, t0, rp)
	rp.close()
	os.Exit(code)
}

func maxStepsOf(tier string) int64 {
	if tier == "thorough" {
		return 1_000_000_000
	}
	return 300_000_000
}

func (r *HarnessRun) report() {
	fmt.Printf("%s: %.1fs paths=%d steps=%d asserts=%d why=%v left=%d\n", r.name, r.wall.Seconds(), r.paths, r.steps, r.asserts.Load(), r.pathWhy, r.left)
	for k, n := range r.covers {
		fmt.Printf("  cover %s %d\n", k, n)
	}
	for k, n := range r.incompl {
		fmt.Printf("  incomplete: %s (%d)\n", k, n)
	}
	for k, n := range r.errs {
		fmt.Printf("  error: %s (%d)\n%s", k, n, r.errStack[k])
	}
	for _, vs := range r.viol {
		v := vs[0]
		fmt.Printf("  VIOL %s at %s\n%s  %s\n", v.msg, v.where, v.stack, sampleText("inputs", v.values))
		for _, l := range v.logs {
			fmt.Printf("    note: %s\n", l)
		}
	}
	fmt.Printf("  solver: %d queries (%d sat %d unsat %d unknown), %d cached, %d by domain, %d by model, %.1fs; forks %d merges %d\n",
		statQueries.Load(), statSat.Load(), statUnsat.Load(), statUnknown.Load(), statCache.Load(), statFast.Load(), statEvalHits.Load(),
		float64(statSolverNs.Load())/1e9, statForks.Load(), statMerges.Load())
}

func resetTerms() {
	for i := range shards {
		shards[i].mu.Lock()
		shards[i].m = map[termKey]*Term{}
		shards[i].mu.Unlock()
	}
	for k, t := range []*Term{FalseT, TrueT} {
		key := termKey{op: OpConst, w: 0, k: uint64(k)}
		h := uint64(key.op)*0x9E3779B97F4A7C15 ^ key.k*0xC2B2AE3D27D4EB4F ^ uint64(key.w)
		h ^= h >> 29
		h *= 0xBF58476D1CE4E5B9
		shards[(h>>40)%nShard].m[key] = t
	}
	varMu.Lock()
	varTab = nil
	varByName = map[string]*Term{}
	varMu.Unlock()
	qcMu.Lock()
	qcache = map[string]qres{}
	qcMu.Unlock()
}
