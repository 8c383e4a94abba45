package main

// What happens after exploration: counterexamples and a sample of the explored
// paths are run against the real code, and the evidence file is written.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func posOf0(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return prog.Fset.Position(f.Pos()).Filename
}

type replayFile struct {
	Property string
	Harness  string
	Pkg      string
	Message  string
	Tier     string
	Seed     int64
	Values   map[string]uint64
	Command  string
}

type replayer struct {
	spec    *loadSpec
	scratch string
	bins    map[string]string // package directory -> test binary
	failed  map[string]string
	cmdBin  string
	cmdErr  error
}

func newReplayer(spec *loadSpec) *replayer {
	d, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		fatal("%v", err)
	}
	return &replayer{spec: spec, scratch: d, bins: map[string]string{}, failed: map[string]string{}}
}

func (r *replayer) close() {
	if strings.Contains(r.scratch, "verif-replay") {
		os.RemoveAll(r.scratch)
	}
}

func pkgOfHarness(name string) string {
	for _, d := range harnessDirs {
		if p := pkgByPath(modPath + "/" + d); p != nil && p.Func(name) != nil {
			return d
		}
	}
	return ""
}

var harnessDirs []string

// build compiles the test binary that holds the harnesses of a package.
func (r *replayer) build(dir string) (string, error) {
	if b := r.bins[dir]; b != "" {
		return b, nil
	}
	if e := r.failed[dir]; e != "" {
		return "", fmt.Errorf("%s", e)
	}
	p := pkgByPath(modPath + "/" + dir)
	var names []string
	for n, m := range p.Members {
		if _, ok := m.(*ssa.Function); !ok {
			continue
		}
		if strings.HasPrefix(n, "Verif"+r.spec.prop+"_") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var src bytes.Buffer
	fmt.Fprintf(&src, "package %s\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"testing\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tswitch os.Getenv(\"VERIF_HARNESS\") {\n", p.Pkg.Name())
	for _, n := range names {
		fmt.Fprintf(&src, "\tcase %q:\n\t\t%s()\n", n, n)
	}
	fmt.Fprintf(&src, "\t}\n\tfmt.Println(\"VERIF-OK\")\n}\n")
	key := strings.ReplaceAll(dir, "/", "_")
	tf := filepath.Join(r.scratch, key+"_replay_test.go")
	if err := os.WriteFile(tf, src.Bytes(), 0600); err != nil {
		return "", err
	}
	rep := map[string]string{}
	for dst, s := range r.spec.ov {
		rep[dst] = s
	}
	rep[filepath.Join(r.spec.repo, dir, "zz_verif_replay_test.go")] = tf
	// the package's own tests are not needed and must not get in the way
	es, _ := os.ReadDir(filepath.Join(r.spec.repo, dir))
	for _, e := range es {
		if strings.HasSuffix(e.Name(), "_test.go") {
			rep[filepath.Join(r.spec.repo, dir, e.Name())] = ""
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(r.scratch, key+"_overlay.json")
	if err := os.WriteFile(of, ov, 0600); err != nil {
		return "", err
	}
	bin := filepath.Join(r.scratch, key+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if r.spec.race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./"+dir)...)
	cmd.Dir = r.spec.repo
	cmd.Env = goEnv()
	if r.spec.race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.failed[dir] = fmt.Sprintf("building the replay binary: %v\n%s", err, out)
		return "", fmt.Errorf("%s", r.failed[dir])
	}
	r.bins[dir] = bin
	return bin, nil
}

// commands builds the commands, for harnesses that run them.
func (r *replayer) commands() (string, error) {
	if r.cmdBin != "" || r.cmdErr != nil {
		return r.cmdBin, r.cmdErr
	}
	d := filepath.Join(r.scratch, "bin")
	os.Mkdir(d, 0700)
	args := []string{"build"}
	if r.spec.faults {
		of, err := faultOverlay(r.scratch)
		if err != nil {
			r.cmdErr = err
			return "", err
		}
		args = append(args, "-overlay", of)
	}
	cmd := exec.Command("go", append(args, "-o", d+"/", "./cmd/...")...)
	cmd.Dir = r.spec.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.cmdErr = fmt.Errorf("building the commands: %v\n%s", err, out)
		return "", r.cmdErr
	}
	r.cmdBin = d
	return d, nil
}

type replayResult struct {
	status string // ok, fail, panic, assume, timeout, exit, error
	msg    string
	out    string
	obs    []string
}

func (r *replayer) run(harness, dir string, vals map[string]uint64, limit time.Duration) replayResult {
	bin, err := r.build(dir)
	if err != nil {
		return replayResult{status: "error", msg: err.Error()}
	}
	var known []string
	for _, k := range knownFindings(r.spec.verif) {
		if k.prop == r.spec.prop {
			known = append(known, k.key)
		}
	}
	env := []string{"VERIF_KNOWN=" + strings.Join(known, ","), "VERIF_HARNESS=" + harness, "VERIF_TIER=" + flagTier, fmt.Sprintf("VERIF_SEED=%d", flagSeed)}
	if len(r.spec.extra) > 0 {
		b, err := r.commands()
		if err != nil {
			return replayResult{status: "error", msg: err.Error()}
		}
		env = append(env, "VERIF_BIN="+b)
	}
	work, err := os.MkdirTemp(r.scratch, "run")
	if err != nil {
		return replayResult{status: "error", msg: err.Error()}
	}
	defer os.RemoveAll(work)
	vf := filepath.Join(work, "values.json")
	b, _ := json.Marshal(map[string]any{"Values": vals})
	os.WriteFile(vf, b, 0600)
	os.Mkdir(filepath.Join(work, "tmp"), 0700)
	os.Mkdir(filepath.Join(work, "home"), 0700)
	os.Mkdir(filepath.Join(work, "scratch"), 0700)
	env = append(env, "GORACE=halt_on_error=1", "VERIF_REPLAY="+vf, "TMPDIR="+filepath.Join(work, "tmp"), "HOME="+filepath.Join(work, "home"),
		"VERIF_SCRATCH="+filepath.Join(work, "scratch"), "CSEARCHINDEX=")
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0", "-test.v=false")
	cmd.Dir = filepath.Join(work, "scratch")
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		if k == "HOME" || k == "TMPDIR" || k == "CSEARCHINDEX" || strings.HasPrefix(k, "VERIF_") {
			continue
		}
		cmd.Env = append(cmd.Env, e)
	}
	cmd.Env = append(cmd.Env, env...)
	cmd.WaitDelay = 2 * time.Second
	out, err := cmd.CombinedOutput()
	res := replayResult{out: string(out)}
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	okSeen := false
	for sc.Scan() {
		l := sc.Text()
		if i := strings.Index(l, "VERIF-FAIL: "); i >= 0 && res.status == "" {
			res.status, res.msg = "fail", l[i+12:]
		}
		if strings.HasPrefix(l, "WARNING: DATA RACE") && res.status == "" {
			res.status, res.msg = "fail", "data race"
		}
		if strings.HasSuffix(l, "VERIF-ASSUME") && res.status == "" {
			res.status = "assume"
		}
		if strings.HasSuffix(l, "VERIF-OK") {
			okSeen = true
		}
		if strings.HasPrefix(l, "OBS ") {
			res.obs = append(res.obs, l[4:])
		}
		if (strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ")) && res.status == "" {
			res.status, res.msg = "panic", l
		}
	}
	if res.status == "" {
		switch {
		case ctx.Err() != nil:
			res.status = "timeout"
		case okSeen && err == nil:
			res.status = "ok"
		default:
			res.status = "exit"
			res.msg = fmt.Sprint(err)
		}
	}
	return res
}

type runNote struct {
	Harness string
	Note    string
}

// confirm replays a counterexample against the real code, once.
func (rp *replayer) confirm(r *HarnessRun, v *Violation) bool {
	if v.res == nil {
		res := rp.run(r.name, pkgOfHarness(r.name), v.values, 60*time.Second)
		v.res = &res
	}
	return v.res.status == "fail" || v.res.status == "panic" || v.hang && v.res.status == "timeout" ||
		v.msg == msgExit && v.res.status == "exit" && v.res.msg == "exit status 1"
}

func (rp *replayer) confirmAny(r *HarnessRun) bool {
	for _, vs := range r.viol {
		for _, v := range vs {
			if rp.confirm(r, v) {
				r.confirmed = true
			}
		}
	}
	return r.confirmed
}

func finish(spec *loadSpec, base *State, runs []*HarnessRun, t0 time.Time, rp *replayer) int {
	evDir := filepath.Join(spec.verif, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0777)
	exit := 0
	nviol := 0
	var unconfirmed, notes []string
	validated, compared, disagreed := 0, 0, 0
	var samples []string
	for _, r := range runs {
		dir := pkgOfHarness(r.name)
		var msgs []string
		for m := range r.viol {
			msgs = append(msgs, m)
		}
		sort.Strings(msgs)
		for _, m := range msgs {
			confirmed := false
			var last replayResult
			for _, v := range r.viol[m] {
				if flagNoRep {
					break
				}
				ok := rp.confirm(r, v)
				last = *v.res
				if ok {
					confirmed = true
					nviol++
					f := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d.json", r.name, nviol))
					b, _ := json.MarshalIndent(replayFile{Property: spec.prop, Harness: r.name, Pkg: dir, Message: v.msg, Tier: flagTier, Seed: flagSeed, Values: v.values,
						Command: fmt.Sprintf("cd %s && ./check.sh replay %s", spec.verif, f)}, "", " ")
					os.WriteFile(f, append(b, '\n'), 0666)
					fmt.Printf("%s: %s\n", r.name, v.msg)
					if last.msg != "" && last.msg != v.msg {
						fmt.Printf("  replayed against the real code: %s\n", last.msg)
					}
					fmt.Printf("  %s\n", sampleText("inputs", v.values))
					for _, l := range strings.Split(last.out, "\n") {
						if strings.HasPrefix(l, "note: ") {
							fmt.Printf("  %s\n", l)
						}
					}
					fmt.Printf("VIOLATION property=%s replay=%s\n", spec.prop, f)
					exit = 1
					break
				}
			}
			if !confirmed {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s (replay: %s %s)", r.name, m, last.status, last.msg))
				fmt.Fprintf(os.Stderr, "not reproduced: %s: %s: replay %s %s\n", r.name, m, last.status, last.msg)
				if flagVerbose {
					fmt.Fprintln(os.Stderr, last.out)
				}
			}
		}
		if !flagNoRep && exit == 0 {
			for _, s := range r.samples {
				res := rp.run(r.name, dir, s.values, 120*time.Second)
				switch {
				case res.status == "fail":
					// the real code fails on an input the encoding passed: report it, it is real
					nviol++
					f := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d.json", r.name, nviol))
					b, _ := json.MarshalIndent(replayFile{Property: spec.prop, Harness: r.name, Pkg: dir, Message: res.msg, Tier: flagTier, Seed: flagSeed, Values: s.values,
						Command: fmt.Sprintf("cd %s && ./check.sh replay %s", spec.verif, f)}, "", " ")
					os.WriteFile(f, append(b, '\n'), 0666)
					fmt.Printf("%s: %s (found while validating the encoding)\n  %s\n", r.name, res.msg, sampleText("inputs", s.values))
					fmt.Printf("VIOLATION property=%s replay=%s\n", spec.prop, f)
					exit = 1
					disagreed++
				case res.status == "ok":
					validated++
					if len(s.obs) > 0 || len(res.obs) > 0 {
						compared++
						if a, b := strings.Join(s.obs, "\n"), strings.Join(res.obs, "\n"); a != b {
							disagreed++
							notes = append(notes, fmt.Sprintf("%s: encoding and real code disagree on %s", r.name, sampleText("", s.values)))
							fmt.Fprintf(os.Stderr, "DISAGREE %s %s\nengine:\n%s\nnative:\n%s\n", r.name, sampleText("", s.values), a, b)
						}
					}
				case res.status == "error":
					notes = append(notes, r.name+": replay not possible: "+firstLine(res.msg))
					fmt.Fprintln(os.Stderr, res.msg)
				default:
					disagreed++
					notes = append(notes, fmt.Sprintf("%s: real code ended with %s %s on %s", r.name, res.status, res.msg, sampleText("", s.values)))
					fmt.Fprintf(os.Stderr, "DISAGREE %s: real code ended with %s %s on %s\n", r.name, res.status, res.msg, sampleText("", s.values))
					if flagVerbose {
						fmt.Fprintln(os.Stderr, res.out)
					}
				}
			}
		}
		for _, s := range r.samples {
			if len(samples) < 24 {
				samples = append(samples, sampleText(r.name, s.values))
			}
		}
	}
	writeEvidence(spec, runs, t0, evidenceArgs{unconfirmed, notes, samples, validated, compared, disagreed, nviol})
	printKnown(spec)
	return exit
}

func printKnown(spec *loadSpec) {
	for _, k := range knownFindings(spec.verif) {
		if k.prop == spec.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, k.text)
		}
	}
}

type knownFinding struct{ prop, key, text string }

// knownFindings reads the lines "finding: property=<id> key=<key> <what fails>".
func knownFindings(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "key=") {
			r = append(r, knownFinding{f[1][9:], f[2][4:], f[3]})
		}
	}
	return r
}

type evidenceArgs struct {
	unconfirmed, notes, samples                []string
	validated, compared, disagreed, violations int
}

func writeEvidence(spec *loadSpec, runs []*HarnessRun, t0 time.Time, a evidenceArgs) {
	var funcs []string
	fnMu.Lock()
	for f, fn := range fnTab {
		if fn.entered.Load() {
			p := fnPkg(f)
			if (p == modPath || strings.HasPrefix(p, modPath+"/")) && !strings.HasPrefix(p, modPath+"/internal/v") &&
				!strings.HasPrefix(f.Name(), "Verif") && !strings.HasPrefix(f.Name(), "verif") && f.Name() != "init" &&
				!strings.Contains(posOf0(f), "zz_verif_") {
				funcs = append(funcs, strings.ReplaceAll(fn.name, modPath+"/", ""))
			}
		}
	}
	fnMu.Unlock()
	sort.Strings(funcs)
	var hs []map[string]any
	exhaustive := true
	var paths, steps int64
	covers := map[string]int{}
	for _, r := range runs {
		h := map[string]any{"harness": r.name, "paths": r.paths, "asserted": r.asserts.Load(), "seconds": round2(r.wall.Seconds()), "path_ends": r.pathWhy}
		var inc []string
		for k, n := range r.incompl {
			inc = append(inc, fmt.Sprintf("%s (%d)", k, n))
		}
		for k, n := range r.errs {
			inc = append(inc, fmt.Sprintf("not encodable: %s (%d)", k, n))
		}
		sort.Strings(inc)
		if len(inc) > 0 || r.left > 0 {
			exhaustive = false
			h["incomplete"] = inc
			h["paths_left"] = r.left
		}
		if len(r.covers) > 0 {
			h["reached"] = r.covers
		} else if r.paths == 0 {
			h["vacuous"] = true
		}
		for k, n := range r.covers {
			covers[r.name+": "+k] += n
		}
		paths += r.paths
		steps += r.steps
		hs = append(hs, h)
	}
	bounds := ""
	if b, err := os.ReadFile(filepath.Join(spec.verif, "harness", spec.prop, "bounds.txt")); err == nil {
		bounds = strings.TrimSpace(string(b))
	}
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   steps,
		"traces_validated_against_impl": a.validated,
		"samples":                       a.samples,
		"exhaustive":                    exhaustive,
		"explanation":                   "states: execution paths of the real code explored symbolically, each standing for all inputs satisfying its path condition; transitions: SSA instructions executed symbolically; traces_validated_against_impl: explored paths whose model was run against the natively compiled code with the same outcome",
		"bounds":                        bounds,
		"harnesses":                     hs,
		"functions_encoded":             funcs,
		"assertions_checked":            statAsserts.Load(),
		"assertions_needing_proof":      statAssertQ.Load(),
		"solver_queries":                statQueries.Load(),
		"solver_sat":                    statSat.Load(),
		"solver_unsat":                  statUnsat.Load(),
		"solver_unknown":                statUnknown.Load(),
		"solver_seconds":                round2(float64(statSolverNs.Load()) / 1e9),
		"solver_cache_hits":             statCache.Load(),
		"decided_by_byte_domains":       statFast.Load(),
		"decided_by_model_evaluation":   statEvalHits.Load(),
		"cross_checked_queries":         statCross.Load(),
		"observations_compared":         a.compared,
		"disagreements":                 a.disagreed,
	}
	if len(spec.dropped) > 0 {
		cov["harness_files_not_compiling"] = spec.dropped
	}
	if len(a.unconfirmed) > 0 {
		cov["counterexamples_not_reproduced"] = a.unconfirmed
	}
	if len(a.notes) > 0 {
		cov["notes"] = a.notes
	}
	if len(a.samples) == 0 {
		cov["samples"] = []string{"no input-dependent path completed"}
	}
	ev := map[string]any{
		"property": spec.prop, "tier": flagTier, "seed": flagSeed, "level": "model_checking",
		"coverage": cov, "wall_s": round2(time.Since(t0).Seconds()), "violations": a.violations,
		"assumptions": assumptions(spec),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(spec.verif, "evidence", spec.prop+".json"), append(b, '\n'), 0666); err != nil {
		fatal("%v", err)
	}
}

func round2(x float64) float64 { return float64(int64(x*100+0.5)) / 100 }

func assumptions(spec *loadSpec) []string {
	a := []string{
		"bounds: see coverage.bounds; nothing is claimed outside them",
		"the symbolic executor and the SMT solver are trusted; counterexamples are replayed natively before they are reported, and sampled paths are replayed to validate the encoding",
		"standard library functions that reach the kernel are replaced by the models in vos/vos.go; map iteration follows insertion order",
	}
	if b, err := os.ReadFile(filepath.Join(spec.verif, "harness", spec.prop, "assumptions.txt")); err == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if l != "" {
				a = append(a, l)
			}
		}
	}
	return a
}

// replayOne runs a recorded counterexample against the real code.
func replayOne(file, repo, verif string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}
	flagProp, flagTier, flagSeed = f.Property, f.Tier, f.Seed
	spec := newSpec(repo, verif, f.Property)
	spec.load()
	harnessDirs = spec.harnessPkgs
	rp := newReplayer(spec)
	defer rp.close()
	res := rp.run(f.Harness, f.Pkg, f.Values, 120*time.Second)
	fmt.Print(res.out)
	fmt.Printf("%s: %s %s\n", f.Harness, res.status, res.msg)
	if res.status == "fail" || res.status == "panic" || res.status == "timeout" {
		return 1
	}
	return 0
}
