package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type HarnessRun struct {
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*State
	active   int
	halt     atomic.Bool
	timedOut bool
	deadline time.Time
	incompl  map[string]int
	viol     map[string][]*Violation
	violN    int
	covers   map[string]int
	paths    int64
	pathWhy  map[string]int
	steps    int64
	maxSteps int64
	samples  []sampleRec
	seen     int
	rng      uint64
	t0       time.Time
	wall     time.Duration
	errs     map[string]int
	errStack map[string]string
	maxViol  int
	asserts  atomic.Int64
	left     int

	early     bool // stop soon after the first counterexample
	cut       bool // stopped for that reason
	confirmed bool
}

type Violation struct {
	harness string
	msg     string
	inputs  []inputRec
	values  map[string]uint64
	where   string
	stack   string
	logs    []string
	hang    bool
	res     *replayResult
}

func (r *HarnessRun) stopped() bool { return r.halt.Load() }

func (r *HarnessRun) push(s *State) {
	r.mu.Lock()
	r.queue = append(r.queue, s)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *HarnessRun) incomplete(why string) {
	r.mu.Lock()
	r.incompl[why]++
	r.mu.Unlock()
}

func (r *HarnessRun) cover(n string) {
	r.mu.Lock()
	r.covers[n]++
	r.mu.Unlock()
}

func (r *HarnessRun) errorAt(st *State, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := msg + " at " + st.where()
	r.errs[k]++
	if r.errStack[k] == "" {
		r.errStack[k] = st.stack()
	}
}

func inputValues(inputs []inputRec, m Model) map[string]uint64 {
	vals := map[string]uint64{}
	for _, in := range inputs {
		vals[in.name] = in.t.eval(m)
	}
	return vals
}

func (r *HarnessRun) violation(st *State, msg string, model Model, hang bool) {
	r.violationS(st, msg, model, hang, st.stack())
}

func (r *HarnessRun) violationS(st *State, msg string, model Model, hang bool, stack string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violN++
	if r.violN == 1 && r.early {
		time.AfterFunc(3*time.Second, func() {
			r.halt.Store(true)
			r.cond.Broadcast()
		})
	}
	if len(r.viol[msg]) >= 3 {
		return
	}
	r.viol[msg] = append(r.viol[msg], &Violation{harness: r.name, msg: msg, values: inputValues(st.inputs, model), where: st.where(), stack: stack, logs: st.logs, hang: hang})
	if len(r.viol) >= r.maxViol {
		r.halt.Store(true)
		r.cond.Broadcast()
	}
}

func (r *HarnessRun) violationMsg(st *State, msg, stack string) {
	r.violationS(st, msg, st.model, false, stack)
}

func (r *HarnessRun) violationHang(st *State) {
	r.violationS(st, fmt.Sprintf("no termination within %d steps", r.maxSteps), st.model, true, st.stack())
}

// runHarness explores fn from base with n workers.
func runHarness(base *State, fn *Fn, workers []*Worker, budget time.Duration, maxSteps int64, early bool) *HarnessRun {
	r := &HarnessRun{name: fn.ssa.Name(), incompl: map[string]int{}, viol: map[string][]*Violation{}, covers: map[string]int{},
		pathWhy: map[string]int{}, errs: map[string]int{}, errStack: map[string]string{}, maxViol: 4, maxSteps: maxSteps, t0: time.Now(), early: early}
	r.cond = sync.NewCond(&r.mu)
	r.deadline = r.t0.Add(budget)
	st := base.clone()
	st.run = r
	st.steps = 0
	st.pushFrame(fn, nil, nil, -1, fkNormal)
	r.queue = []*State{st}
	timer := time.AfterFunc(budget, func() {
		r.mu.Lock()
		r.timedOut = true
		r.mu.Unlock()
		r.halt.Store(true)
		for _, w := range workers {
			w.solver.interrupt()
			w.solver2.interrupt()
		}
		r.cond.Broadcast()
	})
	defer timer.Stop()
	memDone := make(chan bool)
	go func() {
		for {
			select {
			case <-memDone:
				return
			case <-time.After(500 * time.Millisecond):
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 20<<30 {
					r.incomplete("memory limit reached")
					r.halt.Store(true)
					r.cond.Broadcast()
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				r.mu.Lock()
				for len(r.queue) == 0 && r.active > 0 && !r.halt.Load() {
					r.cond.Wait()
				}
				if len(r.queue) == 0 || r.halt.Load() {
					r.mu.Unlock()
					r.cond.Broadcast()
					return
				}
				s := r.queue[len(r.queue)-1]
				r.queue[len(r.queue)-1] = nil
				r.queue = r.queue[:len(r.queue)-1]
				r.active++
				r.mu.Unlock()
				s.w = w
				w.st = s
				s0 := s.steps
				why := s.runPath()
				r.mu.Lock()
				r.active--
				r.steps += s.steps - s0
				r.pathWhy[why]++
				if why != "assume" && why != "stopped" {
					r.paths++
				}
				if why == "done" {
					r.sample(s)
				}
				if len(r.queue) == 0 && r.active == 0 {
					r.cond.Broadcast()
				}
				r.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	close(memDone)
	r.mu.Lock()
	r.left = len(r.queue)
	r.cut = early && r.violN > 0 && r.halt.Load()
	r.mu.Unlock()
	if r.halt.Load() {
		for _, w := range workers {
			w.solver.stop() // may have been interrupted
		}
	}
	if r.cut {
		r.incompl["stopped at a counterexample"]++
	}
	if r.timedOut {
		r.incompl["time budget reached"]++
	}
	r.wall = time.Since(r.t0)
	statPaths.Add(r.paths)
	statSteps.Add(r.steps)
	return r
}

type sampleRec struct {
	values map[string]uint64
	obs    []string
}

// sample keeps a random choice of the completed paths.
func (r *HarnessRun) sample(s *State) {
	n := 3
	if flagTier == "thorough" {
		n = 8
	}
	r.seen++
	r.rng = r.rng*6364136223846793005 + 1442695040888963407 + uint64(flagSeed)
	k := len(r.samples)
	if k >= n {
		k = int(r.rng >> 33 % uint64(r.seen))
		if k >= n {
			return
		}
	} else {
		r.samples = append(r.samples, sampleRec{})
	}
	rec := sampleRec{values: inputValues(s.inputs, s.model)}
	for _, o := range s.obs {
		rec.obs = append(rec.obs, fmt.Sprintf("%q", strBytesUnder(o, s.model)))
	}
	r.samples[k] = rec
}

func strBytesUnder(s *Str, m Model) []byte {
	b := []byte(s.s)
	for i, t := range s.t {
		if t != nil {
			b[i] = byte(t.eval(m))
		}
	}
	return b
}

func sampleText(name string, v map[string]uint64) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		ia, ib := strings.LastIndexByte(a, '#'), strings.LastIndexByte(b, '#')
		if a[:ia] != b[:ib] {
			return a[:ia] < b[:ib]
		}
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	var sb strings.Builder
	sb.WriteString(name + ":")
	for i, k := range ks {
		if i >= 40 {
			sb.WriteString(" …")
			break
		}
		fmt.Fprintf(&sb, " %s=%d", k, v[k])
	}
	return sb.String()
}
