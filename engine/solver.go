package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Solver is one SMT solver process.
type Solver struct {
	cmd   string
	p     *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	n     int
	nvars int
	limit time.Duration
	proc  atomic.Pointer[os.Process]
}

var (
	statQueries   atomic.Int64 // solver queries sent to the SMT solver
	statSat       atomic.Int64
	statUnsat     atomic.Int64
	statUnknown   atomic.Int64
	statFast      atomic.Int64 // decided by byte-domain propagation
	statCache     atomic.Int64
	statSolverNs  atomic.Int64
	statCross     atomic.Int64
	statForks     atomic.Int64
	statPaths     atomic.Int64
	statSteps     atomic.Int64
	statAsserts   atomic.Int64
	statAssertQ   atomic.Int64
	statMerges    atomic.Int64
	statEvalHits  atomic.Int64
	flagCross     bool
	flagSolver    string
	flagCrossTool = "cvc5"
)

func solverArgs(cmd string) []string {
	if strings.Contains(cmd, "cvc5") {
		return []string{"--incremental", "--lang=smt2", "--produce-models"}
	}
	return []string{"-in", "-smt2"}
}

func (s *Solver) start() error {
	s.p = exec.Command(s.cmd, solverArgs(s.cmd)...)
	in, err := s.p.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.p.StdoutPipe()
	if err != nil {
		return err
	}
	s.p.Stderr = nil
	if err := s.p.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.nvars = 0
	pre := "(set-option :produce-models true)\n(set-logic QF_BV)\n"
	if s.cmd == "z3" || s.cmd == "z3-new" {
		pre += fmt.Sprintf("(set-option :timeout %d)\n", s.limit.Milliseconds())
	}
	_, err = io.WriteString(s.in, pre)
	return err
}

func (s *Solver) stop() {
	if s.p != nil {
		s.in.Close()
		s.p.Process.Kill()
		s.p.Wait()
		s.p = nil
	}
}

func NewSolver(cmd string) *Solver {
	return &Solver{cmd: cmd, limit: solverLimit()}
}

func vname(i uint32) string { return fmt.Sprintf("v%d", i) }

func lit(w uint8, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

// emit writes definitions for the nodes of t (shared subterms once) and returns its name.
func emit(sb *strings.Builder, t *Term, done map[uint32]string) string {
	switch t.op {
	case OpConst:
		return lit(t.w, t.k)
	case OpVar:
		return vname(uint32(t.k))
	}
	if n, ok := done[t.id]; ok {
		return n
	}
	var a, b, c string
	if t.a != nil {
		a = emit(sb, t.a, done)
	}
	if t.b != nil {
		b = emit(sb, t.b, done)
	}
	if t.c != nil {
		c = emit(sb, t.c, done)
	}
	sort := "Bool"
	if t.w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	var e string
	switch t.op {
	case OpZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
	case OpSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, a)
	default:
		e = "(" + opNames[t.op] + " " + a
		if b != "" {
			e += " " + b
		}
		if c != "" {
			e += " " + c
		}
		e += ")"
	}
	name := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", name, sort, e)
	done[t.id] = name
	return name
}

type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

// check decides the conjunction of cs. On sat, vals holds values for vars.
func (s *Solver) check(cs []*Term, vars []uint32) (res satResult, vals []uint64) {
	t0 := time.Now()
	defer func() { statSolverNs.Add(int64(time.Since(t0))) }()
	if s.p != nil && s.n >= 4000 {
		s.stop()
		s.n = 0
	}
	if s.p == nil {
		if err := s.start(); err != nil {
			panic(engineErr("cannot start %s: %v", s.cmd, err))
		}
	}
	s.n++
	statQueries.Add(1)
	proc := s.p.Process
	s.proc.Store(proc)
	defer s.proc.Store(nil)
	killer := time.AfterFunc(s.limit+5*time.Second, func() { proc.Kill() })
	defer killer.Stop()
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	for _, v := range vars {
		w := varWidth(v)
		if w == 0 {
			fmt.Fprintf(&sb, "(declare-fun %s () Bool)\n", vname(v))
		} else {
			fmt.Fprintf(&sb, "(declare-fun %s () (_ BitVec %d))\n", vname(v), w)
		}
	}
	done := map[uint32]string{}
	for _, c := range cs {
		n := emit(&sb, c, done)
		fmt.Fprintf(&sb, "(assert %s)\n", n)
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.stop()
		return resUnknown, nil
	}
	line, ok := s.readLine()
	if !ok {
		s.stop()
		statUnknown.Add(1)
		return resUnknown, nil
	}
	switch line {
	case "unsat":
		res = resUnsat
		statUnsat.Add(1)
	case "sat":
		res = resSat
		statSat.Add(1)
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(vname(v) + " ")
		}
		sb.WriteString("))\n")
		io.WriteString(s.in, sb.String())
		txt, ok := s.readSexp()
		if !ok {
			s.stop()
			statUnknown.Add(1)
			return resUnknown, nil
		}
		m := parseValues(txt)
		for _, v := range vars {
			vals = append(vals, m[vname(v)])
		}
	default:
		statUnknown.Add(1)
		if strings.Contains(line, "error") {
			s.stop()
			return resUnknown, nil
		}
		res = resUnknown
	}
	io.WriteString(s.in, "(pop 1)\n")
	return
}

func (s *Solver) readLine() (string, bool) {
	type r struct {
		s   string
		err error
	}
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", false
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, true
		}
	}
}

func (s *Solver) readSexp() (string, bool) {
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", false
		}
		sb.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return sb.String(), true
		}
	}
}

func parseValues(txt string) map[string]uint64 {
	m := map[string]uint64{}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	for i := 0; i+1 < len(toks); i++ {
		if strings.HasPrefix(toks[i], "v") {
			name := toks[i]
			val := toks[i+1]
			var n uint64
			switch {
			case val == "true":
				n = 1
			case val == "false":
				n = 0
			case strings.HasPrefix(val, "#x"):
				fmt.Sscanf(val[2:], "%x", &n)
			case strings.HasPrefix(val, "#b"):
				for _, c := range val[2:] {
					n = n<<1 | uint64(c-'0')
				}
			case val == "(" && i+3 < len(toks) && toks[i+2] == "_":
				fmt.Sscanf(toks[i+3], "bv%d", &n)
			}
			m[name] = n
		}
	}
	return m
}

// ---- query cache

type qres struct {
	res  satResult
	vals []uint64
}

var qcMu sync.Mutex
var qcache = map[string]qres{}

func qkey(cs []*Term) string {
	ids := make([]uint32, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	b := make([]byte, 0, 4*len(ids))
	for _, id := range ids {
		b = append(b, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	return string(b)
}

// slice returns the constraints of pc connected to cond through shared variables, and the variables.
func sliceConstraints(pc []*Term, cond *Term) (cs []*Term, vars []uint32) {
	in := map[uint32]bool{}
	for _, v := range cond.vars {
		in[v] = true
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			cs = append(cs, c)
			for _, v := range c.vars {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
		}
	}
	for v := range in {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	return
}

// feasible decides pc ∧ cond; model is a model of pc.
func (w *Worker) feasible(pc []*Term, model Model, cond *Term) (satResult, Model) {
	cs, vars := sliceConstraints(pc, cond)
	cs = append(cs, cond)
	key := qkey(cs)
	qcMu.Lock()
	r, ok := qcache[key]
	qcMu.Unlock()
	if ok {
		statCache.Add(1)
	} else {
		if w.st != nil && w.st.run != nil && w.st.run.stopped() {
			panic(pathEnd{"stopped"})
		}
		tq := time.Now()
		r.res, r.vals = w.solver.check(cs, vars)
		if flagSlow > 0 && time.Since(tq) > flagSlow && slowN.Add(1) < 12 {
			where := "?"
			if w.st != nil {
				where = w.st.where()
			}
			fmt.Printf("slow query %.2fs %v at %s: %d constraints, %d vars: %.400s\n", time.Since(tq).Seconds(), r.res, where, len(cs), len(vars), cond.String())
		}
		if flagCross && r.res != resUnknown {
			if w.solver2 == nil {
				w.solver2 = NewSolver(flagCrossTool)
			}
			r2, _ := w.solver2.check(cs, vars)
			statCross.Add(1)
			if r2 != resUnknown && r2 != r.res {
				panic(engineErr("solvers disagree: %v %v", r.res, r2))
			}
		}
		if r.res == resSat {
			// the encoding and the evaluator must agree
			m := model
			for i, v := range vars {
				m = m.with(v, r.vals[i])
			}
			for _, c := range cs {
				if c.eval(m) == 0 {
					panic(engineErr("solver model does not satisfy constraint %v", c))
				}
			}
		}
		if r.res != resUnknown {
			qcMu.Lock()
			qcache[key] = r
			qcMu.Unlock()
		}
	}
	if r.res == resSat {
		n := len(model)
		if k := int(vars[len(vars)-1]) + 1; k > n {
			n = k
		}
		m := make(Model, n)
		copy(m, model)
		for i, v := range vars {
			m[v] = r.vals[i]
		}
		return resSat, m
	}
	return r.res, nil
}

func solverLimit() time.Duration {
	if flagTier == "thorough" {
		return 60 * time.Second
	}
	return 15 * time.Second
}

// interrupt ends the query in progress, if any.
func (s *Solver) interrupt() {
	if s == nil {
		return
	}
	if p := s.proc.Load(); p != nil {
		p.Kill()
	}
}

func defaultSolver() string {
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}

var slowN atomic.Int64
