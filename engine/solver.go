package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satRes int

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

type SolverStats struct {
	queries, sat, unsat, unknown, cacheHits atomic.Int64
	nanos                                   atomic.Int64
	small                                   atomic.Int64 // decided by complete domain enumeration of one byte
	asserts                                 atomic.Int64 // assertion obligations sent to the solver
	crossOK, crossBad                       atomic.Int64
}

type qres struct {
	r     satRes
	model []uint64 // by query-local variable order
}

// QueryCache is shared by the workers of one run.
type QueryCache struct {
	mu sync.Mutex
	m  map[string]qres
}

type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stats   *SolverStats
	cache   *QueryCache
	timeout time.Duration
	grace   time.Duration // extra time before a solver that ignores its timeout is ended
	tries   int
	cross   *crossLog
}

// crossLog keeps a sample of queries to be re-decided by other solvers.
type crossLog struct {
	mu    sync.Mutex
	qs    []string
	rs    []satRes
	seen  int64
	max   int
	notes []string
}

func (c *crossLog) add(q string, r satRes) {
	if c == nil || r == rUnknown {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.seen++
	if len(c.qs) < c.max {
		c.qs = append(c.qs, q)
		c.rs = append(c.rs, r)
		return
	}
	if i := int(c.seen*2654435761>>7) % (c.max * 16); i >= 0 && i < c.max {
		c.qs[i], c.rs[i] = q, r
	}
}

func NewSolver(st *SolverStats, qc *QueryCache, cl *crossLog) *Solver {
	return &Solver{bin: "z3", args: []string{"-in", "-smt2"}, stats: st, cache: qc, timeout: 20 * time.Second, grace: 10 * time.Second, tries: 2, cross: cl}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	_, err = io.WriteString(in, fmt.Sprintf("(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout.Milliseconds()))
	return err
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction of cs. On sat the model maps variable index to value.
func (s *Solver) Check(tc *TermCtx, cs []*Term) (satRes, map[int32]uint64) {
	var vars []int32
	for _, c := range cs {
		vars = mergeVars(vars, tc.Vars(c))
	}
	// stable variable numbering makes the text independent of unrelated variables
	local := map[int32]int{}
	for i, v := range vars {
		local[v] = i
	}
	var sb strings.Builder
	for i, v := range vars {
		t := tc.vars[v]
		fmt.Fprintf(&sb, "(declare-const x%d %s)\n", i, sortStr(t.w))
		if t.w > 0 {
			if t.slo > sMin(t.w) {
				fmt.Fprintf(&sb, "(assert (bvsge x%d %s))\n", i, constStr(&Term{w: t.w, val: uint64(t.slo) & maskW(t.w)}))
			}
			if t.shi < sMax(t.w) {
				fmt.Fprintf(&sb, "(assert (bvsle x%d %s))\n", i, constStr(&Term{w: t.w, val: uint64(t.shi) & maskW(t.w)}))
			}
		}
	}
	pr := &printer{sb: &sb, local: local, def: map[int32]int{}}
	for _, c := range cs {
		pr.define(c)
	}
	for _, c := range cs {
		sb.WriteString("(assert ")
		sb.WriteString(pr.ref(c))
		sb.WriteString(")\n")
	}
	text := sb.String()
	s.cache.mu.Lock()
	cr, ok := s.cache.m[text]
	s.cache.mu.Unlock()
	if ok {
		s.stats.cacheHits.Add(1)
	} else {
		t0 := time.Now()
		cr = s.run(text, len(vars), tc, vars)
		s.stats.nanos.Add(int64(time.Since(t0)))
		s.stats.queries.Add(1)
		switch cr.r {
		case rSat:
			s.stats.sat.Add(1)
		case rUnsat:
			s.stats.unsat.Add(1)
		default:
			s.stats.unknown.Add(1)
		}
		s.cross.add(text, cr.r)
		if cr.r != rUnknown {
			s.cache.mu.Lock()
			if len(s.cache.m) < 400000 {
				s.cache.m[text] = cr
			}
			s.cache.mu.Unlock()
		}
	}
	if cr.r != rSat {
		return cr.r, nil
	}
	m := make(map[int32]uint64, len(vars))
	for i, v := range vars {
		m[v] = cr.model[i]
	}
	return rSat, m
}

type printer struct {
	sb    *strings.Builder
	local map[int32]int
	def   map[int32]int
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return "x" + strconv.Itoa(p.local[int32(t.val)])
	}
	return "t" + strconv.Itoa(p.def[t.id])
}

func (p *printer) define(t *Term) {
	if t.op == OConst || t.op == OVar {
		return
	}
	if _, ok := p.def[t.id]; ok {
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			p.define(x)
		}
	}
	n := len(p.def)
	p.def[t.id] = n
	sb := p.sb
	fmt.Fprintf(sb, "(define-fun t%d () %s ", n, sortStr(t.w))
	switch t.op {
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, p.ref(t.a))
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(p.ref(x))
			}
		}
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
}

func (s *Solver) run(text string, nv int, tc *TermCtx, vars []int32) qres {
	for try := 0; try < s.tries; try++ {
		if s.cmd == nil {
			if err := s.start(); err != nil {
				return qres{r: rUnknown}
			}
		}
		r, err := s.runOnce(text, nv)
		if err == nil {
			return r
		}
		s.Close()
	}
	return qres{r: rUnknown}
}

func (s *Solver) runOnce(text string, nv int) (qres, error) {
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n")
	done := make(chan struct{})
	tm := time.AfterFunc(s.timeout+s.grace, func() {
		select {
		case <-done:
		default:
			s.cmd.Process.Kill()
		}
	})
	defer func() { close(done); tm.Stop() }()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return qres{}, err
	}
	line, err := s.line()
	if err != nil {
		return qres{}, err
	}
	res := qres{r: rUnknown}
	switch line {
	case "sat":
		res.r = rSat
		res.model = make([]uint64, nv)
		if nv > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for i := 0; i < nv; i++ {
				fmt.Fprintf(&q, "x%d ", i)
			}
			q.WriteString("))\n")
			if _, err := io.WriteString(s.in, q.String()); err != nil {
				return qres{}, err
			}
			txt, err := s.sexp()
			if err != nil {
				return qres{}, err
			}
			if err := parseModel(txt, res.model); err != nil {
				return qres{}, err
			}
		}
	case "unsat":
		res.r = rUnsat
	case "unknown", "timeout":
	default:
		return qres{}, fmt.Errorf("solver said %q", line)
	}
	if _, err := io.WriteString(s.in, "(pop 1)\n"); err != nil {
		return qres{}, err
	}
	return res, nil
}

func (s *Solver) line() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) sexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		for i := 0; i < len(l); i++ {
			if l[i] == '(' {
				depth++
			} else if l[i] == ')' {
				depth--
			}
		}
		if depth <= 0 {
			return sb.String(), nil
		}
	}
}

// parseModel reads ((x0 #b..) (x1 true) ...).
func parseModel(txt string, out []uint64) error {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	i := 0
	for i < len(f) {
		if len(f[i]) < 2 || f[i][0] != 'x' {
			return fmt.Errorf("model parse %q", f[i])
		}
		n, err := strconv.Atoi(f[i][1:])
		if err != nil || n >= len(out) || i+1 >= len(f) {
			return fmt.Errorf("model parse %q", txt)
		}
		v := f[i+1]
		i += 2
		switch {
		case v == "true":
			out[n] = 1
		case v == "false":
			out[n] = 0
		case strings.HasPrefix(v, "#x"):
			out[n], err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			out[n], err = strconv.ParseUint(v[2:], 2, 64)
		case v == "_": // (_ bv5 8)
			if i+1 >= len(f) {
				return fmt.Errorf("model parse %q", txt)
			}
			out[n], err = strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			i += 2
		default:
			return fmt.Errorf("model value %q", v)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// crossCheck re-decides a sample of the run's queries with other solvers.
func (c *crossLog) crossCheck(st *SolverStats, deadline time.Time) []string {
	var notes []string
	total := time.Until(deadline)
	for _, sv := range [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--lang", "smt2", "--incremental"}} {
		if _, err := exec.LookPath(sv[0]); err != nil {
			continue
		}
		n, bad := 0, 0
		deadline := time.Now().Add(total / 2)
		for lo := 0; lo < len(c.qs) && time.Now().Before(deadline); lo += 10 {
			hi := min(lo+10, len(c.qs))
			var sb strings.Builder
			sb.WriteString("(set-logic QF_BV)\n")
			for _, q := range c.qs[lo:hi] {
				sb.WriteString("(push 1)\n" + q + "(check-sat)\n(pop 1)\n")
			}
			cmd := exec.Command("timeout", append([]string{fmt.Sprintf("%.1f", max(0.5, time.Until(deadline).Seconds()))}, sv...)...)
			cmd.Stdin = strings.NewReader(sb.String())
			out, _ := cmd.Output()
			var rs []string
			for _, l := range strings.Fields(string(out)) {
				rs = append(rs, l)
			}
			if strings.Contains(string(out), "error") {
				notes = append(notes, sv[0]+": error output, batch ignored")
				continue
			}
			for i := range rs {
				if lo+i >= hi {
					break
				}
				want := map[satRes]string{rSat: "sat", rUnsat: "unsat"}[c.rs[lo+i]]
				if rs[i] == want {
					n++
					st.crossOK.Add(1)
				} else if rs[i] == "sat" || rs[i] == "unsat" {
					bad++
					st.crossBad.Add(1)
				}
			}
		}
		notes = append(notes, fmt.Sprintf("%s agreed with z3 on %d queries, disagreed on %d", sv[0], n, bad))
	}
	sort.Strings(notes)
	return notes
}
