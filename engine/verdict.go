package main

import (
	"fmt"
	"strings"
	"sync"
	"time"
)

// The closing verdict of a harness. Every explored path leaves a summary: the
// ranges of its symbolic variables (inputs, faults, schedule choices), the
// conditions it took and the assertions it met. After the exploration the
// solver is asked for an assignment of all these variables, within their
// ranges and the assumptions, that either violates an assertion or is followed
// by none of the paths. "unsat" is the verdict: the assertions hold for every
// value, and no value was left out.

const (
	evDom    = iota // range of a variable
	evAssume        // assumption on the inputs
	evAssert        // assertion
	evBranch        // condition taken; the alternatives are other paths
)

type ev struct {
	kind uint8
	t    *Term
	alts []*pathRec
}

type pathRec struct {
	parent *pathRec
	at     int   // index of the branch event in the parent
	cond   *Term // condition of this alternative
	evs    []ev
	state  uint8 // 0: not explored, 1: explored, 2: explored, not recorded, 3: no complete answer
	size   int
	cut    bool
}

func (p *Path) event(kind uint8, t *Term, alts []*pathRec) {
	if p.rec == nil || p.replaying() {
		return
	}
	p.rec.evs = append(p.rec.evs, ev{kind, t, alts})
}

// alt announces an alternative of the branch that is about to be recorded.
func (p *Path) alt(cond *Term) *pathRec {
	if p.rec == nil {
		return nil
	}
	return &pathRec{parent: p.rec, at: len(p.rec.evs), cond: cond}
}

type verdict struct {
	queries, unsat, sat, unknown, split, nodes, open, paths, skipped int64
	wall                                                             float64
	gaps                                                             []string
}

const chunkNodes = 3000

// sizes decides where the tree is cut into separate queries.
func (r *pathRec) sizes(roots *[]*pathRec, limit int, st *verdict) {
	r.size = len(r.evs) + 1
	if st != nil {
		switch r.state {
		case 0:
			st.open++
		case 1:
			st.paths++
		default:
			st.skipped++
		}
	}
	for i := range r.evs {
		for _, a := range r.evs[i].alts {
			if a == nil || a.cut {
				continue
			}
			a.sizes(roots, limit, st)
			if r.size+a.size > limit {
				a.cut = true
				*roots = append(*roots, a)
				continue
			}
			r.size += a.size
		}
	}
}

type tprinter struct {
	sb   strings.Builder
	vars map[string]bool
	def  map[*Term]string
	n    int
}

func (p *tprinter) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		n := fmt.Sprintf("v%d_%d", t.val, t.w)
		if !p.vars[n] {
			p.vars[n] = true
			fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", n, sortStr(t.w))
		}
		return n
	}
	if s, ok := p.def[t]; ok {
		return s
	}
	var a [3]string
	for i, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			a[i] = p.ref(x)
		}
	}
	n := fmt.Sprintf("t%d", p.n)
	p.n++
	p.def[t] = n
	fmt.Fprintf(&p.sb, "(define-fun %s () %s ", n, sortStr(t.w))
	switch t.op {
	case OZext:
		fmt.Fprintf(&p.sb, "((_ zero_extend %d) %s)", t.w-t.a.w, a[0])
	case OSext:
		fmt.Fprintf(&p.sb, "((_ sign_extend %d) %s)", t.w-t.a.w, a[0])
	case OExtract:
		fmt.Fprintf(&p.sb, "((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, a[0])
	default:
		p.sb.WriteByte('(')
		p.sb.WriteString(opNames[t.op])
		for i, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				p.sb.WriteByte(' ')
				p.sb.WriteString(a[i])
			}
		}
		p.sb.WriteByte(')')
	}
	p.sb.WriteString(")\n")
	return n
}

func (p *tprinter) fun(body string) string {
	n := fmt.Sprintf("t%d", p.n)
	p.n++
	fmt.Fprintf(&p.sb, "(define-fun %s () Bool %s)\n", n, body)
	return n
}

// dom is the range of a variable.
func (p *tprinter) dom(t *Term) string {
	x := p.ref(t)
	if t.w == 0 {
		return "true"
	}
	var c []string
	if t.slo > sMin(t.w) {
		c = append(c, fmt.Sprintf("(bvsge %s %s)", x, constStr(&Term{w: t.w, val: uint64(t.slo) & maskW(t.w)})))
	}
	if t.shi < sMax(t.w) {
		c = append(c, fmt.Sprintf("(bvsle %s %s)", x, constStr(&Term{w: t.w, val: uint64(t.shi) & maskW(t.w)})))
	}
	if len(c) == 0 {
		return "true"
	}
	return "(and " + strings.Join(c, " ") + " true)"
}

func (p *tprinter) cond(e *ev) string {
	if e.kind == evDom {
		return p.dom(e.t)
	}
	return p.ref(e.t)
}

// cov is "this path or one of its alternatives follows the assignment, without a violated assertion".
func (p *tprinter) cov(r *pathRec, nodes *int64) string {
	*nodes += int64(len(r.evs)) + 1
	f := "true"
	for i := len(r.evs) - 1; i >= 0; i-- {
		e := &r.evs[i]
		c := p.cond(e)
		switch e.kind {
		case evDom, evAssume:
			if f != "true" && c != "true" {
				f = p.fun("(=> " + c + " " + f + ")")
			}
		case evAssert:
			f = p.fun("(and " + c + " " + f + ")")
		case evBranch:
			parts := []string{"(and " + c + " " + f + ")"}
			for _, a := range e.alts {
				if a == nil {
					continue
				}
				s := "true"
				if !a.cut && a.state == 1 {
					s = p.cov(a, nodes)
				}
				parts = append(parts, "(and "+p.ref(a.cond)+" "+s+")")
			}
			f = p.fun("(or false " + strings.Join(parts, " ") + ")")
		}
	}
	return f
}

// chunk is the query text for the part of the tree below root.
func chunk(root *pathRec, nodes *int64) string {
	p := &tprinter{vars: map[string]bool{}, def: map[*Term]string{}}
	var pre []string
	for r := root; r.parent != nil; r = r.parent {
		pre = append(pre, p.ref(r.cond))
		for i := 0; i < r.at; i++ {
			pre = append(pre, p.cond(&r.parent.evs[i]))
		}
	}
	c := p.cov(root, nodes)
	for _, x := range pre {
		fmt.Fprintf(&p.sb, "(assert %s)\n", x)
	}
	fmt.Fprintf(&p.sb, "(assert (not %s))\n", c)
	return p.sb.String()
}

// close asks for the verdict. It stops at the deadline; what is left unasked is reported.
func (r *Run) close(deadline time.Time) {
	v := &r.verdict
	if r.root == nil || len(r.viol) > 0 {
		return
	}
	t0 := time.Now()
	roots := []*pathRec{r.root}
	r.root.sizes(&roots, chunkNodes, v)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	busy := 0
	limit := time.Duration(1500) * time.Millisecond
	if r.thorough {
		limit = 15 * time.Second
	}
	var wg sync.WaitGroup
	for w := 0; w < r.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := NewSolver(&r.stats, nil, nil)
			s.bin = "z3-new" // much faster than z3 on these long queries
			s.timeout, s.grace, s.tries = limit, limit/2, 1
			defer s.Close()
			mu.Lock()
			defer mu.Unlock()
			for {
				for len(roots) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(roots) == 0 {
					return
				}
				root := roots[len(roots)-1]
				roots = roots[:len(roots)-1]
				if root.state != 1 {
					continue
				}
				if time.Until(deadline) < limit/5 {
					v.unknown++
					continue
				}
				busy++
				mu.Unlock()
				var n int64
				text := chunk(root, &n)
				q0 := time.Now()
				res := s.run(text, 0, nil, nil)
				r.stats.nanos.Add(int64(time.Since(q0)))
				r.stats.queries.Add(1)
				mu.Lock()
				busy--
				v.queries++
				switch res.r {
				case rUnsat:
					v.unsat++
					v.nodes += n
					r.stats.unsat.Add(1)
				case rSat:
					v.sat++
					r.stats.sat.Add(1)
					if len(v.gaps) < 3 {
						v.gaps = append(v.gaps, text)
					}
				default:
					r.stats.unknown.Add(1)
					var more []*pathRec
					if n > 20 {
						root.sizes(&more, int(n/6)+1, nil)
					}
					if len(more) == 0 {
						v.unknown++
					} else {
						v.split++
						roots = append(roots, more...)
						roots = append(roots, root)
					}
				}
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	v.wall = time.Since(t0).Seconds()
	r.root = nil
}

func (v *verdict) text() string {
	if v.queries == 0 {
		return "not asked"
	}
	s := fmt.Sprintf("%d of %d queries unsat over %d nodes of %d paths", v.unsat, v.queries-v.split, v.nodes, v.paths)
	if v.unknown > 0 {
		s += fmt.Sprintf(", %d parts not decided", v.unknown)
	}
	if v.sat > 0 {
		s += fmt.Sprintf(", %d GAPS", v.sat)
	}
	if v.open+v.skipped > 0 {
		s += fmt.Sprintf(", %d alternatives not explored, %d not summarised", v.open, v.skipped)
	}
	return s
}

func (v *verdict) report() map[string]any {
	return map[string]any{"queries": v.queries, "unsat": v.unsat, "sat": v.sat, "split_after_timeout": v.split, "nodes": v.nodes, "paths": v.paths,
		"alternatives_not_explored": v.open, "paths_not_summarised": v.skipped, "parts_not_decided": v.unknown, "wall_s": v.wall}
}
