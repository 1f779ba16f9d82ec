package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow signals inside the engine

type endKind int

const (
	endPruned endKind = iota // assumption failed
	endUnsupported
	endLimit
	endViolation
	endKilled
	endEngine
	endStop // harness asked to stop the path (vf.Stop)
)

type pathEnd struct {
	kind endKind
	msg  string
}

func (p pathEnd) Error() string { return p.msg }

func unsupported(msg string) pathEnd { return pathEnd{endUnsupported, msg} }
func engineErr(f string, a ...any) pathEnd {
	return pathEnd{endEngine, fmt.Sprintf(f, a...)}
}

// targetPanic is a Go panic of the interpreted program.
type targetPanicT struct {
	v   Value
	msg string
	pos string
}

// ---- path state

type dom [4]uint64

func (d *dom) has(v uint64) bool { return d[v>>6]>>(v&63)&1 != 0 }
func (d *dom) empty() bool       { return d[0]|d[1]|d[2]|d[3] == 0 }

type varInfo struct {
	dom   *dom
	pcs   []*Term // constraints mentioning the variable
	multi int     // how many of them mention other variables too
}

type Item struct {
	prefix []uint64
	model  []uint64
	rec    *pathRec
}

type Input struct {
	Name string
	Kind string // int, bool, str, choice, sched
	v    Value
	off  int64
	sgn  bool
}

type Violation struct {
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Kind     string            `json:"kind"` // assert, panic, deadlock
	Detail   string            `json:"detail"`
	Inputs   map[string]string `json:"inputs"` // name#k -> encoded value
	Order    []string          `json:"order"`
	Sched    int               `json:"schedule_choices"`
	Prefix   []uint64          `json:"prefix"`
	Log      []string          `json:"log,omitempty"`
	Obs      []string          `json:"observed,omitempty"`
	Replayed string            `json:"replayed"`
	model    []uint64
	racy     map[ssa.Instruction]bool
}

type undoEnt struct {
	p   *Value
	old Value
	f   func()
}

type Path struct {
	in     *Interp
	prefix []uint64
	pos    int
	dec    []uint64
	asg    []uint64
	pcs    []*Term
	pcSet  map[*Term]bool
	vi     []varInfo

	inputs      []Input
	nameCnt     map[string]int
	covers      map[string]bool
	observed    []obs
	undo        []undoEnt
	steps       int64
	nSched      int
	preempt     int
	maxPreempt  int
	mapOrderMax int
	free        bool
	delays      int // remaining deviations from the fair schedule, -1: unlimited
	log         []string
	glog        []Value // captured log messages
	asserts     int
	stat        map[string]int64
	merge       *mergeCtx
	rec         *pathRec
	epoch       int64
	unknown     bool
	races       bool // unordered accesses are violations
}

type obs struct {
	name string
	v    Value
}

func (p *Path) newVar(w uint8, name string, lo, hi int64) *Term {
	t := p.in.tc.Var(w, name, lo, hi)
	i := int(t.val)
	var def uint64
	if w == 8 {
		def = 'a'
	}
	if w > 0 {
		if s := sext64(def, w); s < lo || s > hi {
			def = uint64(lo) & maskW(w)
		}
	}
	for len(p.asg) <= i {
		p.asg = append(p.asg, def)
	}
	v := varInfo{}
	if w <= 8 {
		d := &dom{}
		if w == 0 {
			d[0] = 3
		} else {
			for x := lo; x <= hi; x++ {
				u := uint64(x) & maskW(w)
				d[u>>6] |= 1 << (u & 63)
			}
		}
		v.dom = d
	}
	p.vi = append(p.vi, v)
	p.event(evDom, t, nil)
	return t
}

func (p *Path) evalT(t *Term) uint64 { return p.in.tc.Eval(t, p.asg) }

func (p *Path) addPC(t *Term) {
	if t.isTrue() || p.pcSet[t] {
		return
	}
	if t.op == OAnd {
		p.addPC(t.a)
		p.addPC(t.b)
		return
	}
	p.pcSet[t] = true
	p.pcs = append(p.pcs, t)
	vs := p.in.tc.Vars(t)
	for _, v := range vs {
		p.vi[v].pcs = append(p.vi[v].pcs, t)
		if len(vs) > 1 {
			p.vi[v].multi++
		}
	}
	if len(vs) == 1 {
		if d := p.vi[vs[0]].dom; d != nil {
			p.filterDom(d, vs[0], t)
		}
	}
}

func (p *Path) filterDom(d *dom, v int32, t *Term) {
	old := p.asg[v]
	for i := range d {
		w := d[i]
		for w != 0 {
			b := w & -w
			w ^= b
			x := uint64(i)<<6 + uint64(tz(b))
			p.asg[v] = x
			if p.evalT(t) == 0 {
				d[i] &^= b
			}
		}
	}
	p.asg[v] = old
}

func tz(b uint64) int {
	n := 0
	for b&1 == 0 {
		b >>= 1
		n++
	}
	return n
}

// feasible asks whether PC and t can hold together. On sat the returned
// assignment satisfies PC and t.
func (p *Path) feasible(t *Term) (satRes, []uint64) {
	if t.isFalse() {
		return rUnsat, nil
	}
	if t.isTrue() {
		return rSat, p.asg
	}
	if p.pcSet[p.in.tc.Not(t)] {
		return rUnsat, nil
	}
	if p.evalT(t) != 0 {
		return rSat, p.asg
	}
	vs := p.in.tc.Vars(t)
	if len(vs) == 1 && p.vi[vs[0]].dom != nil {
		v := vs[0]
		d := *p.vi[v].dom
		p.filterDom(&d, v, t)
		if d.empty() {
			// no value of the byte is left; the solver decides it all the same
			p.in.run.stats.small.Add(1)
			if r, m := p.solve(t); r != rUnknown {
				return r, m
			}
			return rUnsat, nil
		}
		if p.vi[v].multi == 0 {
			m := append([]uint64(nil), p.asg...)
			m[v] = p.pick(&d)
			p.in.run.stats.small.Add(1)
			return rSat, m
		}
	}
	if m := p.localSearch(t, vs); m != nil {
		p.in.run.stats.small.Add(1)
		return rSat, m
	}
	return p.solve(t)
}

func (p *Path) pick(d *dom) uint64 {
	// prefer printable
	for x := uint64('a'); x <= 'z'; x++ {
		if d.has(x) {
			return x
		}
	}
	for x := uint64(0x21); x < 0x7f; x++ {
		if d.has(x) {
			return x
		}
	}
	for x := uint64(0); x < 256; x++ {
		if d.has(x) {
			return x
		}
	}
	return 0
}

func (p *Path) localSearch(t *Term, vs []int32) []uint64 {
	budget := 1500
	for _, v := range vs {
		d := p.vi[v].dom
		if d == nil {
			continue
		}
		old := p.asg[v]
		for x := uint64(0); x < 256 && budget > 0; x++ {
			y := (x + 0x61) & 255
			if y == old || !d.has(y) {
				continue
			}
			p.asg[v] = y
			budget--
			if p.evalT(t) == 0 {
				continue
			}
			ok := true
			if p.vi[v].multi > 0 {
				for _, c := range p.vi[v].pcs {
					budget--
					if p.evalT(c) == 0 {
						ok = false
						break
					}
				}
			}
			if ok {
				m := append([]uint64(nil), p.asg...)
				p.asg[v] = old
				return m
			}
		}
		p.asg[v] = old
	}
	return nil
}

// closure collects the constraints connected to vs through shared variables.
func (p *Path) closure(vs []int32) []*Term {
	seenV := map[int32]bool{}
	seenT := map[*Term]bool{}
	var out []*Term
	q := append([]int32(nil), vs...)
	for len(q) > 0 {
		v := q[len(q)-1]
		q = q[:len(q)-1]
		if seenV[v] {
			continue
		}
		seenV[v] = true
		for _, c := range p.vi[v].pcs {
			if !seenT[c] {
				seenT[c] = true
				out = append(out, c)
				q = append(q, p.in.tc.Vars(c)...)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (p *Path) solve(t *Term) (satRes, []uint64) {
	cs := append(p.closure(p.in.tc.Vars(t)), t)
	r, m := p.in.sol.Check(p.in.tc, cs)
	if r != rSat {
		if r == rUnknown {
			p.in.run.noteUnknown()
		}
		return r, nil
	}
	out := append([]uint64(nil), p.asg...)
	for v, x := range m {
		out[v] = x
	}
	return rSat, out
}

func (p *Path) record(v uint64) uint64 {
	if p.pos < len(p.prefix) {
		v = p.prefix[p.pos]
	}
	p.pos++
	p.dec = append(p.dec, v)
	return v
}

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

func (p *Path) fork(v uint64, m []uint64, cond *Term) *pathRec {
	pre := make([]uint64, len(p.dec)+1)
	copy(pre, p.dec)
	pre[len(p.dec)] = v
	a := p.alt(cond)
	p.in.run.push(Item{pre, append([]uint64(nil), m...), a})
	return a
}

// decide resolves a symbolic branch condition.
func (p *Path) decide(t *Term) bool {
	if t.isConst() {
		return t.val != 0
	}
	if p.in.initDepth > 0 {
		panic(unsupported("symbolic branch in package init"))
	}
	if p.pcSet[t] {
		return true
	}
	tc := p.in.tc
	nt := tc.Not(t)
	if p.pcSet[nt] {
		return false
	}
	if p.merge != nil {
		return p.merge.decide(t)
	}
	if p.replaying() {
		v := p.record(0) != 0
		if v {
			p.addPC(t)
		} else {
			p.addPC(nt)
		}
		return v
	}
	v := p.evalT(t) != 0
	other := nt
	if !v {
		other = t
	}
	var alts []*pathRec
	switch r, m := p.feasible(other); r {
	case rSat:
		if p.in.run.verbose {
			p.in.run.noteFork(p.in.whereNow())
		}
		alts = []*pathRec{p.fork(b2u(!v), m, other)}
	case rUnknown:
		p.in.run.noteLost("solver gave no answer on a branch")
	}
	taken := nt
	if v {
		taken = t
	}
	p.event(evBranch, taken, alts)
	p.record(b2u(v))
	p.addPC(taken)
	return v
}

// choose picks among n alternatives of an unconstrained choice variable.
func (p *Path) choose(n int, name, kind string) int {
	if n <= 1 {
		return 0
	}
	if p.merge != nil {
		p.merge.abort("choice inside merged code")
	}
	hi := int64(n - 1)
	w := uint8(8)
	if n > 120 {
		w = 16
	}
	t := p.newVar(w, name, 0, hi)
	p.addInput(name, kind, t, 0, false)
	var v uint64
	if p.replaying() {
		v = p.record(0)
	} else {
		// first alternative is explored now, the others are queued
		m := append([]uint64(nil), p.asg...)
		var alts []*pathRec
		for i := n - 1; i >= 1; i-- {
			m[t.val] = uint64(i)
			alts = append(alts, p.fork(uint64(i), m, p.in.tc.Eq(t, p.in.tc.Const(w, uint64(i)))))
		}
		p.event(evBranch, p.in.tc.Eq(t, p.in.tc.Const(w, 0)), alts)
		v = p.record(0)
	}
	p.asg[t.val] = v
	p.addPC(p.in.tc.Eq(t, p.in.tc.Const(w, v)))
	return int(v)
}

// concretize forks over the feasible values of an integer term.
func (p *Path) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	for i := 0; ; i++ {
		if p.merge != nil {
			p.merge.abort("concretisation inside merged code")
		}
		if i > 300 {
			panic(pathEnd{endLimit, "too many values for a concretised term"})
		}
		x := p.record(p.evalT(t))
		if p.decide(p.in.tc.Eq(t, p.in.tc.Const(t.w, x))) {
			return x
		}
	}
}

func (p *Path) assume(v Value) {
	t := p.in.bterm(v)
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		p.event(evAssume, t, nil)
		panic(pathEnd{endPruned, "assume"})
	}
	if p.merge != nil {
		p.merge.abort("assume inside merged code")
	}
	if p.evalT(t) == 0 {
		r, m := p.feasible(t)
		if r == rUnknown {
			p.in.run.noteLost("solver gave no answer on an assumption")
		}
		if r != rSat {
			p.event(evAssume, t, nil)
			panic(pathEnd{endPruned, "assume"})
		}
		copy(p.asg, m)
	}
	p.event(evAssume, t, nil)
	p.addPC(t)
}

// assert is a proof obligation: PC and not t must be unsatisfiable.
func (p *Path) assert(v Value, label string) {
	t := p.in.bterm(v)
	p.asserts++
	p.in.run.assertHit(label)
	if t.isTrue() {
		return
	}
	if p.merge != nil {
		p.merge.abort("assert inside merged code")
	}
	p.in.run.stats.asserts.Add(1)
	nt := p.in.tc.Not(t)
	if p.replaying() {
		// already decided on the parent path
		p.addPC(t)
		if p.evalT(t) == 0 {
			// the model handed down was only required to satisfy the branch constraints
			r, m := p.solve(t)
			if r != rSat {
				panic(pathEnd{endPruned, "assert"})
			}
			copy(p.asg, m)
		}
		return
	}
	p.event(evAssert, t, nil)
	var m []uint64
	r := rUnsat
	if t.isFalse() || p.evalT(t) == 0 {
		r, m = rSat, p.asg
	} else {
		r, m = p.solve(nt)
	}
	switch r {
	case rSat:
		p.report("assert", label, "", m)
		if t.isFalse() {
			panic(pathEnd{endViolation, label})
		}
		if p.evalT(t) == 0 {
			r, m := p.feasible(t)
			if r != rSat {
				panic(pathEnd{endViolation, label})
			}
			copy(p.asg, m)
		}
		p.addPC(t)
	case rUnknown:
		p.in.run.noteLost("solver gave no answer on assertion " + label)
		p.addPC(t)
	default:
		p.addPC(t)
	}
}

func (p *Path) addInput(name, kind string, v Value, off int64, sgn bool) string {
	k := p.nameCnt[name]
	p.nameCnt[name]++
	full := fmt.Sprintf("%s#%d", name, k)
	p.inputs = append(p.inputs, Input{Name: full, Kind: kind, v: v, off: off, sgn: sgn})
	return full
}

// evalVal renders a value under an assignment.
func (p *Path) evalStr(v Value, m []uint64) string {
	b := strBytes(v)
	out := make([]byte, 0, len(b))
	for _, x := range b {
		switch x := x.(type) {
		case int64:
			out = append(out, byte(x))
		case *Term:
			out = append(out, byte(p.in.tc.Eval(x, m)))
		case *Opaque:
			out = append(out, []byte("<"+x.kind+">")...)
		}
	}
	return string(out)
}

func (p *Path) encodeInputs(m []uint64) (map[string]string, []string) {
	out := map[string]string{}
	var order []string
	for _, in := range p.inputs {
		order = append(order, in.Name)
		switch in.Kind {
		case "str":
			out[in.Name] = fmt.Sprintf("s:%q", p.evalStr(in.v, m))
		case "bool":
			t := in.v.(*Term)
			out[in.Name] = fmt.Sprintf("b:%v", p.in.tc.Eval(t, m) != 0)
		default:
			switch t := in.v.(type) {
			case *Term:
				x := p.in.tc.Eval(t, m)
				var s int64
				if in.sgn {
					s = sext64(x, t.w)
				} else {
					s = int64(x)
				}
				pre := "i:"
				if in.Kind == "sched" {
					pre = "c:"
				}
				out[in.Name] = fmt.Sprintf("%s%d", pre, s+in.off)
			case int64:
				out[in.Name] = fmt.Sprintf("i:%d", t)
			}
		}
	}
	return out, order
}

func (p *Path) report(kind, label, detail string, m []uint64) {
	ins, order := p.encodeInputs(m)
	v := &Violation{Harness: p.in.run.harness, Label: label, Kind: kind, Detail: detail, Inputs: ins, Order: order,
		Sched: p.nSched, Prefix: append([]uint64(nil), p.dec...), model: append([]uint64(nil), m...), racy: p.in.run.racy}
	v.Log = append(v.Log, p.log...)
	for _, o := range p.observed {
		v.Obs = append(v.Obs, o.name+"="+p.in.render(o.v, m))
	}
	p.in.run.violation(v)
}

// ---- merging of pure calls

type mergeCtx struct {
	p     *Path
	outer *mergeCtx
	pre   []uint64
	pos   int
	conds []*Term
	set   map[*Term]bool
	work  [][]uint64
	dec   []uint64
	dom   map[int32]*dom
}

type mergeAbort struct{ msg string }

func (m *mergeCtx) abort(msg string) { panic(mergeAbort{msg}) }

func (m *mergeCtx) known(t *Term) bool {
	for c := m; c != nil; c = c.outer {
		if c.set[t] {
			return true
		}
	}
	return false
}

func (m *mergeCtx) curDom(v int32) *dom {
	for c := m; c != nil; c = c.outer {
		if d := c.dom[v]; d != nil {
			return d
		}
	}
	return m.p.vi[v].dom
}

func (m *mergeCtx) decide(t *Term) bool {
	tc := m.p.in.tc
	nt := tc.Not(t)
	if m.known(t) {
		return true
	}
	if m.known(nt) {
		return false
	}
	vs := tc.Vars(t)
	if len(vs) == 1 {
		if d := m.curDom(vs[0]); d != nil {
			dt, df := *d, *d
			m.p.filterDom(&dt, vs[0], t)
			m.p.filterDom(&df, vs[0], nt)
			if dt.empty() {
				return false
			}
			if df.empty() {
				return true
			}
		}
	}
	if m.pos < len(m.pre) {
		v := m.pre[m.pos] != 0
		m.pos++
		m.dec = append(m.dec, b2u(v))
		if v {
			m.add(t)
		} else {
			m.add(nt)
		}
		return v
	}
	if len(m.work) > 3000 {
		m.abort("too many merged paths")
	}
	alt := append(append([]uint64(nil), m.dec...), 0)
	m.work = append(m.work, alt)
	m.pos++
	m.dec = append(m.dec, 1)
	m.add(t)
	return true
}

func (m *mergeCtx) add(t *Term) {
	if t.op == OAnd {
		m.add(t.a)
		m.add(t.b)
		return
	}
	m.conds = append(m.conds, t)
	m.set[t] = true
	vs := m.p.in.tc.Vars(t)
	if len(vs) == 1 {
		if d := m.curDom(vs[0]); d != nil {
			nd := *d
			m.p.filterDom(&nd, vs[0], t)
			m.dom[vs[0]] = &nd
		}
	}
}

// callMerged runs a pure function over all its internal branches and returns
// one merged result; ok=false if that is not possible.
func (in *Interp) callMerged(run func() Value, rt types.Type) (res Value, ok bool) {
	p := in.path
	outer := p.merge
	steps := p.steps
	type part struct {
		c *Term
		v Value
	}
	var parts []part
	m := &mergeCtx{p: p, outer: outer, work: [][]uint64{nil}}
	total := 0
	defer func() {
		p.merge = outer
		if r := recover(); r != nil {
			if _, is := r.(mergeAbort); is {
				p.steps = steps
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	for len(m.work) > 0 {
		m.pre = m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		m.pos = 0
		m.conds = nil
		m.dec = nil
		m.set = map[*Term]bool{}
		m.dom = map[int32]*dom{}
		p.merge = m
		v := func() Value {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(*targetPanicT); is {
						panic(mergeAbort{"panic"})
					}
					if e, is := r.(pathEnd); is && e.kind == endUnsupported {
						panic(mergeAbort{e.msg})
					}
					panic(r)
				}
			}()
			return run()
		}()
		p.merge = outer
		c := in.tc.tTrue
		for _, x := range m.conds {
			c = in.tc.And(c, x)
		}
		parts = append(parts, part{c, v})
		total++
		if total > 2000 {
			return nil, false
		}
	}
	r := parts[len(parts)-1].v
	for i := len(parts) - 2; i >= 0; i-- {
		var good bool
		r, good = in.iteVal(parts[i].c, parts[i].v, r, rt)
		if !good {
			return nil, false
		}
	}
	return r, true
}

// iteVal merges two values of type t under c.
func (in *Interp) iteVal(c *Term, a, b Value, t types.Type) (Value, bool) {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return nil, true
		}
		if tt.Len() == 1 {
			return in.iteVal(c, a, b, tt.At(0).Type())
		}
		x, ok1 := a.(Tuple)
		y, ok2 := b.(Tuple)
		if !ok1 || !ok2 {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := in.iteVal(c, x[i], y[i], tt.At(i).Type())
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	}
	if k, ok := basicInt(t); ok {
		return ival(in.tc.Ite(c, in.iterm(a, k), in.iterm(b, k)), k), true
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		return bval(in.tc.Ite(c, in.bterm(a), in.bterm(b))), true
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		if strLen(a) != strLen(b) {
			return nil, false
		}
		n := strLen(a)
		out := make([]Value, n)
		k := intKind{8, false}
		for i := 0; i < n; i++ {
			x, y := strAt(a, i), strAt(b, i)
			if x == y {
				out[i] = x
				continue
			}
			if _, o := x.(*Opaque); o {
				return nil, false
			}
			if _, o := y.(*Opaque); o {
				return nil, false
			}
			out[i] = ival(in.tc.Ite(c, in.iterm(x, k), in.iterm(y, k)), k)
		}
		return mkStr(out), true
	}
	return nil, false
}

func (p *Path) describe() string {
	var sb strings.Builder
	m, order := p.encodeInputs(p.asg)
	for _, k := range order {
		fmt.Fprintf(&sb, "%s=%s ", k, m[k])
	}
	return strings.TrimSpace(sb.String())
}
