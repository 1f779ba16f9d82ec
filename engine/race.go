package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before monitoring of the memory accesses of the module's own
// functions. Two unordered conflicting accesses make their instructions
// scheduling points of the next exploration phase, and are violations where
// the harness asks for it (vf.Races).

type syncClock struct{ w, r []int32 }

type access struct {
	tid, clk      int32
	write, atomic bool
	ins           ssa.Instruction
	fn            string
}

type shadow struct{ as []access }

type raceState struct {
	objs  map[any]*syncClock
	cells map[any]*shadow
}

type racePair struct {
	a, b   ssa.Instruction
	fa, fb string
	wa, wb bool
	onMap  bool
}

func joinVC(d, s []int32) []int32 {
	for len(d) < len(s) {
		d = append(d, 0)
	}
	for i, x := range s {
		if x > d[i] {
			d[i] = x
		}
	}
	return d
}

func (th *Thread) clk() int32 {
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	if th.vc[th.id] == 0 {
		th.vc[th.id] = 1
	}
	return th.vc[th.id]
}

func (th *Thread) tick() {
	th.clk()
	th.vc[th.id]++
}

func (s *Sched) clockOf(k any) *syncClock {
	c := s.race.objs[k]
	if c == nil {
		c = &syncClock{}
		s.race.objs[k] = c
	}
	return c
}

// curVC is the clock of the running thread, or of the creator of the timer being fired.
func (s *Sched) curVC() []int32 {
	if s.firing != nil {
		return s.firing.vc
	}
	s.cur.clk()
	return s.cur.vc
}

func (s *Sched) release(k any) {
	if s.race == nil {
		return
	}
	c := s.clockOf(k)
	c.w = joinVC(c.w, s.curVC())
	if s.firing == nil {
		s.cur.tick()
	}
}

func (s *Sched) releaseR(k any) {
	if s.race == nil {
		return
	}
	c := s.clockOf(k)
	c.r = joinVC(c.r, s.curVC())
	if s.firing == nil {
		s.cur.tick()
	}
}

func (s *Sched) acquire(k any, r bool) {
	if s.race == nil {
		return
	}
	if c := s.race.objs[k]; c != nil {
		s.cur.clk()
		s.cur.vc = joinVC(s.cur.vc, c.w)
		if r {
			s.cur.vc = joinVC(s.cur.vc, c.r)
		}
	}
}

func (s *Sched) acquireR(k any) {
	if s.race == nil {
		return
	}
	if c := s.race.objs[k]; c != nil {
		s.cur.clk()
		s.cur.vc = joinVC(s.cur.vc, c.r)
	}
}

// snap is a copy of the running thread's clock, after which the thread moves on.
func (s *Sched) snap() []int32 {
	if s.race == nil {
		return nil
	}
	v := append([]int32(nil), s.curVC()...)
	if s.firing == nil {
		s.cur.tick()
	}
	return v
}

func (s *Sched) join(v []int32) {
	if s.race == nil || v == nil {
		return
	}
	s.cur.clk()
	s.cur.vc = joinVC(s.cur.vc, v)
}

type syncKind struct{ atomic, preW, preR, postAcqW, postAcqR, postRelW bool }

// syncEdges tells which ordering a synchronisation function establishes on its first argument.
func syncEdges(name string) (k syncKind, ok bool) {
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return
	}
	t, m := name[:i], name[i+1:]
	switch t {
	case "(*sync.Mutex)", "(*internal/sync.Mutex)", "(*sync.RWMutex)":
		switch m {
		case "Lock", "TryLock":
			return syncKind{postAcqW: true, postAcqR: true}, true
		case "Unlock":
			return syncKind{preW: true}, true
		case "RLock", "TryRLock":
			return syncKind{postAcqW: true}, true
		case "RUnlock":
			return syncKind{preR: true}, true
		}
		return
	case "(*sync.WaitGroup)":
		switch m {
		case "Add", "Done":
			return syncKind{preW: true}, true
		case "Wait":
			return syncKind{postAcqW: true}, true
		}
		return
	case "(*sync.Map)", "(*github.com/kpango/gache.Map)":
		switch m {
		case "Load", "Range":
			return syncKind{postAcqW: true}, true
		}
		return syncKind{postAcqW: true, postRelW: true}, true
	case "sync/atomic", "(*sync/atomic.Value)":
		k := syncKind{atomic: t == "sync/atomic", postAcqW: true, postRelW: true}
		switch {
		case strings.HasPrefix(m, "Load"):
			k.postRelW = false
		case strings.HasPrefix(m, "Store"):
			k.postAcqW = false
		}
		return k, true
	}
	return
}

func raceWrap(name string, f Intrinsic) Intrinsic {
	k, ok := syncEdges(name)
	if !ok || f == nil {
		return f
	}
	return func(in *Interp, fr *Frame, args []Value) Value {
		s := in.sch
		if s == nil || s.race == nil || in.initDepth > 0 || len(args) == 0 {
			return f(in, fr, args)
		}
		p, _ := args[0].(*Value)
		if p == nil {
			return f(in, fr, args)
		}
		c := leafCell(p)
		if k.preW {
			s.release(c)
		}
		if k.preR {
			s.releaseR(c)
		}
		if k.atomic && fr != nil {
			in.touch1(fr, p, nil, !strings.HasPrefix(name, "sync/atomic.Load"), false, true)
		}
		r := f(in, fr, args)
		if b, isB := r.(bool); isB && !b && strings.HasSuffix(name, "ock") {
			return r // failed TryLock
		}
		if k.postAcqW {
			s.acquire(c, k.postAcqR)
		}
		if k.postRelW {
			s.release(c)
		}
		return r
	}
}

// tracks: loads and stores of this address are watched.
func (c *compiler) tracks(a ssa.Value) bool { return c.fn.track && !stackAddr(a) }

func (in *Interp) touchCells(fr *Frame, p *Value, ins ssa.Instruction, write bool) {
	switch s := (*p).(type) {
	case Struct:
		for i := range s {
			in.touchCells(fr, &s[i], ins, write)
		}
		return
	case Array:
		for i := range s {
			in.touchCells(fr, &s[i], ins, write)
		}
		return
	}
	in.touch1(fr, p, ins, write, false, false)
}

// touch records an access; before it, an instruction known to race is a scheduling point.
func (in *Interp) touch(fr *Frame, p any, ins ssa.Instruction, write bool) {
	s := in.sch
	if s == nil || s.race == nil || in.initDepth > 0 {
		return
	}
	if in.run.racy[ins] {
		in.visible(fr)
	}
	switch x := p.(type) {
	case *Value:
		in.touchCells(fr, x, ins, write)
	case *Map:
		if x != nil {
			in.touch1(fr, x, ins, write, true, false)
		}
	}
}

func (in *Interp) touch1(fr *Frame, key any, ins ssa.Instruction, write, onMap, atomic bool) {
	s := in.sch
	th := s.cur
	if in.path.merge != nil {
		if sh := s.race.cells[key]; sh != nil {
			for _, a := range sh.as {
				if a.tid != int32(th.id) && (a.write || write) {
					in.path.merge.abort("shared memory in merged code")
				}
			}
		}
		return
	}
	sh := s.race.cells[key]
	if sh == nil {
		sh = &shadow{}
		s.race.cells[key] = sh
	}
	me := access{int32(th.id), th.clk(), write, atomic, ins, fr.fn.name}
	keep := sh.as[:0]
	for _, a := range sh.as {
		ordered := a.tid == me.tid || int(a.tid) < len(th.vc) && th.vc[a.tid] >= a.clk
		if !ordered && (a.write || write) && !(a.atomic && atomic) {
			in.raced(racePair{a.ins, ins, a.fn, me.fn, a.write, write, onMap})
		}
		// what is ordered before a plain write needs no further comparison
		if !(ordered && write && !atomic) && !(a.tid == me.tid && a.write == write && a.atomic == atomic) {
			keep = append(keep, a)
		}
	}
	sh.as = append(keep, me)
}

func (in *Interp) raced(rp racePair) {
	r := in.run
	p := in.path
	r.mu.Lock()
	if r.newRacy == nil {
		r.newRacy = map[ssa.Instruction]bool{}
	}
	for _, i := range []ssa.Instruction{rp.a, rp.b} {
		if i != nil {
			r.newRacy[i] = true
		}
	}
	r.mu.Unlock()
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	what := "data race"
	if rp.onMap {
		what = "concurrent map access"
	}
	d := what + ": " + kind(rp.wa) + " in " + rp.fa + " at " + in.insPos(rp.a) + " and " + kind(rp.wb) + " in " + rp.fb + " at " + in.insPos(rp.b) + " are unordered"
	r.note(d)
	if p.races {
		p.report("race", "accesses from different goroutines are ordered", d, p.asg)
		panic(pathEnd{endViolation, d})
	}
}

func (in *Interp) insPos(i ssa.Instruction) string {
	if i == nil {
		return "an atomic or logger operation"
	}
	p := i.Pos()
	if p == token.NoPos {
		if s, ok := i.(*ssa.Store); ok {
			p = s.Addr.Pos()
		}
	}
	q := in.prog.fset.Position(p)
	f := q.Filename
	if k := strings.LastIndexByte(f, '/'); k >= 0 {
		f = f[k+1:]
	}
	return f + ":" + strconv.Itoa(q.Line)
}

// stackAddr: the address stays in a local variable that does not escape.
func stackAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return !x.Heap
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

func (in *Interp) touchElems(fr *Frame, s []Value, ci *callInfo, write bool) {
	if fr == nil || !fr.fn.track || ci.ins == nil || in.sch == nil || in.sch.race == nil || in.initDepth > 0 {
		return
	}
	if in.run.racy[ci.ins] {
		in.visible(fr)
	}
	for i := range s {
		in.touchCells(fr, &s[i], ci.ins, write)
	}
}

func (in *Interp) raceMap(fr *Frame, m *Map, ci *callInfo, write bool) {
	if fr != nil && fr.fn.track && ci.ins != nil {
		in.touch(fr, m, ci.ins, write)
	}
}

// glgState stands for the settings of the process-wide logger.
var glgState = new(Value)

// touchLogger: changing the logger's settings is a write, logging reads them.
func (in *Interp) touchLogger(fr *Frame, name string) {
	s := in.sch
	if s == nil || s.race == nil || in.initDepth > 0 || fr == nil || name == "Get" {
		return
	}
	write := false
	for _, p := range []string{"Set", "Enable", "Disable", "Add", "Init"} {
		write = write || strings.HasPrefix(name, p)
	}
	in.touch1(fr, glgState, nil, write, false, false)
}
