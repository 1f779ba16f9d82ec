package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Threads of the interpreted program. Exactly one holds the token at a time.

type Thread struct {
	id      int
	top     *Frame
	depth   int
	wake    chan bool // true: run, false: die
	ready   func() bool
	what    string
	done    bool
	started bool
	name    string
	vc      []int32
}

type timerEv struct {
	at   int64
	seq  int64
	fire func()
	dead bool
	vc   []int32
}

type Sched struct {
	in      *Interp
	threads []*Thread
	cur     *Thread
	wg      sync.WaitGroup
	killed  bool
	fail    any // panic value to deliver to the driver
	ended   chan struct{}
	endOnce sync.Once
	mono    int64 // virtual nanoseconds since start
	timers  []*timerEv
	seq     int64
	nchan   int64
	nthread int
	ticks   int
	race    *raceState
	firing  *timerEv
}

func (in *Interp) newSched() *Sched {
	return &Sched{in: in, ended: make(chan struct{})}
}

// runMain executes the harness on a fresh main thread and waits for the end of the path.
func (s *Sched) runMain(f func()) (res any) {
	th := &Thread{id: 0, wake: make(chan bool, 1), name: "main"}
	s.threads = append(s.threads, th)
	s.cur = th
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				s.finish(r)
				return
			}
			s.finish(nil)
		}()
		f()
	}()
	<-s.ended
	// stop every other thread
	s.killed = true
	for _, t := range s.threads {
		select {
		case t.wake <- false:
		default:
		}
	}
	s.wg.Wait()
	return s.fail
}

func (s *Sched) finish(r any) {
	s.endOnce.Do(func() {
		s.fail = r
		close(s.ended)
	})
}

// spawn creates a goroutine of the interpreted program.
func (in *Interp) spawn(fr *Frame, f Value, args []Value, ci *callInfo) {
	s := in.sch
	if in.path.merge != nil {
		in.path.merge.abort("go statement in merged code")
	}
	if len(s.threads) > 40 {
		live := s.threads[:1]
		for _, t := range s.threads[1:] {
			if !t.done {
				live = append(live, t)
			}
		}
		s.threads = live
	}
	if len(s.threads) > 60 {
		panic(pathEnd{endLimit, "too many goroutines"})
	}
	s.nthread++
	th := &Thread{id: s.nthread, wake: make(chan bool, 1)}
	if fr != nil {
		th.name = fr.fn.name
	}
	if s.race == nil && in.initDepth == 0 {
		s.race = &raceState{objs: map[any]*syncClock{}, cells: map[any]*shadow{}}
	}
	th.vc = s.snap()
	s.threads = append(s.threads, th)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		if !<-th.wake {
			return
		}
		defer func() {
			r := recover()
			if s.killed {
				return
			}
			if r != nil {
				s.finish(r)
				return
			}
			th.done = true
			// hand the token on
			func() {
				defer func() {
					if r := recover(); r != nil && !s.killed {
						s.finish(r)
					}
				}()
				s.handoff(th)
			}()
		}()
		if ci != nil && ci.builtin != "" {
			in.callBuiltin(nil, ci, args)
			return
		}
		in.callValue(nil, f, args)
	}()
	in.visible(fr)
}

func (s *Sched) runnable() []*Thread {
	var out []*Thread
	for _, t := range s.threads {
		if t.done {
			continue
		}
		if t.ready == nil || t.ready() {
			out = append(out, t)
		}
	}
	return out
}

// pickNext chooses a runnable thread, advancing virtual time when all are blocked.
func (s *Sched) pickNext() *Thread {
	in := s.in
	for {
		r := s.runnable()
		if len(r) == 1 {
			return r[0]
		}
		if len(r) > 1 && !in.path.free {
			return s.fair(r)
		}
		if len(r) > 1 {
			if in.path.delays >= 0 {
				f := s.fair(r)
				if in.path.delays == 0 {
					return f
				}
				o := []*Thread{f}
				for _, t := range r {
					if t != f {
						o = append(o, t)
					}
				}
				r = o
			}
			i := in.path.choose(len(r), "sch", "sched")
			in.path.nSched++
			if i > 0 && in.path.delays > 0 {
				in.path.delays--
			}
			return r[i]
		}
		if !s.advance() {
			return nil
		}
	}
}

// fair picks the runnable thread after the current one, in id order.
func (s *Sched) fair(r []*Thread) *Thread {
	for _, t := range r {
		if s.cur != nil && t.id > s.cur.id {
			return t
		}
	}
	return r[0]
}

// advance fires the next timer; false if there is none.
func (s *Sched) advance() bool {
	var best *timerEv
	for _, t := range s.timers {
		if t.dead {
			continue
		}
		if best == nil || t.at < best.at || t.at == best.at && t.seq < best.seq {
			best = t
		}
	}
	if best == nil {
		return false
	}
	s.ticks++
	if s.ticks > 10*s.in.run.maxTicks {
		panic(pathEnd{endLimit, "timer budget"})
	}
	if best.at > s.mono {
		s.mono = best.at
	}
	// everything due at this instant fires before any goroutine continues
	for at := best.at; best != nil; {
		best.dead = true
		s.firing = best
		best.fire()
		s.firing = nil
		best = nil
		for _, t := range s.timers {
			if !t.dead && t.at <= at && (best == nil || t.seq < best.seq) {
				best = t
			}
		}
		if s.ticks++; s.ticks > 10*s.in.run.maxTicks {
			panic(pathEnd{endLimit, "timer budget"})
		}
	}
	live := s.timers[:0]
	for _, t := range s.timers {
		if !t.dead {
			live = append(live, t)
		}
	}
	s.timers = live
	return true
}

func (s *Sched) addTimer(d int64, f func()) *timerEv {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &timerEv{at: s.mono + d, seq: s.seq, fire: f, vc: s.snap()}
	s.timers = append(s.timers, t)
	return t
}

func (s *Sched) switchTo(from, to *Thread) {
	if from == to {
		return
	}
	s.cur = to
	to.wake <- true
	if from.done {
		return
	}
	if !<-from.wake {
		panic(pathEnd{endKilled, "path over"})
	}
}

// handoff gives the token to some other thread (current one is blocked or done).
func (s *Sched) handoff(from *Thread) {
	to := s.pickNext()
	if to == nil {
		// nobody can run
		main := s.threads[0]
		var desc string
		for _, t := range s.threads {
			if !t.done {
				desc += fmt.Sprintf("goroutine %d (%s) blocked on %s; ", t.id, t.name, t.what)
			}
		}
		_ = main
		panic(&deadlock{desc})
	}
	to.ready = nil
	s.switchTo(from, to)
}

type deadlock struct{ msg string }

// block parks the current thread until pred holds.
func (in *Interp) block(what string, pred func() bool) {
	s := in.sch
	if in.initDepth > 0 {
		panic(unsupported("blocking in package init: " + what))
	}
	if in.path.merge != nil {
		in.path.merge.abort("blocking in merged code")
	}
	th := s.cur
	th.ready = pred
	th.what = what
	if in.onBlock != nil {
		in.onBlock(th)
	}
	s.handoff(th)
	th.ready = nil
}

// visible is a scheduling point: another thread may run before the next
// visible operation of the current one (bounded number of preemptions).
func (in *Interp) visible(fr *Frame) {
	p := in.path
	if in.initDepth > 0 || p == nil || in.sch == nil || len(in.sch.threads) < 2 {
		return
	}
	if fr == nil || !fr.fn.visible && !in.visibleCaller(fr) {
		return
	}
	if p.delays >= 0 && p.free {
		if p.delays == 0 {
			return
		}
	} else if p.preempt >= p.maxPreempt {
		return
	}
	if p.merge != nil {
		p.merge.abort("scheduling point in merged code")
	}
	s := in.sch
	r := s.runnable()
	if len(r) < 2 {
		return
	}
	// alternative 0 continues with the current thread
	var cand []*Thread
	cand = append(cand, s.cur)
	for _, t := range r {
		if t != s.cur {
			cand = append(cand, t)
		}
	}
	i := p.choose(len(cand), "pre", "sched")
	if i == 0 {
		return
	}
	p.nSched++
	p.preempt++
	if p.delays > 0 {
		p.delays--
	}
	th := s.cur
	th.ready = func() bool { return true }
	th.what = "preempted"
	cand[i].ready = nil
	s.switchTo(th, cand[i])
	th.ready = nil
}

func (in *Interp) visibleCaller(fr *Frame) bool {
	return false
}

func (in *Interp) yield(fr *Frame) {
	s := in.sch
	r := s.runnable()
	if len(r) < 2 {
		return
	}
	i := 0
	if in.path.free && in.path.delays < 0 {
		i = in.path.choose(len(r), "yld", "sched")
	} else if r[0] == s.cur {
		i = 1
	}
	if r[i] == s.cur {
		return
	}
	th := s.cur
	th.ready = func() bool { return true }
	r[i].ready = nil
	s.switchTo(th, r[i])
	th.ready = nil
}

// ---- channels

type waiter struct {
	th   *Thread
	sel  *selState
	idx  int
	v    Value
	recv bool
	vc   []int32
}

type selState struct {
	done bool
	idx  int
	v    Value
	ok   bool
	pan  bool
	acq  []int32 // ordering handed over by the partner
}

type Chan struct {
	id     int64
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	passed int // times a select took another case while this one was ready
}

func (in *Interp) newChan(n int) *Chan {
	in.sch.nchan++
	return &Chan{id: in.sch.nchan, cap: n}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (c *Chan) snapshot(in *Interp) {
	old := *c
	buf := append([]Value(nil), c.buf...)
	if in.initDepth == 0 {
		in.onUndo(func() { *c = old; c.buf = buf; c.recvq, c.sendq = nil, nil })
	}
}

// trySend performs a ready send.
func (in *Interp) trySend(c *Chan, v Value) bool {
	if c.closed {
		in.targetPanic("send on closed channel")
	}
	s := in.sch
	if w := popWaiter(&c.recvq); w != nil {
		w.sel.done, w.sel.idx, w.sel.v, w.sel.ok = true, w.idx, v, true
		w.sel.acq = s.snap()
		if c.cap == 0 {
			s.join(w.vc)
		}
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		s.release(c)
		s.acquireR(c)
		return true
	}
	return false
}

func (in *Interp) tryRecv(c *Chan) (v Value, ok, ready bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		in.sch.acquire(c, false)
		if in.sch.race != nil {
			in.sch.releaseR(c)
		}
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			w.sel.done, w.sel.idx = true, w.idx
			if in.sch.race != nil {
				k := in.sch.clockOf(c)
				k.w = joinVC(k.w, w.vc)
				w.sel.acq = append([]int32(nil), k.r...)
			}
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		w.sel.done, w.sel.idx = true, w.idx
		in.sch.join(w.vc)
		w.sel.acq = in.sch.snap()
		return w.v, true, true
	}
	if c.closed {
		in.sch.acquire(c, false)
		return nil, false, true
	}
	return nil, false, false
}

func (in *Interp) chanSend(fr *Frame, c *Chan, v Value) {
	in.visible(fr)
	if c == nil {
		in.block("send on nil channel", func() bool { return false })
	}
	if in.trySend(c, v) {
		return
	}
	st := &selState{}
	c.sendq = append(c.sendq, &waiter{th: in.sch.cur, sel: st, v: v, vc: in.sch.snap()})
	in.block("channel send "+in.posStr(fr), func() bool { return st.done })
	in.sch.join(st.acq)
	if st.pan {
		in.targetPanic("send on closed channel")
	}
}

func (in *Interp) chanRecv(fr *Frame, c *Chan, et types.Type) (Value, bool) {
	in.visible(fr)
	if c == nil {
		in.block("receive from nil channel", func() bool { return false })
	}
	if v, ok, ready := in.tryRecv(c); ready {
		if !ok {
			return zero(et), false
		}
		return v, true
	}
	st := &selState{}
	c.recvq = append(c.recvq, &waiter{th: in.sch.cur, sel: st, recv: true, vc: in.sch.snap()})
	in.block("channel receive "+in.posStr(fr), func() bool { return st.done })
	in.sch.join(st.acq)
	if !st.ok {
		return zero(et), false
	}
	return st.v, true
}

func (in *Interp) chanClose(fr *Frame, c *Chan) {
	in.visible(fr)
	if c == nil {
		in.targetPanic("close of nil channel")
	}
	if c.closed {
		in.targetPanic("close of closed channel")
	}
	c.closed = true
	in.sch.release(c)
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, false
		w.sel.acq = in.sch.snap()
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.sel.done, w.sel.idx, w.sel.pan = true, w.idx, true
	}
}

func (c *compiler) sel(ins *ssa.Select, dst int) cop {
	in := c.in
	type sc struct {
		ch, v opd
		send  bool
		et    types.Type
	}
	var cs []sc
	for _, st := range ins.States {
		x := sc{ch: c.opd(st.Chan), send: st.Dir == types.SendOnly}
		x.et = st.Chan.Type().Underlying().(*types.Chan).Elem()
		if x.send {
			x.v = c.opd(st.Send)
		}
		cs = append(cs, x)
	}
	blocking := ins.Blocking
	pos := ins.Pos()
	tt := ins.Type().(*types.Tuple)
	repo := c.fn.repo
	return func(fr *Frame) {
		fr.pos = pos
		in.visible(fr)
		chs := make([]*Chan, len(cs))
		vals := make([]Value, len(cs))
		for i := range cs {
			chs[i] = cs[i].ch.get(fr).(*Chan)
			if cs[i].send {
				vals[i] = copyVal(cs[i].v.get(fr))
			}
		}
		result := func(idx int, v Value, ok bool) {
			out := make(Tuple, tt.Len())
			out[0] = int64(idx)
			out[1] = ok
			j := 2
			for i := range cs {
				if cs[i].send {
					continue
				}
				if i == idx && ok {
					out[j] = v
				} else {
					out[j] = zero(cs[i].et)
				}
				j++
			}
			fr.regs[dst] = out
		}
		var ready []int
		for i := range cs {
			ch := chs[i]
			if ch == nil {
				continue
			}
			if cs[i].send {
				if ch.closed || hasWaiter(ch.recvq) || len(ch.buf) < ch.cap {
					ready = append(ready, i)
				}
			} else if len(ch.buf) > 0 || ch.closed || hasWaiter(ch.sendq) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			k := 0
			if len(ready) > 1 && repo && in.initDepth == 0 {
				// a case that was ready and not taken before is taken now (fairness)
				forced := -1
				for j, r := range ready {
					if chs[r].passed >= in.run.maxPassed {
						forced = j
						break
					}
				}
				if forced >= 0 {
					k = forced
				} else {
					k = in.path.choose(len(ready), "sel", "sched")
					in.path.nSched++
				}
				for j, r := range ready {
					if j != k {
						chs[r].passed++
					}
				}
				chs[ready[k]].passed = 0
			}
			i := ready[k]
			if cs[i].send {
				in.trySend(chs[i], vals[i])
				result(i, nil, false)
			} else {
				v, ok, _ := in.tryRecv(chs[i])
				result(i, v, ok)
			}
			return
		}
		if !blocking {
			result(-1, nil, false)
			return
		}
		st := &selState{}
		vc := in.sch.snap()
		for i := range cs {
			if chs[i] == nil {
				continue
			}
			w := &waiter{th: in.sch.cur, sel: st, idx: i, v: vals[i], recv: !cs[i].send, vc: vc}
			if cs[i].send {
				chs[i].sendq = append(chs[i].sendq, w)
			} else {
				chs[i].recvq = append(chs[i].recvq, w)
			}
		}
		in.block("select "+in.posStr(fr), func() bool { return st.done })
		in.sch.join(st.acq)
		if st.pan {
			in.targetPanic("send on closed channel")
		}
		result(st.idx, st.v, st.ok)
	}
}
