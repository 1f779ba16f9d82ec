package main

import (
	"go/types"
	"math"
	"strings"
	"time"
)

type rtTimer struct {
	ev     *timerEv
	period int64
	f      *Closure
	arg    Iface
	ch     *Chan
}

// fireTimer delivers a timer event.
func (in *Interp) fireTimer(p *Value, rt *rtTimer) {
	if rt.period > 0 {
		rt.ev = in.sch.addTimer(rt.period, func() { in.fireTimer(p, rt) })
	} else {
		rt.ev = nil
	}
	if rt.ch != nil {
		// channel timer: non-blocking send of the current time
		n := in.nowNano()
		in.trySendQuiet(rt.ch, timeVal(n/1e9, n%1e9))
		return
	}
	if c, ok := rt.arg.v.(*Closure); ok && rt.f != nil {
		in.spawn(nil, c, nil, nil) // time.AfterFunc
		return
	}
	if rt.f != nil {
		in.spawn(nil, rt.f, []Value{rt.arg, int64(0), int64(0)}, nil)
	}
}

func (in *Interp) trySendQuiet(c *Chan, v Value) {
	if c.closed {
		return
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.sel.done, w.sel.idx, w.sel.v, w.sel.ok = true, w.idx, v, true
		w.sel.acq = in.sch.snap()
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		in.sch.release(c)
	}
}

func initTime(I map[string]Intrinsic) {
	I["time.Now"] = func(in *Interp, fr *Frame, args []Value) Value {
		n := in.nowNano()
		return timeVal(n/1e9, n%1e9)
	}
	I["time.now"] = func(in *Interp, fr *Frame, args []Value) Value {
		n := in.nowNano()
		return Tuple{n / 1e9, n % 1e9, int64(0)}
	}
	I["time.runtimeNano"] = func(in *Interp, fr *Frame, args []Value) Value { return in.sch.mono + 1 }
	I["time.runtimeNow"] = I["time.now"]
	I["time.runtimeIsBubbled"] = func(in *Interp, fr *Frame, args []Value) Value { return false }
	I["time.Since"] = func(in *Interp, fr *Frame, args []Value) Value {
		n := in.nowNano()
		return in.timeSub(fr, timeVal(n/1e9, n%1e9), args[0])
	}
	I["time.Until"] = func(in *Interp, fr *Frame, args []Value) Value {
		n := in.nowNano()
		return in.timeSub(fr, args[0], timeVal(n/1e9, n%1e9))
	}
	I["time.Sleep"] = func(in *Interp, fr *Frame, args []Value) Value {
		d := in.concInt(args[0], intKind{64, true})
		if d <= 0 {
			return nil
		}
		done := false
		in.sch.addTimer(d, func() { done = true })
		in.block("sleep", func() bool { return done })
		return nil
	}
	mkTimer := func(in *Interp, fr *Frame, args []Value) Value {
		when := in.concInt(args[0], intKind{64, true})
		period := in.concInt(args[1], intKind{64, true})
		rt := &rtTimer{period: period, arg: ifaceOf(args[3])}
		rt.f, _ = args[2].(*Closure)
		rt.ch, _ = args[4].(*Chan)
		t := in.prog.typ("time", "Timer")
		z := append(zero(t).(Struct), rt)
		p := new(Value)
		*p = z
		if when < math.MaxInt64 {
			rt.ev = in.sch.addTimer(when-(in.sch.mono+1), func() { in.fireTimer(p, rt) })
		}
		if i := fieldIdx(t, "initTimer"); i >= 0 {
			z[i] = true
		}
		return p
	}
	I["time.newTimer"] = mkTimer
	getRT := func(v Value) *rtTimer {
		s := (*v.(*Value)).(Struct)
		rt, _ := s[len(s)-1].(*rtTimer)
		return rt
	}
	drain := func(in *Interp, rt *rtTimer) bool {
		if rt.ch != nil && len(rt.ch.buf) > 0 {
			rt.ch.buf = nil
			return true
		}
		return false
	}
	I["time.stopTimer"] = func(in *Interp, fr *Frame, args []Value) Value {
		rt := getRT(args[0])
		if rt == nil {
			panic(unsupported("stop of a foreign timer"))
		}
		act := rt.ev != nil
		if act {
			rt.ev.dead = true
			rt.ev = nil
		}
		if drain(in, rt) {
			act = true
		}
		return act
	}
	I["time.resetTimer"] = func(in *Interp, fr *Frame, args []Value) Value {
		rt := getRT(args[0])
		if rt == nil {
			panic(unsupported("reset of a foreign timer"))
		}
		act := rt.ev != nil
		if act {
			rt.ev.dead = true
		}
		if drain(in, rt) {
			act = true
		}
		rt.period = in.concInt(args[2], intKind{64, true})
		when := in.concInt(args[1], intKind{64, true})
		rt.ev = in.sch.addTimer(when-(in.sch.mono+1), func() { in.fireTimer(args[0].(*Value), rt) })
		return act
	}
	// ---- time arithmetic on symbolic times
	I["(time.Time).Sub"] = func(in *Interp, fr *Frame, args []Value) Value { return in.timeSub(fr, args[0], args[1]) }
	I["(time.Time).UnixNano"] = func(in *Interp, fr *Frame, args []Value) Value {
		s := args[0].(Struct)
		e, ok := s[1].(*Term)
		if !ok {
			return notHandled
		}
		tc := in.tc
		sec := tc.Bin(OSub, e, tc.Const(64, uint64(unixToInternal)))
		v := tc.Bin(OAdd, tc.Bin(OMul, sec, tc.Const(64, 1e9)), tc.Const(64, uint64(s[0].(int64)&(1<<30-1))))
		return ival(v, intKind{64, true})
	}
	fmtT := func(layout func(args []Value) string, bytes bool) Intrinsic {
		return func(in *Interp, fr *Frame, args []Value) Value {
			l := layout(args)
			t, ok := concTime(args[0])
			if ok {
				return t.Format(l)
			}
			s := args[0].(Struct)
			if _, sym := s[1].(*Term); !sym {
				return notHandled
			}
			c := copyVal(args[0]).(Struct)
			c[2] = (*Value)(nil)
			return &SymStr{b: []Value{&Opaque{kind: "time", v: c}}}
		}
	}
	I["(time.Time).Format"] = fmtT(func(a []Value) string { s, _ := a[1].(string); return s }, false)
	I["(time.Time).String"] = fmtT(func(a []Value) string { return "2006-01-02 15:04:05.999999999 -0700 MST" }, false)
	I["(time.Time).AppendFormat"] = func(in *Interp, fr *Frame, args []Value) Value {
		s := I["(time.Time).Format"](in, fr, []Value{args[0], args[2]})
		if s == notHandled {
			return s
		}
		return append(append(Slice{}, args[1].(Slice)...), strBytes(s)...)
	}
	I["(time.Duration).String"] = func(in *Interp, fr *Frame, args []Value) Value {
		switch x := args[0].(type) {
		case int64:
			return time.Duration(x).String()
		case *Term:
			return in.numText(x, nil)
		}
		return notHandled
	}
	I["time.ParseDuration"] = func(in *Interp, fr *Frame, args []Value) Value { return notHandled }
	I["time.LoadLocation"] = func(in *Interp, fr *Frame, args []Value) Value { return Tuple{(*Value)(nil), Iface{}} }
	I["(*time.Location).get"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.ensureInit(in.prog.pkgs["time"])
		return in.global(in.prog.pkgs["time"].Var("utcLoc"))
	}

	// ---- rdl timestamps in documents
	const rdl = "github.com/ardielle/ardielle-go/rdl."
	I[rdl+"TimestampParse"] = func(in *Interp, fr *Frame, args []Value) Value {
		if s, ok := args[0].(*SymStr); ok && len(s.b) == 1 {
			if o, ok := s.b[0].(*Opaque); ok && o.kind == "time" {
				return Tuple{Struct{copyVal(o.v)}, Iface{}}
			}
		}
		if s, ok := args[0].(string); ok {
			if t, err := time.Parse("2006-01-02T15:04:05.999Z", s); err == nil {
				return Tuple{Struct{timeVal(t.Unix(), int64(t.Nanosecond()))}, Iface{}}
			}
			return notHandled
		}
		panic(unsupported("timestamp parse of partly symbolic text"))
	}
	I["("+rdl[:len(rdl)-1]+".Timestamp).String"] = func(in *Interp, fr *Frame, args []Value) Value {
		tv := args[0].(Struct)[0]
		if t, ok := concTime(tv); ok {
			if t.IsZero() {
				return ""
			}
			return t.Format("2006-01-02T15:04:05.000Z")
		}
		s := copyVal(tv).(Struct)
		if e, sym := s[1].(*Term); sym {
			if e.slo <= 0 {
				panic(unsupported("text of a timestamp that may be zero"))
			}
			s[2] = (*Value)(nil)
			return &SymStr{b: []Value{&Opaque{kind: "time", v: s}}}
		}
		return notHandled
	}

	// ---- fastime: the cached clock is taken to be exact
	const ft = "github.com/kpango/fastime."
	now := func(in *Interp) int64 { return in.nowNano() }
	I[ft+"Now"] = I["time.Now"]
	I[ft+"UnixNanoNow"] = func(in *Interp, fr *Frame, args []Value) Value { return now(in) }
	I[ft+"UnixNow"] = func(in *Interp, fr *Frame, args []Value) Value { return now(in) / 1e9 }
	I[ft+"UnixUNow"] = func(in *Interp, fr *Frame, args []Value) Value { return now(in) / 1e9 & 0xffffffff }
	I[ft+"FormattedNow"] = func(in *Interp, fr *Frame, args []Value) Value {
		n := now(in)
		return strToBytes(time.Unix(n/1e9, n%1e9).UTC().Format(time.RFC3339))
	}
}

// timeSub is t.Sub(u); exact when the difference provably fits a Duration.
func (in *Interp) timeSub(fr *Frame, a, b Value) Value {
	x, y := a.(Struct), b.(Struct)
	_, s1 := x[1].(*Term)
	_, s2 := y[1].(*Term)
	_, c1 := x[0].(int64)
	_, c2 := y[0].(int64)
	if (s1 || s2) && c1 && c2 && uint64(x[0].(int64))>>63 == 0 && uint64(y[0].(int64))>>63 == 0 {
		k := intKind{64, true}
		tc := in.tc
		xs, ys := in.iterm(x[1], k), in.iterm(y[1], k)
		d := tc.Bin(OSub, xs, ys)
		n := x[0].(int64)&(1<<30-1) - y[0].(int64)&(1<<30-1)
		exact := tc.Bin(OAdd, tc.Bin(OMul, d, tc.Const(64, 1e9)), tc.Const(64, uint64(n)))
		if d.slo > -9_000_000_000 && d.shi < 9_000_000_000 && noWrapSub(xs, ys) {
			return ival(exact, k)
		}
		// beyond the range of a Duration the result saturates
		lo, hi := int64(-9223372036), int64(9223372036)
		switch {
		case n < -854775808:
			lo++
		case n >= 145224192:
			lo--
		}
		switch {
		case n > 854775807:
			hi--
		case n <= -145224193:
			hi++
		}
		less := tc.Slt(xs, ys)
		fits := tc.And(tc.Eq(tc.Slt(d, tc.Const(64, 0)), less),
			tc.And(tc.Sle(tc.Const(64, uint64(lo)), d), tc.Sle(d, tc.Const(64, uint64(hi)))))
		return ival(tc.Ite(fits, exact, tc.Ite(less, tc.Const(64, 1<<63), tc.Const(64, 1<<63-1))), k)
	}
	f := in.prog.lookupMethod(in.prog.typ("time", "Time"), nil, "Sub")
	return in.callBody(fr, in.fnOf(f), []Value{a, b}, nil, nil)
}

var _ = strings.Index
var _ types.Type

// noWrapSub reports that a-b cannot overflow.
func noWrapSub(a, b *Term) bool {
	const h = 1 << 62
	return a.slo > -h && a.shi < h && b.slo > -h && b.shi < h
}
