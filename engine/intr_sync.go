package main

import (
	"go/types"
	"math"
	"strings"
)

var intrinsics map[string]Intrinsic

// functions whose intrinsic has no effect besides its result
var pureIntrinsics = map[string]bool{}

func leafCell(p *Value) *Value {
	switch s := (*p).(type) {
	case Struct:
		for i := range s {
			if c := leafCell(&s[i]); c != nil {
				return c
			}
		}
		return nil
	case Array:
		for i := range s {
			if c := leafCell(&s[i]); c != nil {
				return c
			}
		}
		return nil
	}
	return p
}

func (in *Interp) recvCell(fr *Frame, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(engineErr("receiver %T", v))
	}
	if p == nil {
		in.nilDeref(fr)
	}
	c := leafCell(p)
	if c == nil {
		panic(engineErr("no state cell"))
	}
	return c
}

func leafInt(c *Value) int64 {
	n, _ := (*c).(int64)
	return n
}

// omap is the engine's concurrent map (sync.Map, gache shards).
type omap struct {
	keys, vals []Value
}

func (in *Interp) omapOf(c *Value) *omap {
	m, _ := (*c).(*omap)
	if m == nil {
		return &omap{}
	}
	return m
}

func (in *Interp) omapFind(m *omap, k Value) int {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.targetPanic("runtime error: hash of unhashable type " + i.t.String())
	}
	for i := range m.keys {
		e := in.eqVal(k, m.keys[i])
		if e.isFalse() {
			continue
		}
		if in.path.decide(e) {
			return i
		}
	}
	return -1
}

// omapSet is copy-on-write, so snapshots stay valid.
func (in *Interp) omapSet(c *Value, i int, k, v Value) {
	m := in.omapOf(c)
	n := &omap{keys: append([]Value(nil), m.keys...), vals: append([]Value(nil), m.vals...)}
	if i >= 0 {
		n.vals[i] = v
	} else {
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
	}
	in.setCell(c, n)
}

func (in *Interp) omapDel(c *Value, i int) {
	m := in.omapOf(c)
	n := &omap{}
	for j := range m.keys {
		if j != i {
			n.keys = append(n.keys, m.keys[j])
			n.vals = append(n.vals, m.vals[j])
		}
	}
	in.setCell(c, n)
}

func (in *Interp) omapRange(fr *Frame, c *Value, f Value) {
	m := in.omapOf(c)
	n := len(m.keys)
	var done []int
	order := func() int {
		var cand []int
		for i := 0; i < n; i++ {
			used := false
			for _, d := range done {
				if d == i {
					used = true
				}
			}
			if !used {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return -1
		}
		if len(cand) > 1 && n <= in.path.mapOrderMax && in.initDepth == 0 && in.path.merge == nil {
			in.path.nSched++
			return cand[in.path.choose(len(cand), "maporder", "sched")]
		}
		return cand[0]
	}
	for {
		i := order()
		if i < 0 {
			return
		}
		done = append(done, i)
		// an entry deleted meanwhile is not visited
		cur := in.omapOf(c)
		k := m.keys[i]
		v := m.vals[i]
		if cur != m {
			found := false
			for j := range cur.keys {
				if in.eqVal(cur.keys[j], k).isTrue() {
					found = true
					v = cur.vals[j]
				}
			}
			if !found {
				continue
			}
		}
		r := in.callValue(fr, f, []Value{k, copyVal(v)})
		switch x := r.(type) {
		case bool:
			if !x {
				return
			}
		case *Term:
			if !in.path.decide(x) {
				return
			}
		}
	}
}

func noop(in *Interp, fr *Frame, args []Value) Value    { return nil }
func retArg0(in *Interp, fr *Frame, args []Value) Value { return args[0] }

func ifaceOf(v Value) Iface {
	i, _ := v.(Iface)
	return i
}

func init() {
	I := map[string]Intrinsic{}
	intrinsics = I

	// ---- sync
	lock := func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		c := in.recvCell(fr, args[0])
		if leafInt(c) != 0 {
			in.block("mutex", func() bool { return leafInt(c) == 0 })
		}
		in.setCell(c, int64(-1))
		return nil
	}
	unlock := func(in *Interp, fr *Frame, args []Value) Value {
		c := in.recvCell(fr, args[0])
		if leafInt(c) != -1 {
			panic(&targetPanicT{v: Iface{in.prog.runtimeErrT, "sync: unlock of unlocked mutex"}, msg: "sync: unlock of unlocked mutex", pos: in.posStr(fr)})
		}
		in.setCell(c, int64(0))
		in.visible(fr)
		return nil
	}
	trylock := func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		c := in.recvCell(fr, args[0])
		if leafInt(c) != 0 {
			return false
		}
		in.setCell(c, int64(-1))
		return true
	}
	for _, t := range []string{"(*sync.Mutex).", "(*internal/sync.Mutex).", "(*sync.RWMutex)."} {
		I[t+"Lock"], I[t+"Unlock"], I[t+"TryLock"] = lock, unlock, trylock
	}
	I["(*sync.RWMutex).RLock"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		c := in.recvCell(fr, args[0])
		if leafInt(c) < 0 {
			in.block("rwmutex", func() bool { return leafInt(c) >= 0 })
		}
		in.setCell(c, leafInt(c)+1)
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(in *Interp, fr *Frame, args []Value) Value {
		c := in.recvCell(fr, args[0])
		if leafInt(c) <= 0 {
			in.targetPanic("sync: RUnlock of unlocked RWMutex")
		}
		in.setCell(c, leafInt(c)-1)
		in.visible(fr)
		return nil
	}
	I["(*sync.WaitGroup).Add"] = func(in *Interp, fr *Frame, args []Value) Value {
		c := in.recvCell(fr, args[0])
		n := leafInt(c) + in.concInt(args[1], intKind{64, true})
		if n < 0 {
			in.targetPanic("sync: negative WaitGroup counter")
		}
		in.setCell(c, n)
		in.visible(fr)
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(in *Interp, fr *Frame, args []Value) Value {
		return I["(*sync.WaitGroup).Add"](in, fr, []Value{args[0], int64(-1)})
	}
	I["(*sync.WaitGroup).Wait"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		c := in.recvCell(fr, args[0])
		if leafInt(c) != 0 {
			in.block("WaitGroup.Wait "+in.posStr(fr), func() bool { return leafInt(c) == 0 })
		}
		return nil
	}
	I["(*sync.Pool).Get"] = func(in *Interp, fr *Frame, args []Value) Value {
		p := args[0].(*Value)
		s := (*p).(Struct)
		f, _ := s[len(s)-1].(*Closure)
		if f == nil {
			return Iface{}
		}
		return in.callValue(fr, f, nil)
	}
	I["(*sync.Pool).Put"] = noop

	mload := func(in *Interp, fr *Frame, args []Value) (Value, bool) {
		c := in.recvCell(fr, args[0])
		m := in.omapOf(c)
		i := in.omapFind(m, args[1])
		if i < 0 {
			return nil, false
		}
		return copyVal(m.vals[i]), true
	}
	I["(*sync.Map).Load"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		v, ok := mload(in, fr, args)
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{v, true}
	}
	mstore := func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		c := in.recvCell(fr, args[0])
		i := in.omapFind(in.omapOf(c), args[1])
		in.omapSet(c, i, args[1], copyVal(args[2]))
		return nil
	}
	I["(*sync.Map).Store"] = mstore
	I["(*sync.Map).LoadOrStore"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		v, ok := mload(in, fr, args)
		if ok {
			return Tuple{v, true}
		}
		c := in.recvCell(fr, args[0])
		in.omapSet(c, -1, args[1], args[2])
		return Tuple{args[2], false}
	}
	mdel := func(in *Interp, fr *Frame, args []Value) (Value, bool) {
		in.visible(fr)
		c := in.recvCell(fr, args[0])
		m := in.omapOf(c)
		i := in.omapFind(m, args[1])
		if i < 0 {
			return nil, false
		}
		v := m.vals[i]
		in.omapDel(c, i)
		return v, true
	}
	I["(*sync.Map).Delete"] = func(in *Interp, fr *Frame, args []Value) Value { mdel(in, fr, args); return nil }
	I["(*sync.Map).LoadAndDelete"] = func(in *Interp, fr *Frame, args []Value) Value {
		v, ok := mdel(in, fr, args)
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{v, true}
	}
	I["(*sync.Map).Swap"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		c := in.recvCell(fr, args[0])
		m := in.omapOf(c)
		i := in.omapFind(m, args[1])
		var old Value = Iface{}
		if i >= 0 {
			old = m.vals[i]
		}
		in.omapSet(c, i, args[1], args[2])
		return Tuple{old, i >= 0}
	}
	I["(*sync.Map).CompareAndSwap"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		c := in.recvCell(fr, args[0])
		m := in.omapOf(c)
		i := in.omapFind(m, args[1])
		if i < 0 || !in.path.decide(in.eqVal(m.vals[i], args[2])) {
			return false
		}
		in.omapSet(c, i, args[1], args[3])
		return true
	}
	I["(*sync.Map).CompareAndDelete"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		c := in.recvCell(fr, args[0])
		m := in.omapOf(c)
		i := in.omapFind(m, args[1])
		if i < 0 || !in.path.decide(in.eqVal(m.vals[i], args[2])) {
			return false
		}
		in.omapDel(c, i)
		return true
	}
	I["(*sync.Map).Clear"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		in.setCell(in.recvCell(fr, args[0]), &omap{})
		return nil
	}
	mrange := func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		in.omapRange(fr, in.recvCell(fr, args[0]), args[1])
		return nil
	}
	I["(*sync.Map).Range"] = mrange

	// ---- gache shards (a typed copy of sync.Map)
	const gm = "(*github.com/kpango/gache.Map)."
	gz := func(in *Interp) Value { return zero(in.prog.typ("github.com/kpango/gache", "value")) }
	I[gm+"Load"] = func(in *Interp, fr *Frame, args []Value) Value {
		v, ok := mload(in, fr, args)
		if !ok {
			return Tuple{gz(in), false}
		}
		return Tuple{v, true}
	}
	I[gm+"Store"] = mstore
	I[gm+"Delete"] = I["(*sync.Map).Delete"]
	I[gm+"LoadAndDelete"] = func(in *Interp, fr *Frame, args []Value) Value {
		v, ok := mdel(in, fr, args)
		if !ok {
			return Tuple{gz(in), false}
		}
		return Tuple{v, true}
	}
	I[gm+"LoadOrStore"] = I["(*sync.Map).LoadOrStore"]
	I[gm+"Range"] = mrange
	const gg = "(*github.com/kpango/gache.gache)."
	vis := func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		return notHandled
	}
	for _, m := range []string{"Get", "GetWithExpire", "Set", "SetWithExpire", "Delete", "Clear", "ToRawMap", "ToMap", "Foreach", "Stop", "StartExpired"} {
		I[gg+m] = vis
	}
	I["github.com/zeebo/xxh3.HashString"] = func(in *Interp, fr *Frame, args []Value) Value { return int64(0) }

	// ---- sync/atomic
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		n := n
		k := intKind{64, true}
		switch n {
		case "Int32":
			k = intKind{32, true}
		case "Uint32":
			k = intKind{32, false}
		case "Uint64", "Uintptr":
			k = intKind{64, false}
		}
		cell := func(in *Interp, fr *Frame, v Value) *Value {
			p := v.(*Value)
			if p == nil {
				in.nilDeref(fr)
			}
			return p
		}
		I["sync/atomic.Load"+n] = func(in *Interp, fr *Frame, args []Value) Value {
			in.visible(fr)
			return *cell(in, fr, args[0])
		}
		I["sync/atomic.Store"+n] = func(in *Interp, fr *Frame, args []Value) Value {
			in.visible(fr)
			in.setCell(cell(in, fr, args[0]), args[1])
			return nil
		}
		I["sync/atomic.Swap"+n] = func(in *Interp, fr *Frame, args []Value) Value {
			in.visible(fr)
			p := cell(in, fr, args[0])
			old := *p
			in.setCell(p, args[1])
			return old
		}
		I["sync/atomic.CompareAndSwap"+n] = func(in *Interp, fr *Frame, args []Value) Value {
			in.visible(fr)
			p := cell(in, fr, args[0])
			if in.path.decide(in.eqVal(*p, args[1])) {
				in.setCell(p, args[2])
				return true
			}
			return false
		}
		if n == "Pointer" {
			continue
		}
		I["sync/atomic.Add"+n] = func(in *Interp, fr *Frame, args []Value) Value {
			in.visible(fr)
			p := cell(in, fr, args[0])
			v := in.addInt(*p, args[1], k)
			in.setCell(p, v)
			return v
		}
		I["sync/atomic.And"+n] = func(in *Interp, fr *Frame, args []Value) Value {
			p := cell(in, fr, args[0])
			old := *p
			in.setCell(p, old.(int64)&args[1].(int64))
			return old
		}
		I["sync/atomic.Or"+n] = func(in *Interp, fr *Frame, args []Value) Value {
			p := cell(in, fr, args[0])
			old := *p
			in.setCell(p, old.(int64)|args[1].(int64))
			return old
		}
	}
	I["(*sync/atomic.Value).Load"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		return ifaceOf((*args[0].(*Value)).(Struct)[0])
	}
	I["(*sync/atomic.Value).Store"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		s := (*args[0].(*Value)).(Struct)
		nv := ifaceOf(args[1])
		if nv.t == nil {
			in.targetPanic("sync/atomic: store of nil value into Value")
		}
		if o := ifaceOf(s[0]); o.t != nil && !sameType(o.t, nv.t) {
			in.targetPanic("sync/atomic: store of inconsistently typed value into Value")
		}
		in.setCell(&s[0], nv)
		return nil
	}
	I["(*sync/atomic.Value).Swap"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		s := (*args[0].(*Value)).(Struct)
		o := ifaceOf(s[0])
		in.setCell(&s[0], args[1])
		return o
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.visible(fr)
		s := (*args[0].(*Value)).(Struct)
		if in.path.decide(in.eqVal(ifaceOf(s[0]), args[1])) {
			in.setCell(&s[0], args[2])
			return true
		}
		return false
	}

	// ---- runtime
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault"} {
		I[n] = noop
	}
	I["runtime.Gosched"] = func(in *Interp, fr *Frame, args []Value) Value { in.visible(fr); return nil }
	I["runtime.Callers"] = func(in *Interp, fr *Frame, args []Value) Value { return int64(0) }
	I["runtime.Caller"] = func(in *Interp, fr *Frame, args []Value) Value { return Tuple{int64(0), "", int64(0), false} }
	I["runtime.NumGoroutine"] = func(in *Interp, fr *Frame, args []Value) Value {
		n := int64(0)
		for _, t := range in.sch.threads {
			if !t.done {
				n++
			}
		}
		return n
	}
	I["runtime.GOMAXPROCS"] = func(in *Interp, fr *Frame, args []Value) Value { return int64(8) }
	I["runtime.NumCPU"] = I["runtime.GOMAXPROCS"]
	I["runtime/debug.Stack"] = func(in *Interp, fr *Frame, args []Value) Value { return strToBytes("stack") }
	I["github.com/pkg/errors.callers"] = func(in *Interp, fr *Frame, args []Value) Value { return (*Value)(nil) }
	I["internal/abi.NoEscape"] = retArg0
	I["internal/abi.Escape"] = retArg0
	I["(*internal/godebug.Setting).Value"] = func(in *Interp, fr *Frame, args []Value) Value { return "" }
	I["(*internal/godebug.Setting).IncNonDefault"] = noop
	I["os.Getenv"] = func(in *Interp, fr *Frame, args []Value) Value { return "" }
	I["os.LookupEnv"] = func(in *Interp, fr *Frame, args []Value) Value { return Tuple{"", false} }
	I["syscall.Getenv"] = I["os.LookupEnv"]

	// ---- errors
	I["errors.Is"] = func(in *Interp, fr *Frame, args []Value) Value {
		err, target := args[0].(Iface), args[1].(Iface)
		if err.t == nil || target.t == nil {
			return err.t == nil && target.t == nil
		}
		return in.errIs(fr, err, target, 0)
	}
	I["errors.As"] = func(in *Interp, fr *Frame, args []Value) Value {
		err, target := args[0].(Iface), args[1].(Iface)
		if err.t == nil {
			return false
		}
		if target.t == nil {
			in.targetPanic("errors: target cannot be nil")
		}
		pt, ok := target.t.Underlying().(*types.Pointer)
		if !ok {
			in.targetPanic("errors: target must be a non-nil pointer")
		}
		return in.errAs(fr, err, target.v.(*Value), pt.Elem(), 0)
	}

	// ---- fmt
	I["fmt.Sprintf"] = func(in *Interp, fr *Frame, args []Value) Value { return in.sprintf(fr, args[0], args[1].(Slice)) }
	I["fmt.Sprint"] = func(in *Interp, fr *Frame, args []Value) Value { return in.sprint(fr, args[0].(Slice), false) }
	I["fmt.Sprintln"] = func(in *Interp, fr *Frame, args []Value) Value { return in.sprint(fr, args[0].(Slice), true) }
	I["fmt.Errorf"] = func(in *Interp, fr *Frame, args []Value) Value {
		s := in.sprintf(fr, args[0], args[1].(Slice))
		f := args[0].(string)
		if strings.Contains(f, "%w") {
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				if f[i+1] == 'w' {
					as := args[1].(Slice)
					if n < len(as) {
						if e := as[n].(Iface); e.t != nil && in.implements(e.t, errorIface) {
							return in.ptrStruct("fmt", "wrapError", map[string]Value{"msg": s, "err": e})
						}
					}
				}
				if f[i+1] != '%' {
					n++
				}
				i++
			}
		}
		return in.mkError(s)
	}
	fpr := func(conv func(in *Interp, fr *Frame, args []Value) Value) Intrinsic {
		return func(in *Interp, fr *Frame, args []Value) Value {
			s := conv(in, fr, args[1:])
			r, ok := in.callMethod(fr, args[0].(Iface), "Write", strToBytes(s))
			if !ok {
				in.nilDeref(fr)
			}
			return r
		}
	}
	I["fmt.Fprintf"] = fpr(I["fmt.Sprintf"])
	I["fmt.Fprint"] = fpr(I["fmt.Sprint"])
	I["fmt.Fprintln"] = fpr(I["fmt.Sprintln"])
	pr := func(in *Interp, fr *Frame, args []Value) Value { return Tuple{int64(0), Iface{}} }
	I["fmt.Printf"], I["fmt.Println"], I["fmt.Print"] = pr, pr, pr

	// floating point only exists as concrete values
	f1 := map[string]func(float64) float64{"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round,
		"Abs": math.Abs, "Exp": math.Exp, "Exp2": math.Exp2, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10}
	for n, g := range f1 {
		g := g
		I["math."+n] = func(in *Interp, fr *Frame, args []Value) Value {
			if x, ok := args[0].(float64); ok {
				return g(x)
			}
			return notHandled
		}
	}
	f2 := map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Max": math.Max, "Min": math.Min}
	for n, g := range f2 {
		g := g
		I["math."+n] = func(in *Interp, fr *Frame, args []Value) Value {
			x, ok1 := args[0].(float64)
			y, ok2 := args[1].(float64)
			if ok1 && ok2 {
				return g(x, y)
			}
			return notHandled
		}
	}
	I["math.Float64bits"] = func(in *Interp, fr *Frame, args []Value) Value {
		if x, ok := args[0].(float64); ok {
			return int64(math.Float64bits(x))
		}
		return notHandled
	}
	I["math.Float64frombits"] = func(in *Interp, fr *Frame, args []Value) Value {
		if x, ok := args[0].(int64); ok {
			return math.Float64frombits(uint64(x))
		}
		return notHandled
	}

	initStr(I)
	initTime(I)
	initJSON(I)
	initRegexp(I)
	initNet(I)
	initVF()
}

func (in *Interp) addInt(a, b Value, k intKind) Value {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return k.norm(x + y)
	}
	return ival(in.tc.Bin(OAdd, in.iterm(a, k), in.iterm(b, k)), k)
}

func (in *Interp) errIs(fr *Frame, err, target Iface, d int) bool {
	for ; d < 50; d++ {
		if types.Comparable(target.t) && types.Comparable(err.t) {
			if in.path.decide(in.eqVal(err, target)) {
				return true
			}
		}
		if f := in.prog.lookupMethod(err.t, nil, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if r, ok := in.callMethod(fr, err, "Is", target); ok {
				if b, isB := r.(bool); isB && b {
					return true
				}
			}
		}
		r, ok := in.unwrap(fr, err)
		if !ok {
			return false
		}
		if s, many := r.(Slice); many {
			for _, e := range s {
				if ie := e.(Iface); ie.t != nil && in.errIs(fr, ie, target, d+1) {
					return true
				}
			}
			return false
		}
		err = r.(Iface)
		if err.t == nil {
			return false
		}
	}
	return false
}

func (in *Interp) unwrap(fr *Frame, err Iface) (Value, bool) {
	f := in.prog.lookupMethod(err.t, nil, "Unwrap")
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		return nil, false
	}
	return in.callMethod(fr, err, "Unwrap")
}

func (in *Interp) errAs(fr *Frame, err Iface, dst *Value, t types.Type, d int) bool {
	for ; d < 50; d++ {
		if it, isI := t.Underlying().(*types.Interface); isI {
			if in.implements(err.t, it) {
				in.store(dst, err)
				return true
			}
		} else if sameType(err.t, t) {
			in.store(dst, copyVal(err.v))
			return true
		}
		r, ok := in.unwrap(fr, err)
		if !ok {
			return false
		}
		if s, many := r.(Slice); many {
			for _, e := range s {
				if ie := e.(Iface); ie.t != nil && in.errAs(fr, ie, dst, t, d+1) {
					return true
				}
			}
			return false
		}
		err = r.(Iface)
		if err.t == nil {
			return false
		}
	}
	return false
}
