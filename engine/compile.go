package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callInfo struct {
	builtin string
	ins     ssa.CallInstruction
	sig     *types.Signature
	args    []ssa.Value
}

type compiler struct {
	in   *Interp
	fn   *Fn
	slot map[ssa.Value]int
}

func (in *Interp) compile(fn *Fn) {
	f := fn.f
	c := &compiler{in: in, fn: fn, slot: map[ssa.Value]int{}}
	n := 0
	for _, p := range f.Params {
		c.slot[p] = n
		n++
	}
	fn.nparams = n
	for _, p := range f.FreeVars {
		c.slot[p] = n
		n++
	}
	fn.nfree = n - fn.nparams
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				c.slot[v] = n
				n++
			}
			switch ins.(type) {
			case *ssa.Defer:
				fn.hasDefer = true
			}
		}
	}
	fn.nregs = n
	fn.blocks = make([]cblock, len(f.Blocks))
	for i, b := range f.Blocks {
		c.block(&fn.blocks[i], b)
	}
	fn.compiled = true
}

func (c *compiler) opd(v ssa.Value) opd {
	if i, ok := c.slot[v]; ok {
		return opd{idx: i}
	}
	switch v := v.(type) {
	case *ssa.Const:
		if _, isTP := v.Type().Underlying().(*types.TypeParam); isTP {
			return opd{-1, nil}
		}
		return opd{-1, c.in.constVal(v)}
	case *ssa.Global:
		if v.Pkg != nil && v.Pkg != c.fn.f.Pkg || c.in.initDepth == 0 {
			c.in.ensureInit(v.Pkg)
		}
		return opd{-1, c.in.global(v)}
	case *ssa.Function:
		return opd{-1, c.in.closureOf(v)}
	case *ssa.Builtin:
		return opd{-1, &Closure{blt: v}}
	}
	panic(engineErr("operand %T %s in %s", v, v, c.fn.name))
}

func (c *compiler) opds(vs []ssa.Value) []opd {
	out := make([]opd, len(vs))
	for i, v := range vs {
		out[i] = c.opd(v)
	}
	return out
}

func getAll(fr *Frame, os []opd) []Value {
	out := make([]Value, len(os))
	for i, o := range os {
		out[i] = o.get(fr)
	}
	return out
}

func (c *compiler) block(cb *cblock, b *ssa.BasicBlock) {
	cb.n = int64(len(b.Instrs))
	for _, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.Phi:
			if cb.phis == nil {
				cb.phis = map[int][]phiMove{}
			}
			for i, pred := range b.Preds {
				cb.phis[pred.Index] = append(cb.phis[pred.Index], phiMove{c.slot[ins], c.opd(ins.Edges[i])})
			}
		case *ssa.If:
			cond := c.opd(ins.Cond)
			t, f := b.Succs[0].Index, b.Succs[1].Index
			in := c.in
			pos := ins.Cond.Pos()
			cb.term = func(fr *Frame) int {
				switch v := cond.get(fr).(type) {
				case bool:
					if v {
						return t
					}
					return f
				case *Term:
					if pos.IsValid() {
						fr.pos = pos
					}
					if in.path.decide(v) {
						return t
					}
					return f
				}
				panic(engineErr("if on %T", cond.get(fr)))
			}
		case *ssa.Jump:
			t := b.Succs[0].Index
			cb.term = func(fr *Frame) int { return t }
		case *ssa.Return:
			rs := c.opds(ins.Results)
			switch len(rs) {
			case 0:
				cb.term = func(fr *Frame) int { return -1 }
			case 1:
				r := rs[0]
				cb.term = func(fr *Frame) int { fr.result = r.get(fr); return -1 }
			default:
				cb.term = func(fr *Frame) int { fr.result = Tuple(getAll(fr, rs)); return -1 }
			}
		case *ssa.Panic:
			x := c.opd(ins.X)
			in := c.in
			pos := ins.Pos()
			cb.term = func(fr *Frame) int {
				fr.pos = pos
				v := x.get(fr)
				panic(&targetPanicT{v: v, msg: in.panicMsg(fr, v), pos: in.posStr(fr)})
			}
		case *ssa.DebugRef:
		default:
			op := c.instr(ins)
			if op != nil {
				cb.ops = append(cb.ops, op)
			}
		}
	}
	if cb.term == nil {
		cb.term = func(fr *Frame) int { panic(engineErr("block without terminator")) }
	}
}

func (in *Interp) panicMsg(fr *Frame, v Value) string {
	if i, ok := v.(Iface); ok && i.t != nil {
		switch x := i.v.(type) {
		case string:
			return x
		case *SymStr:
			return in.path.evalStr(x, in.path.asg)
		}
		return "panic value of type " + i.t.String()
	}
	return "panic"
}

func (c *compiler) lazy(what string, f func() cop) cop {
	// build an op; if the engine cannot, fail only when executed
	var op cop
	var perr any
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(pathEnd); ok && (e.kind == endUnsupported || e.kind == endEngine) {
					perr = e
					return
				}
				panic(r)
			}
		}()
		op = f()
	}()
	if perr != nil {
		return func(fr *Frame) { panic(perr) }
	}
	return op
}

func (c *compiler) instr(ins ssa.Instruction) cop {
	return c.lazy(ins.String(), func() cop { return c.instr1(ins) })
}

func (c *compiler) instr1(ins ssa.Instruction) cop {
	in := c.in
	dst := -1
	if v, ok := ins.(ssa.Value); ok {
		dst = c.slot[v]
	}
	pos := ins.Pos()
	switch ins := ins.(type) {
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		if isAgg(t) {
			return func(fr *Frame) {
				p := new(Value)
				*p = zero(t)
				fr.regs[dst] = p
			}
		}
		z := zero(t)
		return func(fr *Frame) {
			p := new(Value)
			*p = z
			fr.regs[dst] = p
		}
	case *ssa.BinOp:
		return c.binop(ins, dst)
	case *ssa.UnOp:
		return c.unop(ins, dst)
	case *ssa.Call:
		return c.call(ins, dst)
	case *ssa.ChangeInterface:
		x := c.opd(ins.X)
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.ChangeType:
		x := c.opd(ins.X)
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.Convert:
		x := c.opd(ins.X)
		from, to := ins.X.Type(), ins.Type()
		return func(fr *Frame) { fr.regs[dst] = in.convert(fr, x.get(fr), from, to) }
	case *ssa.MultiConvert:
		x := c.opd(ins.X)
		from, to := ins.X.Type(), ins.Type()
		return func(fr *Frame) { fr.regs[dst] = in.convert(fr, x.get(fr), from, to) }
	case *ssa.SliceToArrayPointer:
		x := c.opd(ins.X)
		n := int(ins.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		_ = x
		return func(fr *Frame) {
			panic(unsupported(fmt.Sprintf("slice to array pointer (%d)", n)))
		}
	case *ssa.Extract:
		x := c.opd(ins.Tuple)
		i := ins.Index
		return func(fr *Frame) {
			t, ok := x.get(fr).(Tuple)
			if !ok {
				panic(engineErr("extract of %T in %s", x.get(fr), fr.fn.name))
			}
			fr.regs[dst] = t[i]
		}
	case *ssa.Field:
		x := c.opd(ins.X)
		i := ins.Field
		return func(fr *Frame) { fr.regs[dst] = copyVal(x.get(fr).(Struct)[i]) }
	case *ssa.FieldAddr:
		x := c.opd(ins.X)
		i := ins.Field
		return func(fr *Frame) {
			fr.pos = pos
			s, ok := in.load(x.get(fr), fr).(Struct)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address of %T in %s", in.load(x.get(fr), fr), fr.fn.name)))
			}
			fr.regs[dst] = &s[i]
		}
	case *ssa.Index:
		x, idx := c.opd(ins.X), c.opd(ins.Index)
		k, _ := basicInt(ins.Index.Type())
		et := ins.Type()
		return func(fr *Frame) {
			fr.pos = pos
			switch a := x.get(fr).(type) {
			case Array:
				fr.regs[dst] = in.indexVals(fr, []Value(a), idx.get(fr), k, et)
			case string, *SymStr:
				fr.regs[dst] = in.indexStr(fr, a, idx.get(fr), k)
			default:
				panic(engineErr("index of %T", a))
			}
		}
	case *ssa.IndexAddr:
		x, idx := c.opd(ins.X), c.opd(ins.Index)
		k, _ := basicInt(ins.Index.Type())
		readOnly := onlyLoaded(ins)
		et := ins.Type().(*types.Pointer).Elem()
		return func(fr *Frame) {
			fr.pos = pos
			var vs []Value
			switch a := x.get(fr).(type) {
			case Slice:
				vs = []Value(a)
			case *Value:
				arr, ok := in.load(a, fr).(Array)
				if !ok {
					panic(unsupported("index address of non-array"))
				}
				vs = []Value(arr)
			default:
				panic(engineErr("indexaddr of %T", a))
			}
			iv := idx.get(fr)
			if t, ok := iv.(*Term); ok {
				if readOnly {
					p := new(Value)
					*p = in.indexVals(fr, vs, t, k, et)
					fr.regs[dst] = p
					return
				}
				iv = in.concInt(t, k)
			}
			i := iv.(int64)
			if i < 0 || i >= int64(len(vs)) {
				in.targetPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(vs)))
			}
			fr.regs[dst] = &vs[i]
		}
	case *ssa.Lookup:
		x, idx := c.opd(ins.X), c.opd(ins.Index)
		if _, ok := ins.X.Type().Underlying().(*types.Map); ok {
			z := zero(ins.X.Type().Underlying().(*types.Map).Elem())
			commaOk := ins.CommaOk
			tracked := c.fn.track
			return func(fr *Frame) {
				fr.pos = pos
				m, _ := x.get(fr).(*Map)
				if tracked {
					in.touch(fr, m, ins, false)
				}
				v, ok := in.mapGet(m, idx.get(fr))
				if !ok {
					v = copyVal(z)
				} else {
					v = copyVal(v)
				}
				if commaOk {
					fr.regs[dst] = Tuple{v, ok}
				} else {
					fr.regs[dst] = v
				}
			}
		}
		k, _ := basicInt(ins.Index.Type())
		return func(fr *Frame) {
			fr.pos = pos
			fr.regs[dst] = in.indexStr(fr, x.get(fr), idx.get(fr), k)
		}
	case *ssa.MakeChan:
		n := c.opd(ins.Size)
		return func(fr *Frame) {
			sz, _ := n.get(fr).(int64)
			fr.regs[dst] = in.newChan(int(sz))
		}
	case *ssa.MakeClosure:
		f := ins.Fn.(*ssa.Function)
		bs := c.opds(ins.Bindings)
		return func(fr *Frame) {
			fr.regs[dst] = &Closure{fn: f, env: getAll(fr, bs)}
		}
	case *ssa.MakeInterface:
		x := c.opd(ins.X)
		t := ins.X.Type()
		return func(fr *Frame) { fr.regs[dst] = Iface{t, x.get(fr)} }
	case *ssa.MakeMap:
		t := ins.Type().Underlying().(*types.Map)
		return func(fr *Frame) { fr.regs[dst] = in.newMap(t) }
	case *ssa.MakeSlice:
		l, cp := c.opd(ins.Len), c.opd(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		kl, _ := basicInt(ins.Len.Type())
		kc, _ := basicInt(ins.Cap.Type())
		agg := isAgg(et)
		return func(fr *Frame) {
			fr.pos = pos
			n := in.concInt(l.get(fr), kl)
			m := in.concInt(cp.get(fr), kc)
			if n < 0 || n > 1<<22 {
				in.targetPanic("runtime error: makeslice: len out of range")
			}
			if m < n || m > 1<<22 {
				in.targetPanic("runtime error: makeslice: cap out of range")
			}
			s := make(Slice, m)
			if agg {
				for i := range s {
					s[i] = zero(et)
				}
			} else {
				z := zero(et)
				for i := range s {
					s[i] = z
				}
			}
			fr.regs[dst] = s[:n]
		}
	case *ssa.MapUpdate:
		m, k, v := c.opd(ins.Map), c.opd(ins.Key), c.opd(ins.Value)
		tracked := c.fn.track
		return func(fr *Frame) {
			fr.pos = pos
			mm, _ := m.get(fr).(*Map)
			if mm == nil {
				in.targetPanic("assignment to entry in nil map")
			}
			if tracked {
				in.touch(fr, mm, ins, true)
			}
			in.mapSet(mm, k.get(fr), copyVal(v.get(fr)))
		}
	case *ssa.Next:
		it := c.opd(ins.Iter)
		if ins.IsString {
			return func(fr *Frame) { fr.regs[dst] = in.strNext(fr, it.get(fr).(*strIter)) }
		}
		tt := ins.Type().(*types.Tuple)
		tracked := c.fn.track
		return func(fr *Frame) {
			mi := it.get(fr).(*mapIter)
			if tracked {
				in.touch(fr, mi.m, ins, false)
			}
			fr.regs[dst] = in.mapNext(fr, mi, tt)
		}
	case *ssa.Range:
		x := c.opd(ins.X)
		vis := c.fn.repo
		return func(fr *Frame) {
			switch v := x.get(fr).(type) {
			case *Map:
				fr.regs[dst] = &mapIter{m: v, free: vis}
			case string, *SymStr:
				fr.regs[dst] = &strIter{s: v}
			default:
				panic(engineErr("range over %T", v))
			}
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { in.runDefers(fr) }
	case *ssa.Select:
		return c.sel(ins, dst)
	case *ssa.Send:
		ch, x := c.opd(ins.Chan), c.opd(ins.X)
		return func(fr *Frame) {
			fr.pos = pos
			in.chanSend(fr, ch.get(fr).(*Chan), copyVal(x.get(fr)))
		}
	case *ssa.Slice:
		return c.slice(ins, dst)
	case *ssa.Store:
		a, v := c.opd(ins.Addr), c.opd(ins.Val)
		agg := isAgg(ins.Val.Type())
		tracked := c.tracks(ins.Addr)
		return func(fr *Frame) {
			p, ok := a.get(fr).(*Value)
			if !ok {
				panic(unsupported("store through non-pointer"))
			}
			if p == nil {
				fr.pos = pos
				in.nilDeref(fr)
			}
			x := v.get(fr)
			if tracked {
				in.touch(fr, p, ins, true)
			}
			if agg {
				in.store(p, copyVal(x))
				return
			}
			if in.initDepth == 0 {
				in.path.undo = append(in.path.undo, undoEnt{p: p, old: *p})
			}
			*p = x
		}
	case *ssa.TypeAssert:
		x := c.opd(ins.X)
		t := ins.AssertedType
		commaOk := ins.CommaOk
		it, isI := t.Underlying().(*types.Interface)
		z := zero(t)
		return func(fr *Frame) {
			fr.pos = pos
			v, ok := x.get(fr).(Iface)
			if !ok {
				panic(engineErr("type assert on %T", x.get(fr)))
			}
			good := false
			if v.t != nil {
				if isI {
					good = in.implements(v.t, it)
				} else {
					good = sameType(v.t, t)
				}
			}
			var r Value
			if good {
				if isI {
					r = v
				} else {
					r = copyVal(v.v)
				}
			} else {
				if !commaOk {
					dyn := "nil"
					if v.t != nil {
						dyn = v.t.String()
					}
					in.targetPanic("interface conversion: interface is " + dyn + ", not " + t.String())
				}
				r = copyVal(z)
			}
			if commaOk {
				fr.regs[dst] = Tuple{r, good}
			} else {
				fr.regs[dst] = r
			}
		}
	case *ssa.Go:
		ci := c.callInfo(ins)
		fnv, args := c.callTarget(ins)
		return func(fr *Frame) {
			fr.pos = pos
			if in.initDepth > 0 {
				return
			}
			f, as := fnv(fr), args(fr)
			in.spawn(fr, f, as, ci)
		}
	case *ssa.Defer:
		ci := c.callInfo(ins)
		fnv, args := c.callTarget(ins)
		return func(fr *Frame) {
			fr.pos = pos
			fr.defers = append(fr.defers, deferred{fn: fnv(fr), args: args(fr), call: ci})
		}
	}
	panic(unsupported(fmt.Sprintf("instruction %T", ins)))
}

func onlyLoaded(ins *ssa.IndexAddr) bool {
	for _, r := range *ins.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

func (c *compiler) callInfo(ins ssa.CallInstruction) *callInfo {
	cc := ins.Common()
	ci := &callInfo{ins: ins, sig: cc.Signature(), args: cc.Args}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		ci.builtin = b.Name()
	}
	return ci
}

// callTarget returns evaluators for the callee (a *Closure) and arguments.
func (c *compiler) callTarget(ins ssa.CallInstruction) (func(*Frame) Value, func(*Frame) []Value) {
	cc := ins.Common()
	in := c.in
	args := c.opds(cc.Args)
	agg := make([]bool, len(args))
	for i := range args {
		agg[i] = isAgg(cc.Args[i].Type())
	}
	getArgs := func(fr *Frame) []Value {
		out := make([]Value, len(args), len(args)+1)
		for i, o := range args {
			v := o.get(fr)
			if agg[i] {
				v = copyVal(v)
			}
			out[i] = v
		}
		return out
	}
	if cc.IsInvoke() {
		recv := c.opd(cc.Value)
		m := cc.Method
		return func(fr *Frame) Value {
				r := recv.get(fr).(Iface)
				if r.t == nil {
					in.nilDeref(fr)
				}
				if nr, ok := r.v.(nativeRecv); ok {
					return in.natFunc(func(fr *Frame, args []Value) Value { return nr.call(in, fr, m.Name(), args[1:]) })
				}
				f := in.method(r.t, m)
				if f == nil {
					panic(engineErr("no method %s on %s", m.Name(), r.t))
				}
				return in.closureOf(f)
			}, func(fr *Frame) []Value {
				r := recv.get(fr).(Iface)
				a := getArgs(fr)
				out := make([]Value, 0, len(a)+1)
				out = append(out, copyVal(r.v))
				return append(out, a...)
			}
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return func(fr *Frame) Value { return nil }, getArgs
	}
	fv := c.opd(cc.Value)
	return fv.get, getArgs
}

// nativeRecv is an engine-made object behind an interface value.
type nativeRecv interface {
	call(in *Interp, fr *Frame, method string, args []Value) Value
}

func (c *compiler) call(ins *ssa.Call, dst int) cop {
	in := c.in
	cc := ins.Common()
	ci := c.callInfo(ins)
	fnv, args := c.callTarget(ins)
	pos := ins.Pos()
	resAgg := false
	_ = resAgg
	if ci.builtin != "" {
		return func(fr *Frame) {
			fr.pos = pos
			fr.regs[dst] = in.callBuiltin(fr, ci, args(fr))
		}
	}
	isInit := c.fn.f.Synthetic == "package initializer"
	if isInit {
		if callee := cc.StaticCallee(); callee != nil {
			if callee.Synthetic == "package initializer" {
				return func(fr *Frame) {} // other packages initialise lazily
			}
		}
		rt := cc.Signature().Results()
		return func(fr *Frame) {
			fr.pos = pos
			r := in.tolerant(fr, func() Value { return in.callValue(fr, fnv(fr), args(fr)) }, rt)
			fr.regs[dst] = r
		}
	}
	if callee := cc.StaticCallee(); callee != nil && !cc.IsInvoke() {
		var fn *Fn
		if _, isClosure := cc.Value.(*ssa.MakeClosure); !isClosure {
			return func(fr *Frame) {
				fr.pos = pos
				if fn == nil {
					fn = in.fnOf(callee)
				}
				as := args(fr)
				if fn.intr != nil {
					r := fn.intr(in, fr, as)
					if r != notHandled {
						fr.regs[dst] = r
						return
					}
				}
				fr.regs[dst] = in.callBody(fr, fn, as, nil, nil)
			}
		}
	}
	return func(fr *Frame) {
		fr.pos = pos
		fr.regs[dst] = in.callValue(fr, fnv(fr), args(fr))
	}
}

func (in *Interp) tolerant(fr *Frame, f func() Value, rt *types.Tuple) (res Value) {
	th := fr.th
	d := th.depth
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(pathEnd); ok && e.kind == endKilled {
				panic(r)
			}
			th.top = fr
			th.depth = d
			in.run.noteInit(fr.fn.name, fmt.Sprint(r))
			res = zero(rt)
		}
	}()
	return f()
}

func (c *compiler) slice(ins *ssa.Slice, dst int) cop {
	in := c.in
	x := c.opd(ins.X)
	var lo, hi, mx opd
	hasLo, hasHi, hasMax := ins.Low != nil, ins.High != nil, ins.Max != nil
	var kl, kh, km intKind
	if hasLo {
		lo = c.opd(ins.Low)
		kl, _ = basicInt(ins.Low.Type())
	}
	if hasHi {
		hi = c.opd(ins.High)
		kh, _ = basicInt(ins.High.Type())
	}
	if hasMax {
		mx = c.opd(ins.Max)
		km, _ = basicInt(ins.Max.Type())
	}
	pos := ins.Pos()
	return func(fr *Frame) {
		fr.pos = pos
		v := x.get(fr)
		var l, h, m int64 = 0, -1, -1
		if hasLo {
			l = in.concInt(lo.get(fr), kl)
		}
		if hasHi {
			h = in.concInt(hi.get(fr), kh)
			if h < 0 {
				in.targetPanic("runtime error: slice bounds out of range")
			}
		}
		if hasMax {
			m = in.concInt(mx.get(fr), km)
			if m < 0 {
				in.targetPanic("runtime error: slice bounds out of range")
			}
		}
		switch s := v.(type) {
		case string, *SymStr:
			n := int64(strLen(s))
			if h < 0 {
				h = n
			}
			if l < 0 || l > h || h > n {
				in.targetPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.regs[dst] = strSub(s, int(l), int(h))
			return
		case *Value:
			a, ok := in.load(s, fr).(Array)
			if !ok {
				panic(unsupported("slice of non-array pointer"))
			}
			fr.regs[dst] = in.reslice(Slice(a), l, h, m)
			return
		case Slice:
			fr.regs[dst] = in.reslice(s, l, h, m)
			return
		}
		panic(engineErr("slice of %T", v))
	}
}

func (in *Interp) reslice(s Slice, l, h, m int64) Value {
	if h < 0 {
		h = int64(len(s))
	}
	c := int64(cap(s))
	if m < 0 {
		m = c
	}
	if l < 0 || l > h || h > m || m > c {
		in.targetPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, c))
	}
	if s == nil {
		return Slice(nil)
	}
	return s[l:h:m]
}

// ---- purity (for merging calls)

func (in *Interp) mergeable(fn *Fn, args []Value) bool {
	if fn.pure == 2 {
		return false
	}
	if fn.harness {
		if fn.pure == 0 {
			fn.pure = 2
			if strings.HasPrefix(fn.f.Name(), "spec") {
				fn.pure = 1
			}
		}
		return fn.pure == 1
	}
	if fn.pure == 0 {
		fn.pure = 2
		if in.staticPure(fn.f, 0) {
			fn.pure = 1
		}
	}
	return fn.pure == 1 && anySym(args)
}

func scalarT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func (in *Interp) staticPure(f *ssa.Function, depth int) bool {
	if depth > 3 || len(f.Blocks) == 0 || f.Recover != nil || len(f.FreeVars) > 0 {
		return false
	}
	if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() == 0 || rs.Len() > 2 {
		return false
	}
	for i := 0; i < rs.Len(); i++ {
		if !scalarT(rs.At(i).Type()) {
			return false
		}
	}
	for _, p := range f.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				return false
			}
		case *types.Slice:
			if !scalarT(u.Elem()) {
				return false
			}
		default:
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				if !localAddr(ins.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure, *ssa.RunDefers, *ssa.MakeMap,
				*ssa.MakeChan, *ssa.TypeAssert:
				return false
			case *ssa.Call:
				cc := ins.Common()
				if cc.IsInvoke() {
					return false
				}
				if bl, ok := cc.Value.(*ssa.Builtin); ok {
					switch bl.Name() {
					case "len", "cap", "min", "max":
						continue
					}
					return false
				}
				callee := cc.StaticCallee()
				if callee == nil {
					return false
				}
				if pureIntrinsics[callee.String()] {
					continue
				}
				if intrinsics[callee.String()] != nil || !in.staticPure(callee, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(v.X)
	case *ssa.IndexAddr:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return localAddr(v.X)
		}
	}
	return false
}

var _ = constant.MakeBool
