package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(in *Interp, fr *Frame, args []Value) Value

type notHandledT struct{}

var notHandled = notHandledT{}

type Interp struct {
	prog      *Program
	run       *Run
	tc        *TermCtx
	sol       *Solver
	path      *Path
	fns       map[*ssa.Function]*Fn
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]bool
	initDepth int
	methods   map[methodKey]*ssa.Function
	impls     map[implKey]bool
	closures  map[*ssa.Function]*Closure
	sch       *Sched
	nextID    int64
	epochCtr  int64
	env       *Env
	onBlock   func(th *Thread)
}

type methodKey struct {
	t types.Type
	f string
}
type implKey struct {
	t, i types.Type
}

type Fn struct {
	f        *ssa.Function
	name     string
	intr     Intrinsic
	blocks   []cblock
	nregs    int
	nparams  int
	nfree    int
	hasDefer bool
	compiled bool
	repo     bool // function of the module under check
	harness  bool
	track    bool // memory accesses are watched
	visible  bool // calls from here are scheduling points
	pure     int8 // 0 unknown 1 pure 2 not
	seen     bool
}

type opd struct {
	idx int
	v   Value
}

func (o opd) get(fr *Frame) Value {
	if o.idx >= 0 {
		return fr.regs[o.idx]
	}
	return o.v
}

type cop func(fr *Frame)

type phiMove struct {
	dst int
	src opd
}

type cblock struct {
	ops  []cop
	term func(fr *Frame) int
	phis map[int][]phiMove
	n    int64
}

type deferred struct {
	fn   Value
	args []Value
	call *callInfo
}

type Frame struct {
	in      *Interp
	fn      *Fn
	regs    []Value
	prev    int
	defers  []deferred
	result  Value
	pan     *targetPanicT
	recov   bool
	deferOf *Frame
	caller  *Frame
	th      *Thread
	pos     token.Pos
}

func (in *Interp) posStr(fr *Frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.pos.IsValid() && (f.fn.repo || f.fn.harness) {
			p := in.prog.fset.Position(f.pos)
			return fmt.Sprintf("%s:%d", trimRepo(p.Filename), p.Line)
		}
	}
	return ""
}

func (in *Interp) targetPanic(msg string) {
	var fr *Frame
	if in.sch != nil && in.sch.cur != nil {
		fr = in.sch.cur.top
	}
	panic(&targetPanicT{v: Iface{t: in.prog.runtimeErrT, v: msg}, msg: msg, pos: in.posStr(fr)})
}

func (in *Interp) fnOf(f *ssa.Function) *Fn {
	if fn, ok := in.fns[f]; ok {
		return fn
	}
	fn := &Fn{f: f}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	fn.name = o.String()
	fn.intr = intrinsics[fn.name]
	pkg := pkgPathOf(f)
	if strings.HasPrefix(pkg, repoModule) {
		file := in.prog.fset.Position(f.Pos()).Filename
		if strings.Contains(file, "zz_verif") {
			fn.harness = true
		} else {
			fn.repo = true
		}
		if f.Synthetic != "" && f.Pos() == token.NoPos {
			fn.repo = false
		}
	}
	fn.visible = fn.repo
	fn.track = fn.repo || pkg == "github.com/kpango/gache"
	if fn.intr == nil && pkg == glgPkg {
		fn.intr = glgIntr(f)
	}
	if fn.intr == nil && pkg == "regexp" {
		fn.intr = regexpFallback(f)
	}
	if fn.intr == nil && pkg == vfPkg {
		if vi, ok := vfIntrinsics[f.Name()]; ok {
			fn.intr = vi
		} else if f.Name() != "init" {
			fn.intr = func(in *Interp, fr *Frame, args []Value) Value {
				panic(engineErr("vf function %s has no intrinsic", f.Name()))
			}
		}
	}
	fn.intr = raceWrap(fn.name, fn.intr)
	in.fns[f] = fn
	return fn
}

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return f.Origin().Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Parent() != nil {
		return pkgPathOf(f.Parent())
	}
	return ""
}

// ---- memory

func (in *Interp) load(p Value, fr *Frame) Value {
	c, ok := p.(*Value)
	if !ok {
		panic(engineErr("load through %T", p))
	}
	if c == nil {
		in.nilDeref(fr)
	}
	return *c
}

func (in *Interp) nilDeref(fr *Frame) {
	in.targetPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (in *Interp) setCell(c *Value, v Value) {
	if in.initDepth == 0 {
		in.path.undo = append(in.path.undo, undoEnt{p: c, old: *c})
	}
	*c = v
}

// store writes v (already a private copy) through pointer p.
func (in *Interp) store(c *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		d, ok := (*c).(Struct)
		if ok && len(d) == len(x) {
			for i := range x {
				in.store(&d[i], x[i])
			}
			return
		}
	case Array:
		d, ok := (*c).(Array)
		if ok && len(d) == len(x) {
			for i := range x {
				in.store(&d[i], x[i])
			}
			return
		}
	}
	in.setCell(c, v)
}

func (in *Interp) onUndo(f func()) {
	if in.initDepth == 0 {
		in.path.undo = append(in.path.undo, undoEnt{f: f})
	}
}

func (in *Interp) rollback() {
	u := in.path.undo
	for i := len(u) - 1; i >= 0; i-- {
		if u[i].f != nil {
			u[i].f()
		} else {
			*u[i].p = u[i].old
		}
	}
	in.path.undo = nil
}

// ---- globals and package init

func (in *Interp) global(g *ssa.Global) *Value {
	if c, ok := in.globals[g]; ok {
		return c
	}
	c := new(Value)
	*c = zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = c
	return c
}

func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	if skipInit[p.Pkg.Path()] {
		return
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	saved := in.path.merge
	in.path.merge = nil
	in.initDepth++
	steps := in.path.steps
	th := in.sch.cur
	top := th.top
	defer func() {
		in.initDepth--
		in.path.steps = steps
		in.path.merge = saved
		th.top = top
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(pathEnd); ok && e.kind == endKilled {
					panic(r)
				}
				in.run.noteInit(p.Pkg.Path(), fmt.Sprint(r))
			}
		}()
		in.callSSA(nil, init, nil, nil)
	}()
}

// ---- calls

func (in *Interp) callValue(fr *Frame, f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok {
		panic(engineErr("call of %T", f))
	}
	if c == nil {
		in.nilDeref(fr)
	}
	if c.nat != nil {
		return c.nat(fr, args)
	}
	if c.blt != nil {
		panic(unsupported("builtin as value"))
	}
	return in.callSSA(fr, c.fn, args, c.env)
}

func anySym(args []Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *Term, *SymStr:
			return true
		case Slice:
			for _, e := range x {
				if _, ok := e.(*Term); ok {
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) callSSA(fr *Frame, f *ssa.Function, args []Value, env []Value) Value {
	fn := in.fnOf(f)
	if fn.intr != nil {
		r := fn.intr(in, fr, args)
		if r != notHandled {
			return r
		}
	}
	return in.callBody(fr, fn, args, env, nil)
}

func (in *Interp) callBody(fr *Frame, fn *Fn, args []Value, env []Value, deferOf *Frame) Value {
	f := fn.f
	if len(f.Blocks) == 0 {
		panic(unsupported("function without body: " + fn.name))
	}
	if deferOf == nil && in.initDepth == 0 && in.mergeable(fn, args) {
		v, ok := in.callMerged(func() Value { return in.exec(fr, fn, args, env, nil) }, f.Signature.Results())
		if ok {
			in.run.noteFn(fn)
			return v
		}
		if fn.harness {
			in.run.note("spec function " + fn.name + " could not be merged on some path (explored by forking)")
		}
	}
	return in.exec(fr, fn, args, env, deferOf)
}

func (in *Interp) exec(caller *Frame, fn *Fn, args []Value, env []Value, deferOf *Frame) Value {
	if !fn.compiled {
		in.compile(fn)
	}
	if !fn.seen {
		fn.seen = true
		if in.initDepth == 0 {
			in.run.noteFn(fn)
		} else {
			fn.seen = false
		}
	}
	fr := &Frame{in: in, fn: fn, caller: caller, deferOf: deferOf, prev: -1}
	if caller != nil {
		fr.th = caller.th
	} else {
		fr.th = in.sch.cur
	}
	fr.regs = make([]Value, fn.nregs)
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], env)
	th := fr.th
	oldTop := th.top
	th.top = fr
	d := th.depth
	th.depth++
	if d > 3000 {
		panic(pathEnd{endLimit, "call depth limit in " + fn.name})
	}
	if fn.hasDefer {
		in.execDefer(fr)
	} else {
		in.runBlocks(fr, 0)
	}
	th.depth = d
	th.top = oldTop
	return fr.result
}

func (in *Interp) runBlocks(fr *Frame, b int) {
	p := in.path
	var tmp [8]Value
	for b >= 0 {
		blk := &fr.fn.blocks[b]
		if blk.phis != nil {
			mv := blk.phis[fr.prev]
			var vals []Value
			if len(mv) <= len(tmp) {
				vals = tmp[:len(mv)]
			} else {
				vals = make([]Value, len(mv))
			}
			for i := range mv {
				vals[i] = mv[i].src.get(fr)
			}
			for i := range mv {
				fr.regs[mv[i].dst] = vals[i]
			}
		}
		p.steps += blk.n
		if p.steps > in.run.maxSteps {
			if in.initDepth == 0 {
				panic(pathEnd{endLimit, "step limit"})
			}
			p.steps = 0
		}
		if in.run.stopped.Load() {
			panic(pathEnd{endKilled, "stopped"})
		}
		for _, op := range blk.ops {
			op(fr)
		}
		fr.prev = b
		b = blk.term(fr)
	}
}

func (in *Interp) execDefer(fr *Frame) {
	th := fr.th
	depth := th.depth
	tp := in.catch(func() { in.runBlocks(fr, 0) })
	if tp == nil {
		return
	}
	fr.pan = tp
	for {
		th.depth = depth
		th.top = fr
		t2 := in.catch(func() { in.runDefers(fr) })
		if t2 == nil {
			break
		}
		fr.pan = t2 // a deferred call panicked: it replaces the current panic
		fr.recov = false
	}
	th.depth = depth
	th.top = fr
	if fr.pan != nil {
		panic(fr.pan)
	}
	if rb := fr.fn.f.Recover; rb != nil {
		fr.prev = -1
		in.runBlocks(fr, rb.Index)
	} else {
		fr.result = zero(fr.fn.f.Signature.Results())
	}
}

func (in *Interp) catch(f func()) (tp *targetPanicT) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(*targetPanicT); ok {
				tp = t
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// runDefers runs the frame's deferred calls, last first.
func (in *Interp) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.callDeferred(fr, d)
	}
}

func (in *Interp) callDeferred(fr *Frame, d deferred) {
	if d.call != nil && d.call.builtin != "" {
		in.callBuiltin(fr, d.call, d.args)
		return
	}
	c, ok := d.fn.(*Closure)
	if !ok || c == nil {
		in.nilDeref(fr)
	}
	if c.nat != nil {
		c.nat(fr, d.args)
		return
	}
	fn := in.fnOf(c.fn)
	if fn.intr != nil {
		if r := fn.intr(in, fr, d.args); r != notHandled {
			return
		}
	}
	in.callBody(fr, fn, d.args, c.env, fr)
}

func (in *Interp) closureOf(f *ssa.Function) *Closure {
	if c, ok := in.closures[f]; ok {
		return c
	}
	c := &Closure{fn: f}
	in.closures[f] = c
	return c
}

func (in *Interp) natFunc(f func(fr *Frame, args []Value) Value) *Closure { return &Closure{nat: f} }

// method finds the implementation of an interface method on dynamic type t.
func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Id()}
	if f, ok := in.methods[k]; ok {
		return f
	}
	f := in.prog.lookupMethod(t, m.Pkg(), m.Name())
	in.methods[k] = f
	return f
}

// callMethod invokes a method by name on a dynamic value; ok=false if absent.
func (in *Interp) callMethod(fr *Frame, v Iface, name string, args ...Value) (Value, bool) {
	if v.t == nil {
		return nil, false
	}
	f := in.prog.lookupMethod(v.t, nil, name)
	if f == nil {
		return nil, false
	}
	return in.callSSA(fr, f, append([]Value{v.v}, args...), nil), true
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if b, ok := in.impls[k]; ok {
		return b
	}
	b := types.Implements(t, it)
	in.impls[k] = b
	return b
}

// ---- constants

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	u := t.Underlying()
	if tp, ok := u.(*types.TypeParam); ok {
		panic(unsupported("constant of type parameter " + tp.String()))
	}
	b, ok := u.(*types.Basic)
	if !ok {
		panic(unsupported("constant of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		k, _ := basicInt(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return k.norm(i)
		}
		u, _ := constant.Uint64Val(v)
		return k.norm(int64(u))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	panic(unsupported("constant " + c.String()))
}

// whereNow names the innermost function and the innermost repository position.
func (in *Interp) whereNow() string {
	if in.sch == nil || in.sch.cur == nil || in.sch.cur.top == nil {
		return "?"
	}
	return in.sch.cur.top.fn.name + " @ " + in.posStr(in.sch.cur.top)
}
