package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) concInt(v Value, k intKind) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		x := in.path.concretize(v)
		if k.signed {
			return sext64(x, v.w)
		}
		return int64(x)
	}
	panic(engineErr("concInt of %T", v))
}

// indexVals reads vs[i] for a possibly symbolic i.
func (in *Interp) indexVals(fr *Frame, vs []Value, iv Value, k intKind, et types.Type) Value {
	if i, ok := iv.(int64); ok {
		if i < 0 || i >= int64(len(vs)) {
			in.targetPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(vs)))
		}
		return copyVal(vs[i])
	}
	t := iv.(*Term)
	tc := in.tc
	inb := tc.tTrue
	if uint64(len(vs)) <= maskW(t.w) {
		if k.signed && t.slo < 0 || true {
			inb = tc.Ult(t, tc.Const(t.w, uint64(len(vs))))
		}
	}
	if !in.path.decide(inb) {
		in.targetPanic("runtime error: index out of range (symbolic index)")
	}
	ek, isInt := basicInt(et)
	b, isB := et.Underlying().(*types.Basic)
	isBool := isB && b.Info()&types.IsBoolean != 0
	if (!isInt && !isBool) || len(vs) > 256 {
		return copyVal(vs[in.concInt(t, k)])
	}
	// group equal constants into ranges
	type grp struct {
		v    Value
		cond *Term
	}
	var gs []grp
	lo, hi := uint64(0), uint64(len(vs)-1)
	if t.slo >= 0 {
		lo = max(lo, uint64(t.slo))
		hi = min(hi, uint64(t.shi))
	}
	i := lo
	for i <= hi && i < uint64(len(vs)) {
		j := i
		for j+1 <= hi && j+1 < uint64(len(vs)) && vs[j+1] == vs[i] {
			j++
		}
		var c *Term
		if i == j {
			c = tc.Eq(t, tc.Const(t.w, i))
		} else {
			c = tc.And(tc.Ule(tc.Const(t.w, i), t), tc.Ule(t, tc.Const(t.w, j)))
		}
		found := false
		for g := range gs {
			if gs[g].v == vs[i] {
				gs[g].cond = tc.Or(gs[g].cond, c)
				found = true
				break
			}
		}
		if !found {
			gs = append(gs, grp{vs[i], c})
		}
		i = j + 1
	}
	if isInt {
		r := in.iterm(gs[len(gs)-1].v, ek)
		for g := len(gs) - 2; g >= 0; g-- {
			r = tc.Ite(gs[g].cond, in.iterm(gs[g].v, ek), r)
		}
		return ival(r, ek)
	}
	r := in.bterm(gs[len(gs)-1].v)
	for g := len(gs) - 2; g >= 0; g-- {
		r = tc.Ite(gs[g].cond, in.bterm(gs[g].v), r)
	}
	return bval(r)
}

func (in *Interp) indexStr(fr *Frame, s Value, iv Value, k intKind) Value {
	if i, ok := iv.(int64); ok {
		if i < 0 || i >= int64(strLen(s)) {
			in.targetPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, strLen(s)))
		}
		return strAt(s, int(i))
	}
	return in.indexVals(fr, strBytes(s), iv, k, types.Typ[types.Uint8])
}

func (c *compiler) binop(ins *ssa.BinOp, dst int) cop {
	in := c.in
	x, y := c.opd(ins.X), c.opd(ins.Y)
	op := ins.Op
	t := ins.X.Type()
	pos := ins.Pos()
	if k, ok := basicInt(t); ok {
		ky, _ := basicInt(ins.Y.Type())
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			ai, ok1 := a.(int64)
			bi, ok2 := b.(int64)
			if ok1 && ok2 {
				switch op {
				case token.ADD:
					fr.regs[dst] = k.norm(ai + bi)
					return
				case token.SUB:
					fr.regs[dst] = k.norm(ai - bi)
					return
				case token.EQL:
					fr.regs[dst] = ai == bi
					return
				case token.NEQ:
					fr.regs[dst] = ai != bi
					return
				case token.LSS:
					if k.signed || k.w < 64 {
						fr.regs[dst] = ai < bi
						return
					}
				case token.GEQ:
					if k.signed || k.w < 64 {
						fr.regs[dst] = ai >= bi
						return
					}
				}
			}
			fr.pos = pos
			fr.regs[dst] = in.intBin(op, a, b, k, ky)
		}
	}
	return func(fr *Frame) {
		fr.pos = pos
		fr.regs[dst] = in.otherBin(op, x.get(fr), y.get(fr), t)
	}
}

func (in *Interp) intBin(op token.Token, a, b Value, k, ky intKind) Value {
	ai, ok1 := a.(int64)
	bi, ok2 := b.(int64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return k.norm(ai + bi)
		case token.SUB:
			return k.norm(ai - bi)
		case token.MUL:
			return k.norm(ai * bi)
		case token.QUO, token.REM:
			if bi == 0 {
				in.targetPanic("runtime error: integer divide by zero")
			}
			if k.signed {
				if bi == -1 {
					if op == token.QUO {
						return k.norm(-ai)
					}
					return int64(0)
				}
				if op == token.QUO {
					return k.norm(ai / bi)
				}
				return k.norm(ai % bi)
			}
			if op == token.QUO {
				return k.norm(int64(uint64(ai) / uint64(bi)))
			}
			return k.norm(int64(uint64(ai) % uint64(bi)))
		case token.AND:
			return k.norm(ai & bi)
		case token.OR:
			return k.norm(ai | bi)
		case token.XOR:
			return k.norm(ai ^ bi)
		case token.AND_NOT:
			return k.norm(ai &^ bi)
		case token.SHL, token.SHR:
			if ky.signed && bi < 0 {
				in.targetPanic("runtime error: negative shift amount")
			}
			s := uint64(bi)
			if op == token.SHL {
				if s >= 64 {
					return int64(0)
				}
				return k.norm(ai << s)
			}
			if k.signed {
				if s >= 64 {
					s = 63
				}
				return k.norm(ai >> s)
			}
			if s >= 64 {
				return int64(0)
			}
			return k.norm(int64(uint64(ai) >> s))
		case token.EQL:
			return ai == bi
		case token.NEQ:
			return ai != bi
		}
		var lt, eq bool
		eq = ai == bi
		if k.signed || k.w < 64 {
			lt = ai < bi
		} else {
			lt = uint64(ai) < uint64(bi)
		}
		switch op {
		case token.LSS:
			return lt
		case token.LEQ:
			return lt || eq
		case token.GTR:
			return !lt && !eq
		case token.GEQ:
			return !lt
		}
		panic(engineErr("int op %s", op))
	}
	tc := in.tc
	if op == token.SHL || op == token.SHR {
		x := in.iterm(a, k)
		var s *Term
		if ok2 {
			if ky.signed && bi < 0 {
				in.targetPanic("runtime error: negative shift amount")
			}
			u := uint64(bi)
			if u > 255 {
				u = 255
			}
			if k.w == 8 && u > 127 {
				u = 127
			}
			s = tc.Const(k.w, u)
		} else {
			st := b.(*Term)
			if ky.signed && st.slo < 0 {
				if in.path.decide(tc.Slt(st, tc.Const(st.w, 0))) {
					in.targetPanic("runtime error: negative shift amount")
				}
			}
			if st.w > k.w {
				// clamp large shifts before narrowing
				big := tc.Ule(tc.Const(st.w, uint64(k.w)), st)
				s = tc.Ite(big, tc.Const(k.w, uint64(k.w)), tc.Resize(st, k.w, false))
			} else {
				s = tc.Resize(st, k.w, false)
			}
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if k.signed {
				o = OAshr
			}
		}
		return ival(tc.Bin(o, x, s), k)
	}
	x, y := in.iterm(a, k), in.iterm(b, k)
	switch op {
	case token.ADD:
		return ival(tc.Bin(OAdd, x, y), k)
	case token.SUB:
		return ival(tc.Bin(OSub, x, y), k)
	case token.MUL:
		return ival(tc.Bin(OMul, x, y), k)
	case token.QUO, token.REM:
		if in.path.decide(tc.Eq(y, tc.Const(k.w, 0))) {
			in.targetPanic("runtime error: integer divide by zero")
		}
		o := OUdiv
		switch {
		case op == token.QUO && k.signed:
			o = OSdiv
		case op == token.REM && k.signed:
			o = OSrem
		case op == token.REM:
			o = OUrem
		}
		return ival(tc.Bin(o, x, y), k)
	case token.AND:
		return ival(tc.Bin(OBand, x, y), k)
	case token.OR:
		return ival(tc.Bin(OBor, x, y), k)
	case token.XOR:
		return ival(tc.Bin(OBxor, x, y), k)
	case token.AND_NOT:
		return ival(tc.Bin(OBand, x, tc.BNot(y)), k)
	case token.EQL:
		return bval(tc.Eq(x, y))
	case token.NEQ:
		return bval(tc.Not(tc.Eq(x, y)))
	}
	lt := func(p, q *Term) *Term {
		if k.signed {
			return tc.Slt(p, q)
		}
		return tc.Ult(p, q)
	}
	le := func(p, q *Term) *Term {
		if k.signed {
			return tc.Sle(p, q)
		}
		return tc.Ule(p, q)
	}
	switch op {
	case token.LSS:
		return bval(lt(x, y))
	case token.LEQ:
		return bval(le(x, y))
	case token.GTR:
		return bval(lt(y, x))
	case token.GEQ:
		return bval(le(y, x))
	}
	panic(engineErr("int op %s", op))
}

func (in *Interp) otherBin(op token.Token, a, b Value, t types.Type) Value {
	switch op {
	case token.EQL:
		return bval(in.eqVal(a, b))
	case token.NEQ:
		return bval(in.tc.Not(in.eqVal(a, b)))
	}
	switch x := a.(type) {
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return bval(in.strLess(a, b, false))
		case token.LEQ:
			return bval(in.strLess(a, b, true))
		case token.GTR:
			return bval(in.strLess(b, a, false))
		case token.GEQ:
			return bval(in.strLess(b, a, true))
		}
	case float64:
		y, ok := b.(float64)
		if !ok {
			break
		}
		is32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		r := func(f float64) Value {
			if is32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(x + y)
		case token.SUB:
			return r(x - y)
		case token.MUL:
			return r(x * y)
		case token.QUO:
			return r(x / y)
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case complex128:
		y, ok := b.(complex128)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	case bool, *Term:
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			switch op {
			case token.AND, token.LAND:
				return bval(in.tc.And(in.bterm(a), in.bterm(b)))
			case token.OR, token.LOR:
				return bval(in.tc.Or(in.bterm(a), in.bterm(b)))
			}
		}
	}
	panic(unsupported(fmt.Sprintf("binary %s on %T, %T (%s)", op, a, b, t)))
}

func (c *compiler) unop(ins *ssa.UnOp, dst int) cop {
	in := c.in
	x := c.opd(ins.X)
	pos := ins.Pos()
	switch ins.Op {
	case token.MUL:
		agg := isAgg(ins.Type())
		u := ins.Type().Underlying()
		isStr, isBS := false, false
		tracked := c.tracks(ins.X)
		if b, ok := u.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			isStr = true
		}
		if s, ok := u.(*types.Slice); ok {
			if k, ok := basicInt(s.Elem()); ok && k.w == 8 {
				isBS = true
			}
		}
		return func(fr *Frame) {
			p, ok := x.get(fr).(*Value)
			if !ok {
				panic(unsupported(fmt.Sprintf("load through %T", x.get(fr))))
			}
			if p == nil {
				fr.pos = pos
				in.nilDeref(fr)
			}
			if tracked {
				in.touch(fr, p, ins, false)
			}
			v := *p
			switch {
			case agg:
				v = copyVal(v)
			case isStr:
				if s, ok := v.(Slice); ok { // []byte viewed as string
					v = bytesToStr(s)
				}
			case isBS:
				switch v.(type) {
				case string, *SymStr: // string viewed as []byte
					v = strToBytes(v)
				}
			}
			fr.regs[dst] = v
		}
	case token.NOT:
		return func(fr *Frame) {
			switch v := x.get(fr).(type) {
			case bool:
				fr.regs[dst] = !v
			case *Term:
				fr.regs[dst] = bval(in.tc.Not(v))
			}
		}
	case token.SUB:
		if k, ok := basicInt(ins.X.Type()); ok {
			return func(fr *Frame) {
				switch v := x.get(fr).(type) {
				case int64:
					fr.regs[dst] = k.norm(-v)
				case *Term:
					fr.regs[dst] = ival(in.tc.Neg(v), k)
				}
			}
		}
		return func(fr *Frame) {
			switch v := x.get(fr).(type) {
			case float64:
				fr.regs[dst] = -v
			case complex128:
				fr.regs[dst] = -v
			default:
				panic(unsupported("negate"))
			}
		}
	case token.XOR:
		k, _ := basicInt(ins.X.Type())
		return func(fr *Frame) {
			switch v := x.get(fr).(type) {
			case int64:
				fr.regs[dst] = k.norm(^v)
			case *Term:
				fr.regs[dst] = ival(in.tc.BNot(v), k)
			}
		}
	case token.ARROW:
		commaOk := ins.CommaOk
		et := ins.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *Frame) {
			fr.pos = pos
			v, ok := in.chanRecv(fr, x.get(fr).(*Chan), et)
			if commaOk {
				fr.regs[dst] = Tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic(unsupported("unop " + ins.Op.String()))
}

// ---- conversion

func (in *Interp) convert(fr *Frame, v Value, from, to types.Type) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if types.Identical(uf, ut) {
		return v
	}
	switch ut := ut.(type) {
	case *types.Pointer, *types.Signature, *types.Chan, *types.Map, *types.Struct, *types.Array, *types.Interface:
		return v
	case *types.Slice:
		// string -> []byte / []rune
		if b, ok := uf.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			ek, _ := basicInt(ut.Elem())
			if ek.w == 8 {
				return strToBytes(v)
			}
			var out Slice
			out = Slice{}
			it := &strIter{s: v}
			for {
				t := in.strNext(fr, it).(Tuple)
				if !t[0].(bool) {
					break
				}
				out = append(out, t[2])
			}
			return out
		}
		return v
	case *types.Basic:
		if ut.Kind() == types.UnsafePointer {
			return v
		}
		if ut.Kind() == types.Uintptr {
			if _, ok := v.(*Value); ok {
				panic(unsupported("pointer to uintptr"))
			}
		}
		if ut.Info()&types.IsString != 0 {
			switch fb := uf.(type) {
			case *types.Slice:
				ek, _ := basicInt(fb.Elem())
				s := v.(Slice)
				if ek.w == 8 {
					return bytesToStr(s)
				}
				var out Value = ""
				for _, r := range s {
					out = strCat(out, in.runeStr(fr, r, intKind{32, true}))
				}
				return out
			case *types.Basic:
				if k, ok := basicInt(fb); ok {
					return in.runeStr(fr, v, k)
				}
				return v
			}
		}
		if tk, ok := basicInt(ut); ok {
			if fk, ok := basicInt(uf); ok {
				switch x := v.(type) {
				case int64:
					return tk.norm(x)
				case *Term:
					return ival(in.tc.Resize(x, tk.w, fk.signed), tk)
				}
			}
			if f, ok := v.(float64); ok {
				if tk.signed {
					return tk.norm(int64(f))
				}
				return tk.norm(int64(uint64(f)))
			}
			if of, ok := v.(*Opaque); ok && of.kind == "f64" {
				return in.convert(fr, of.v, of.t, to)
			}
		}
		if ut.Info()&types.IsFloat != 0 {
			if x, ok := v.(*Term); ok {
				// floating point is only computed on concrete values
				k, _ := basicInt(uf)
				v = in.concInt(x, k)
			}
			switch x := v.(type) {
			case int64:
				k, _ := basicInt(uf)
				var f float64
				if !k.signed && k.w == 64 {
					f = float64(uint64(x))
				} else {
					f = float64(x)
				}
				if ut.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case float64:
				if ut.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Term:
				panic(unsupported("symbolic integer to float"))
			}
		}
		if ut.Info()&types.IsComplex != 0 {
			return v
		}
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s of %T", from, to, v)))
}

func (in *Interp) runeStr(fr *Frame, v Value, k intKind) Value {
	switch x := v.(type) {
	case int64:
		if k.w == 64 && (x < 0 || x > 0x10ffff) {
			return "\uFFFD"
		}
		return string(rune(x))
	case *Term:
		tc := in.tc
		if in.path.decide(tc.Ult(x, tc.Const(x.w, 0x80))) {
			return mkStr([]Value{ival(tc.Resize(x, 8, false), intKind{8, false})})
		}
		t32 := tc.Resize(x, 32, false)
		f := in.prog.fn("unicode/utf8", "AppendRune")
		s := in.callSSA(fr, f, []Value{Slice(nil), ival(t32, intKind{32, true})}, nil)
		return bytesToStr(s.(Slice))
	}
	panic(engineErr("runeStr of %T", v))
}

// ---- iteration

type strIter struct {
	s Value
	i int
}

func (in *Interp) strNext(fr *Frame, it *strIter) Value {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{false, int64(0), int64(0)}
	}
	pos := int64(it.i)
	if s, ok := it.s.(string); ok {
		r, w := utf8.DecodeRuneInString(s[it.i:])
		it.i += w
		return Tuple{true, pos, int64(r)}
	}
	b := strAt(it.s, it.i)
	if t, ok := b.(*Term); ok {
		if in.path.decide(in.tc.Ult(t, in.tc.Const(8, 0x80))) {
			it.i++
			return Tuple{true, pos, ival(in.tc.Resize(t, 32, false), intKind{32, true})}
		}
	} else if c, ok := b.(int64); ok && c < 0x80 {
		it.i++
		return Tuple{true, pos, c}
	} else if _, ok := b.(*Opaque); ok {
		panic(unsupported("iterating over opaque text"))
	}
	f := in.prog.fn("unicode/utf8", "DecodeRuneInString")
	r := in.callBody(fr, in.fnOf(f), []Value{strSub(it.s, it.i, n)}, nil, nil).(Tuple)
	w := in.concInt(r[1], intKind{64, true})
	it.i += int(w)
	return Tuple{true, pos, r[0]}
}

type mapIter struct {
	m    *Map
	done map[int]bool
	next int
	free bool
}

func (in *Interp) mapNext(fr *Frame, it *mapIter, tt *types.Tuple) Value {
	m := it.m
	end := Tuple{false, nil, nil}
	if m == nil {
		return end
	}
	if it.free && in.path.merge == nil && in.initDepth == 0 && m.n > 1 && m.n <= in.path.mapOrderMax {
		if it.done == nil {
			it.done = map[int]bool{}
		}
		var cand []int
		for i := range m.ents {
			if m.ents[i].live && !it.done[i] {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return end
		}
		j := cand[in.path.choose(len(cand), "maporder", "sched")]
		in.path.nSched++
		it.done[j] = true
		return Tuple{true, m.ents[j].k, copyVal(m.ents[j].v)}
	}
	for it.next < len(m.ents) {
		e := m.ents[it.next]
		i := it.next
		it.next++
		if e.live && !it.done[i] {
			return Tuple{true, e.k, copyVal(e.v)}
		}
	}
	return end
}

// ---- maps

func (in *Interp) newMap(t *types.Map) *Map {
	return &Map{idx: map[any]int{}, t: t, epoch: in.curEpoch()}
}

func (in *Interp) curEpoch() int64 {
	if in.initDepth > 0 {
		return -1
	}
	return in.path.epoch
}

func (in *Interp) touchMap(m *Map) {
	if in.initDepth > 0 || m.epoch == in.path.epoch {
		return
	}
	// first mutation in this path of a map that outlives it: keep a copy
	old := *m
	ents := append([]mapEnt(nil), m.ents...)
	idx := make(map[any]int, len(m.idx))
	for k, v := range m.idx {
		idx[k] = v
	}
	in.onUndo(func() {
		*m = old
		m.ents, m.idx = ents, idx
	})
	m.epoch = in.path.epoch
}

// mapFind returns the entry index of key k or -1, forking on symbolic equality.
func (in *Interp) mapFind(m *Map, k Value) int {
	if m == nil || m.n == 0 {
		return -1
	}
	h, ok := hashKey(k)
	if ok {
		if i, found := m.idx[h]; found {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.targetPanic("runtime error: hash of unhashable type " + i.t.String())
	}
	for i := range m.ents {
		if !m.ents[i].live {
			continue
		}
		if ok {
			if _, c := hashKey(m.ents[i].k); c {
				continue
			}
		}
		if in.path.decide(in.eqVal(k, m.ents[i].k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapGet(m *Map, k Value) (Value, bool) {
	i := in.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.ents[i].v, true
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	i := in.mapFind(m, k)
	in.touchMap(m)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	h, ok := hashKey(k)
	m.ents = append(m.ents, mapEnt{k, v, true})
	m.n++
	if ok {
		m.idx[h] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (in *Interp) mapDelete(m *Map, k Value) {
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	in.touchMap(m)
	if h, ok := hashKey(m.ents[i].k); ok {
		delete(m.idx, h)
	} else {
		m.nsym--
	}
	m.ents[i].live = false
	m.n--
}

func (in *Interp) mapClear(m *Map) {
	in.touchMap(m)
	m.ents, m.idx, m.n, m.nsym = nil, map[any]int{}, 0, 0
}

// ---- builtins

func (in *Interp) callBuiltin(fr *Frame, ci *callInfo, args []Value) Value {
	switch ci.builtin {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			if hasOpaque(x) && !opaqueLenOK(fr) {
				// lengths and positions count elements consistently; only a comparison with
				// an absolute length is inexact, and counterexamples are replayed natively
				in.run.note("length of opaque text counted in elements at " + in.posStr(fr))
			}
			return int64(strLen(x))
		case Slice:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			in.raceMap(fr, x, ci, false)
			return int64(x.n)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case *Value:
			if x == nil {
				return ci.args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			}
			return int64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		case *Value:
			return int64(len((*x).(Array)))
		}
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			panic(engineErr("append to %T", args[0]))
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = []Value(y)
		case string, *SymStr:
			add = strBytes(y)
		default:
			panic(engineErr("append of %T", y))
		}
		if len(add) == 0 {
			return s
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			d := s[:n+len(add)]
			in.touchElems(fr, d[n:], ci, true)
			tmp := append([]Value(nil), add...)
			for i, v := range tmp {
				in.store(&d[n+i], copyVal(v))
			}
			return d
		}
		in.touchElems(fr, s, ci, false)
		nc := growCap(cap(s), n+len(add))
		d := make(Slice, n+len(add), nc)
		for i := range s {
			d[i] = copyVal(s[i])
		}
		for i, v := range add {
			d[n+i] = copyVal(v)
		}
		// spare capacity must hold zero values of the element type
		if et, ok := ci.sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
			full := d[:nc]
			agg := isAgg(et.Elem())
			var z Value
			if !agg {
				z = zero(et.Elem())
			}
			for i := len(d); i < nc; i++ {
				if agg {
					full[i] = zero(et.Elem())
				} else {
					full[i] = z
				}
			}
		}
		return d
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = []Value(y)
		case string, *SymStr:
			src = strBytes(y)
		}
		n := min(len(d), len(src))
		in.touchElems(fr, d[:n], ci, true)
		if y, ok := args[1].(Slice); ok {
			in.touchElems(fr, y[:n], ci, false)
		}
		tmp := append([]Value(nil), src[:n]...)
		for i := 0; i < n; i++ {
			in.store(&d[i], copyVal(tmp[i]))
		}
		return int64(n)
	case "close":
		in.chanClose(fr, args[0].(*Chan))
		return nil
	case "delete":
		if m := args[0].(*Map); m != nil {
			in.raceMap(fr, m, ci, true)
			in.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				in.raceMap(fr, x, ci, true)
				in.mapClear(x)
			}
		case Slice:
			et := ci.args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				in.store(&x[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(&targetPanicT{v: args[0], msg: in.panicMsg(fr, args[0]), pos: in.posStr(fr)})
	case "recover":
		o := fr.deferOf
		if o == nil || o.pan == nil {
			return Iface{}
		}
		v := o.pan.v
		o.pan = nil
		if i, ok := v.(Iface); ok {
			return i
		}
		return Iface{types.Typ[types.String], "panic"}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := ci.args[0].Type()
		op := token.LSS
		if ci.builtin == "max" {
			op = token.GTR
		}
		for _, a := range args[1:] {
			var c Value
			if k, ok := basicInt(t); ok {
				c = in.intBin(op, a, r, k, k)
			} else {
				c = in.otherBin(op, a, r, t)
			}
			switch c := c.(type) {
			case bool:
				if c {
					r = a
				}
			case *Term:
				v, ok := in.iteVal(c, a, r, t)
				if !ok {
					panic(unsupported("symbolic min/max"))
				}
				r = v
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.targetPanic("runtime error: value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr *byte, len)
		n := in.concInt(args[1], intKind{64, true})
		if n == 0 {
			return ""
		}
		p := args[0].(*Value)
		return mkStr(unsafe.Slice(p, int(n)))
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return (*Value)(nil)
		}
		c := append([]Value(nil), b...)
		return &c[0]
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &s[:1][0]
	case "Slice":
		n := in.concInt(args[1], intKind{64, true})
		p := args[0].(*Value)
		if p == nil || n == 0 {
			return Slice{}
		}
		return Slice(unsafe.Slice(p, int(n)))
	}
	panic(unsupported("builtin " + ci.builtin + fmt.Sprintf(" on %T", args)))
}

func growCap(c, need int) int {
	n := c
	if n == 0 {
		n = 1
	}
	for n < need {
		if n < 256 {
			n *= 2
		} else {
			n += n / 4
		}
	}
	return n
}

var _ = math.Abs

// opaqueLenOK: readers and buffers move text without looking at it, so the
// number of elements may stand for the length there.
func opaqueLenOK(fr *Frame) bool {
	if fr == nil {
		return false
	}
	switch pkgPathOf(fr.fn.f) {
	case "io", "bufio":
		return true
	case "strings", "bytes":
		r := fr.fn.f.Signature.Recv()
		if r == nil {
			return fr.fn.f.Name() == "NewReader" || fr.fn.f.Name() == "NewBufferString"
		}
		t := r.Type().String()
		return strings.HasSuffix(t, "Reader") || strings.HasSuffix(t, "Buffer")
	}
	return false
}
