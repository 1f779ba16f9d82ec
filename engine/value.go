package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is any interpreted value:
//
//	bool | int64 (normalised) | *Term | float64 | complex128 | string | *SymStr
//	*Value (pointer to a cell) | Struct | Array | Slice | *Map | *Chan | Iface
//	*Closure | Tuple | native objects (engine-owned state)
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(fr *Frame, args []Value) Value // engine-made function value
	id  int64
	blt *ssa.Builtin
}

// SymStr is a string of known length with at least one symbolic byte.
type SymStr struct{ b []Value }

// Opaque is one "character" standing for text the engine does not spell out
// (the decimal digits of a symbolic integer, the base64 of symbolic bytes).
type Opaque struct {
	kind string
	v    Value
	t    types.Type
}

type mapEnt struct {
	k, v Value
	live bool
}

type Map struct {
	ents  []mapEnt
	idx   map[any]int
	n     int
	nsym  int // live entries whose key is not hashable concretely
	epoch int64
	t     *types.Map
}

type strKey struct{ s string }

// hashKey returns a Go-comparable key when v is concrete.
func hashKey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, int64, string, float64:
		return v, true
	case *Value, *Map, *Chan, *Closure:
		return v, true
	case Iface:
		if v.t == nil {
			return strKey{"nil"}, true
		}
		h, ok := hashKey(v.v)
		if !ok {
			return nil, false
		}
		switch h := h.(type) {
		case string:
			return strKey{typeKey(v.t) + "\x00" + h}, true
		case int64:
			return strKey{fmt.Sprintf("%s\x01%d", typeKey(v.t), h)}, true
		}
		return h, true
	case Struct:
		return aggKey([]Value(v))
	case Array:
		return aggKey([]Value(v))
	}
	return nil, false
}

func aggKey(vs []Value) (any, bool) {
	var sb strings.Builder
	for _, x := range vs {
		h, ok := hashKey(x)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v\x02", h, h)
	}
	return strKey{sb.String()}, true
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

// ---- zero values

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(t.Len())
		a := make(Array, n)
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero of %T %s", t, t)))
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		c := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	case Array:
		c := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	}
	return v
}

// ---- integers

type intKind struct {
	w      uint8
	signed bool
}

func basicInt(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	}
	return intKind{}, false
}

func (k intKind) norm(v int64) int64 {
	switch k.w {
	case 64:
		return v
	case 32:
		if k.signed {
			return int64(int32(v))
		}
		return int64(uint32(v))
	case 16:
		if k.signed {
			return int64(int16(v))
		}
		return int64(uint16(v))
	default:
		if k.signed {
			return int64(int8(v))
		}
		return int64(uint8(v))
	}
}

// term lifts an integer value to a term of kind k.
func (in *Interp) iterm(v Value, k intKind) *Term {
	switch v := v.(type) {
	case int64:
		return in.tc.Const(k.w, uint64(v))
	case *Term:
		if v.w != k.w {
			panic(engineErr("iterm width %d want %d", v.w, k.w))
		}
		return v
	}
	panic(engineErr("iterm of %T", v))
}

// ival lowers a constant term to int64.
func ival(t *Term, k intKind) Value {
	if t.isConst() {
		if k.signed {
			return sext64(t.val, t.w)
		}
		return int64(t.val)
	}
	return t
}

func (in *Interp) bterm(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return in.tc.BoolC(v)
	case *Term:
		return v
	}
	panic(engineErr("bterm of %T", v))
}

func bval(t *Term) Value {
	if t.isConst() {
		return t.val != 0
	}
	return t
}

// ---- strings

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(engineErr("strLen of %T", v))
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return int64(v[i])
	case *SymStr:
		return v.b[i]
	}
	panic(engineErr("strAt of %T", v))
}

func strSub(v Value, i, j int) Value {
	switch v := v.(type) {
	case string:
		return v[i:j]
	case *SymStr:
		return mkStr(v.b[i:j:j])
	}
	panic(engineErr("strSub of %T", v))
}

// strBytes returns the elements; must not be modified.
func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		out := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			out[i] = int64(v[i])
		}
		return out
	case *SymStr:
		return v.b
	}
	panic(engineErr("strBytes of %T", v))
}

func mkStr(b []Value) Value {
	buf := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(int64)
		if !ok {
			return &SymStr{b: append([]Value(nil), b...)}
		}
		buf[i] = byte(c)
	}
	return string(buf)
}

func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	ab, bb := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(ab)+len(bb))
	out = append(out, ab...)
	out = append(out, bb...)
	return &SymStr{b: out}
}

func bytesToStr(s Slice) Value { return mkStr([]Value(s)) }

func strToBytes(v Value) Slice {
	b := strBytes(v)
	out := make(Slice, len(b))
	copy(out, b)
	return out
}

func (in *Interp) byteEq(a, b Value) *Term {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return in.tc.BoolC(x == y)
	}
	if o, ok := a.(*Opaque); ok {
		return in.opaqueEq(o, b)
	}
	if o, ok := b.(*Opaque); ok {
		return in.opaqueEq(o, a)
	}
	k := intKind{8, false}
	return in.tc.Eq(in.iterm(a, k), in.iterm(b, k))
}

func (in *Interp) opaqueEq(o *Opaque, b Value) *Term {
	p, ok := b.(*Opaque)
	if !ok {
		if c, isC := b.(int64); isC {
			if !opaqueMay(o.kind, byte(c)) {
				return in.tc.tFals
			}
			panic(unsupported("comparison of opaque text with a byte it may contain"))
		}
		if t, isT := b.(*Term); isT {
			var ab []byte
			for i := 0; i < 256; i++ {
				if opaqueMay(o.kind, byte(i)) {
					ab = append(ab, byte(i))
				}
			}
			if in.path.merge == nil && !in.path.decide(in.inSet(t, string(ab))) {
				return in.tc.tFals
			}
		}
		panic(unsupported("comparison of opaque text with symbolic byte"))
	}
	if o == p {
		return in.tc.tTrue
	}
	if o.kind != p.kind {
		if o.kind == "sig" || p.kind == "sig" {
			return in.tc.tFals
		}
		panic(unsupported("comparison of different opaque texts"))
	}
	switch o.kind {
	case "num":
		a, ok1 := o.v.(*Term)
		c, ok2 := p.v.(*Term)
		if ok1 && ok2 && a.w == c.w {
			return in.tc.Eq(a, c)
		}
	case "b64":
		return in.strEq(bytesToStr(o.v.(Slice)), bytesToStr(p.v.(Slice)))
	case "time":
		return in.eqVal(o.v, p.v)
	case "sig":
		x, y := o.v.(*sigVal), p.v.(*sigVal)
		if x.alg != y.alg || x.key != y.key {
			return in.tc.tFals
		}
		return in.strEq(x.input, y.input)
	}
	panic(unsupported("comparison of opaque text " + o.kind))
}

func (in *Interp) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.tc.BoolC(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		// opaque elements have no definite length, but are never empty
		if !hasOpaque(a) && !hasOpaque(b) || strLen(a) == 0 || strLen(b) == 0 {
			return in.tc.tFals
		}
		// text before the first and after the last opaque element is aligned
		isOp := func(v Value, i int) bool { _, ok := strAt(v, i).(*Opaque); return ok }
		la, lb := strLen(a), strLen(b)
		// identical beginnings do not matter, not even opaque ones
		same := 0
		for same < la && same < lb && isOp(a, same) == isOp(b, same) {
			x, y := strAt(a, same), strAt(b, same)
			if isOp(a, same) && x.(*Opaque).kind != y.(*Opaque).kind {
				break
			}
			e := in.byteEq(x, y)
			if e.isFalse() {
				if isOp(a, same) && x.(*Opaque).kind != "sig" {
					break
				}
				return in.tc.tFals
			}
			if !e.isTrue() {
				break
			}
			same++
		}
		rest := func(v Value, n int) bool {
			for i := same; i < n; i++ {
				if isOp(v, i) {
					return true
				}
			}
			return false
		}
		if same == la || same == lb || !rest(a, la) && !rest(b, lb) {
			return in.tc.tFals // the remainders have different lengths
		}
		for i := 0; i < la && i < lb && !isOp(a, i) && !isOp(b, i); i++ {
			if in.byteEq(strAt(a, i), strAt(b, i)).isFalse() {
				return in.tc.tFals
			}
		}
		for i := 1; i <= la && i <= lb && !isOp(a, la-i) && !isOp(b, lb-i); i++ {
			if in.byteEq(strAt(a, la-i), strAt(b, lb-i)).isFalse() {
				return in.tc.tFals
			}
		}
		panic(unsupported("length comparison of opaque text"))
	}
	r := in.tc.tTrue
	for i, n := 0, strLen(a); i < n; i++ {
		e := in.byteEq(strAt(a, i), strAt(b, i))
		if e.isFalse() {
			return e
		}
		r = in.tc.And(r, e)
	}
	return r
}

func hasOpaque(v Value) bool {
	s, ok := v.(*SymStr)
	if !ok {
		return false
	}
	for _, x := range s.b {
		if _, ok := x.(*Opaque); ok {
			return true
		}
	}
	return false
}

// strLess builds a<b.
func (in *Interp) strLess(a, b Value, orEq bool) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if orEq {
				return in.tc.BoolC(x <= y)
			}
			return in.tc.BoolC(x < y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	var r *Term
	if la < lb || (orEq && la == lb) {
		r = in.tc.tTrue
	} else {
		r = in.tc.tFals
	}
	k := intKind{8, false}
	for i := n - 1; i >= 0; i-- {
		x, y := in.iterm(strAt(a, i), k), in.iterm(strAt(b, i), k)
		r = in.tc.Or(in.tc.Ult(x, y), in.tc.And(in.tc.Eq(x, y), r))
	}
	return r
}

// ---- equality

func (in *Interp) eqVal(a, b Value) *Term {
	tc := in.tc
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			return tc.BoolC(x == y)
		case *Term:
			return tc.Eq(tc.BoolC(x), y)
		}
	case int64:
		switch y := b.(type) {
		case int64:
			return tc.BoolC(x == y)
		case *Term:
			return tc.Eq(y, tc.Const(y.w, uint64(x)))
		}
	case *Term:
		switch y := b.(type) {
		case *Term:
			return tc.Eq(x, y)
		case int64:
			return tc.Eq(x, tc.Const(x.w, uint64(y)))
		case bool:
			return tc.Eq(x, tc.BoolC(y))
		}
	case float64:
		if y, ok := b.(float64); ok {
			return tc.BoolC(x == y)
		}
	case complex128:
		if y, ok := b.(complex128); ok {
			return tc.BoolC(x == y)
		}
	case string, *SymStr:
		return in.strEq(a, b)
	case *Value:
		if y, ok := b.(*Value); ok {
			return tc.BoolC(x == y)
		}
		return tc.tFals
	case *Map:
		if y, ok := b.(*Map); ok {
			return tc.BoolC(x == y)
		}
	case *Chan:
		if y, ok := b.(*Chan); ok {
			return tc.BoolC(x == y)
		}
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return tc.BoolC(x == y)
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			if x == nil || y == nil {
				return tc.BoolC(x == nil && y == nil)
			}
		}
	case Struct:
		y := b.(Struct)
		r := tc.tTrue
		for i := range x {
			r = tc.And(r, in.eqVal(x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		r := tc.tTrue
		for i := range x {
			r = tc.And(r, in.eqVal(x[i], y[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(engineErr("iface compare with %T", b))
		}
		if x.t == nil || y.t == nil {
			return tc.BoolC(x.t == nil && y.t == nil)
		}
		if !sameType(x.t, y.t) {
			return tc.tFals
		}
		if !types.Comparable(x.t) {
			in.targetPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return in.eqVal(x.v, y.v)
	}
	panic(engineErr("eqVal %T %T", a, b))
}

func sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	return types.Identical(a, b)
}

// opaqueMay tells whether opaque text of a kind may contain a byte.
func opaqueMay(kind string, c byte) bool {
	switch kind {
	case "num":
		return c == '-' || c >= '0' && c <= '9'
	case "b64":
		return c == '-' || c == '_' || c == '+' || c == '/' || c == '=' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	case "sig":
		// base64url, or Athenz's variant
		return c == '-' || c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	return true
}
