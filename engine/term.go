package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed SMT terms over Bool (w==0) and bit-vectors (w in 1..64).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // val = lo ; w = width
)

type Term struct {
	op        Op
	w         uint8
	a, b, c   *Term
	val       uint64
	id        int32
	name      string
	slo, shi  int64 // signed interval (bv)
	vars      []int32
	varsDone  bool
	evalEpoch uint32
	evalVal   uint64
	defEpoch  uint32
	nodes     int32
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

type TermCtx struct {
	tab   map[termKey]*Term
	next  int32
	vars  []*Term // variable terms by index
	tTrue *Term
	tFals *Term
	epoch uint32
}

func NewTermCtx() *TermCtx {
	tc := &TermCtx{}
	tc.Reset()
	return tc
}

func (tc *TermCtx) Reset() {
	tc.tab = make(map[termKey]*Term, 1024)
	tc.next = 0
	tc.vars = tc.vars[:0]
	tc.tTrue = tc.mk(OConst, 0, nil, nil, nil, 1)
	tc.tFals = tc.mk(OConst, 0, nil, nil, nil, 0)
}

func idOf(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tc *TermCtx) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{op, w, idOf(a), idOf(b), idOf(c), val}
	if t, ok := tc.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: tc.next}
	tc.next++
	t.nodes = 1
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.nodes += x.nodes
			if t.nodes < 0 {
				t.nodes = 1 << 30
			}
		}
	}
	tc.interval(t)
	tc.tab[k] = t
	return t
}

func sMin(w uint8) int64 { return sext64(uint64(1)<<(w-1), w) }
func sMax(w uint8) int64 { return int64(maskW(w) >> 1) }

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	p := a * b
	if p/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, true
	}
	return p, false
}

func (tc *TermCtx) interval(t *Term) {
	if t.w == 0 {
		return
	}
	lo, hi := sMin(t.w), sMax(t.w)
	set := func(l, h int64) {
		if l >= lo && h <= hi {
			t.slo, t.shi = l, h
		}
	}
	t.slo, t.shi = lo, hi
	switch t.op {
	case OConst:
		v := sext64(t.val, t.w)
		t.slo, t.shi = v, v
	case OZext:
		if t.w > t.a.w {
			if t.a.slo >= 0 {
				set(t.a.slo, t.a.shi)
			} else {
				set(0, int64(maskW(t.a.w)))
			}
		}
	case OSext:
		set(t.a.slo, t.a.shi)
	case OAdd:
		l, o1 := addOv(t.a.slo, t.b.slo)
		h, o2 := addOv(t.a.shi, t.b.shi)
		if !o1 && !o2 {
			set(l, h)
		}
	case OSub:
		if t.b.shi != -1<<63 && t.b.slo != -1<<63 {
			l, o1 := addOv(t.a.slo, -t.b.shi)
			h, o2 := addOv(t.a.shi, -t.b.slo)
			if !o1 && !o2 {
				set(l, h)
			}
		}
	case ONeg:
		if t.a.slo != -1<<63 {
			set(-t.a.shi, -t.a.slo)
		}
	case OMul:
		var mn, mx int64
		first := true
		for _, x := range []int64{t.a.slo, t.a.shi} {
			for _, y := range []int64{t.b.slo, t.b.shi} {
				p, o := mulOv(x, y)
				if o {
					return
				}
				if first || p < mn {
					mn = p
				}
				if first || p > mx {
					mx = p
				}
				first = false
			}
		}
		set(mn, mx)
	case OIte:
		l, h := t.b.slo, t.b.shi
		if t.c.slo < l {
			l = t.c.slo
		}
		if t.c.shi > h {
			h = t.c.shi
		}
		set(l, h)
	case OBand:
		if t.b.op == OConst && t.b.slo >= 0 {
			set(0, t.b.slo)
		} else if t.a.op == OConst && t.a.slo >= 0 {
			set(0, t.a.slo)
		}
	case OSdiv:
		if t.b.op == OConst && t.b.slo > 0 {
			set(t.a.slo/t.b.slo, t.a.shi/t.b.slo)
		}
	case OSrem:
		if t.b.op == OConst && t.b.slo > 0 {
			l, h := -(t.b.slo - 1), t.b.slo-1
			if t.a.slo >= 0 {
				l = 0
				if t.a.shi < h {
					h = t.a.shi
				}
			}
			set(l, h)
		}
	case OUdiv:
		if t.a.slo >= 0 && t.b.op == OConst && t.b.slo > 0 {
			set(t.a.slo/t.b.slo, t.a.shi/t.b.slo)
		}
	case OUrem:
		if t.b.op == OConst && t.b.slo > 0 {
			set(0, t.b.slo-1)
		}
	case OLshr:
		if t.a.slo >= 0 && t.b.op == OConst && t.b.val < 64 {
			set(t.a.slo>>t.b.val, t.a.shi>>t.b.val)
		}
	case OAshr:
		if t.b.op == OConst && t.b.val < 64 {
			set(t.a.slo>>t.b.val, t.a.shi>>t.b.val)
		}
	case OExtract:
		if t.val == 0 && t.a.slo >= lo && t.a.shi <= hi {
			set(t.a.slo, t.a.shi)
		}
	}
}

func (tc *TermCtx) BoolC(b bool) *Term {
	if b {
		return tc.tTrue
	}
	return tc.tFals
}

func (tc *TermCtx) Const(w uint8, v uint64) *Term {
	return tc.mk(OConst, w, nil, nil, nil, v&maskW(w))
}

// Var makes a fresh variable; for bit-vectors [lo,hi] is its signed range (a
// constraint the caller must also assert if narrower than the sort).
func (tc *TermCtx) Var(w uint8, name string, lo, hi int64) *Term {
	t := &Term{op: OVar, w: w, id: tc.next, name: fmt.Sprintf("v%d_%s", len(tc.vars), sanitize(name)), val: uint64(len(tc.vars)), nodes: 1}
	tc.next++
	if w > 0 {
		t.slo, t.shi = lo, hi
	}
	t.vars = []int32{int32(len(tc.vars))}
	t.varsDone = true
	tc.vars = append(tc.vars, t)
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func (tc *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return tc.BoolC(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op {
	case OUlt:
		return tc.Ule(a.b, a.a)
	case OUle:
		return tc.Ult(a.b, a.a)
	case OSlt:
		return tc.Sle(a.b, a.a)
	case OSle:
		return tc.Slt(a.b, a.a)
	}
	return tc.mk(ONot, 0, a, nil, nil, 0)
}

func (tc *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tc.tFals
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tc.tFals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OAnd, 0, a, b, nil, 0)
}

func (tc *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tc.tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tc.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OOr, 0, a, b, nil, 0)
}

func (tc *TermCtx) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return tc.Or(c, b)
		}
		if a.isFalse() {
			return tc.And(tc.Not(c), b)
		}
		if b.isTrue() {
			return tc.Or(tc.Not(c), a)
		}
		if b.isFalse() {
			return tc.And(c, a)
		}
	}
	if c.op == ONot {
		return tc.Ite(c.a, b, a)
	}
	return tc.mk(OIte, a.w, c, a, b, 0)
}

func (tc *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return tc.tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tc.BoolC(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tc.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tc.mk(OEq, 0, a, b, nil, 0)
	}
	if a.slo > b.shi || a.shi < b.slo {
		return tc.tFals
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.val > maskW(a.a.w) {
				return tc.tFals
			}
			return tc.Eq(a.a, tc.Const(a.a.w, b.val))
		case OSext:
			if sext64(b.val&maskW(a.a.w), a.a.w) != sext64(b.val, b.w) {
				return tc.tFals
			}
			return tc.Eq(a.a, tc.Const(a.a.w, b.val))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				x, y := tc.Eq(a.b, b), tc.Eq(a.c, b)
				return tc.Ite(a.a, x, y)
			}
		case OAdd:
			if a.b.isConst() {
				return tc.Eq(a.a, tc.Const(a.w, b.val-a.b.val))
			}
		case OMul:
			if exactMul(a) {
				if b.slo%a.b.slo != 0 {
					return tc.tFals
				}
				return tc.Eq(a.a, tc.Const(a.w, uint64(b.slo/a.b.slo)))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tc.Eq(a.a, b.a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OEq, 0, a, b, nil, 0)
}

func uRange(t *Term) (uint64, uint64) {
	if t.slo >= 0 {
		return uint64(t.slo), uint64(t.shi)
	}
	if t.shi < 0 {
		return uint64(t.slo) & maskW(t.w), uint64(t.shi) & maskW(t.w)
	}
	return 0, maskW(t.w)
}

func (tc *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return tc.tFals
	}
	if a.isConst() && b.isConst() {
		return tc.BoolC(a.val < b.val)
	}
	al, ah := uRange(a)
	bl, bh := uRange(b)
	if ah < bl {
		return tc.tTrue
	}
	if al >= bh {
		return tc.tFals
	}
	if a.op == OZext && b.isConst() {
		if b.val > maskW(a.a.w) {
			return tc.tTrue
		}
		return tc.Ult(a.a, tc.Const(a.a.w, b.val))
	}
	if b.op == OZext && a.isConst() {
		if a.val > maskW(b.a.w) {
			return tc.tFals
		}
		return tc.Ult(tc.Const(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tc.Ult(a.a, b.a)
	}
	return tc.mk(OUlt, 0, a, b, nil, 0)
}

func (tc *TermCtx) Ule(a, b *Term) *Term {
	if a == b {
		return tc.tTrue
	}
	if a.isConst() && b.isConst() {
		return tc.BoolC(a.val <= b.val)
	}
	al, ah := uRange(a)
	bl, bh := uRange(b)
	if ah <= bl {
		return tc.tTrue
	}
	if al > bh {
		return tc.tFals
	}
	if a.op == OZext && b.isConst() {
		if b.val > maskW(a.a.w) {
			return tc.tTrue
		}
		return tc.Ule(a.a, tc.Const(a.a.w, b.val))
	}
	if b.op == OZext && a.isConst() {
		if a.val > maskW(b.a.w) {
			return tc.tFals
		}
		return tc.Ule(tc.Const(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tc.Ule(a.a, b.a)
	}
	return tc.mk(OUle, 0, a, b, nil, 0)
}

// exact reports that the term's operation (add/sub/mul const) did not wrap.
func exactAdd(t *Term) bool {
	if t.op != OAdd {
		return false
	}
	l, o1 := addOv(t.a.slo, t.b.slo)
	h, o2 := addOv(t.a.shi, t.b.shi)
	return !o1 && !o2 && l >= sMin(t.w) && h <= sMax(t.w)
}

func exactMul(t *Term) bool {
	if t.op != OMul || !t.b.isConst() || t.b.slo <= 0 {
		return false
	}
	l, o1 := mulOv(t.a.slo, t.b.slo)
	h, o2 := mulOv(t.a.shi, t.b.slo)
	return !o1 && !o2 && l >= sMin(t.w) && h <= sMax(t.w)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// scmp builds a<b (strict) or a<=b, signed.
func (tc *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return tc.tFals
	}
	if a.shi < b.slo {
		return tc.tTrue
	}
	if a.slo >= b.shi {
		return tc.tFals
	}
	if b.isConst() && exactAdd(a) && a.b.isConst() {
		if v, o := addOv(b.slo, -a.b.slo); !o && a.b.slo != -1<<63 && v >= sMin(a.w) && v <= sMax(a.w) {
			return tc.Slt(a.a, tc.Const(a.w, uint64(v)))
		}
	}
	if a.isConst() && exactAdd(b) && b.b.isConst() {
		if v, o := addOv(a.slo, -b.b.slo); !o && b.b.slo != -1<<63 && v >= sMin(a.w) && v <= sMax(a.w) {
			return tc.Slt(tc.Const(a.w, uint64(v)), b.a)
		}
	}
	if exactAdd(a) && exactAdd(b) && a.b.isConst() && a.b == b.b {
		return tc.Slt(a.a, b.a)
	}
	if b.isConst() && exactMul(a) { // x*c < k  <=> x <= floor((k-1)/c)
		if b.slo != -1<<63 {
			return tc.Sle(a.a, tc.Const(a.w, uint64(floorDiv(b.slo-1, a.b.slo))))
		}
	}
	if a.isConst() && exactMul(b) { // k < x*c  <=> floor(k/c) < x
		return tc.Slt(tc.Const(a.w, uint64(floorDiv(a.slo, b.b.slo))), b.a)
	}
	if exactMul(a) && exactMul(b) && a.b == b.b {
		return tc.Slt(a.a, b.a)
	}
	if a.op == OSext && b.isConst() && b.slo >= sMin(a.a.w) && b.slo <= sMax(a.a.w) {
		return tc.Slt(a.a, tc.Const(a.a.w, b.val))
	}
	if b.op == OSext && a.isConst() && a.slo >= sMin(b.a.w) && a.slo <= sMax(b.a.w) {
		return tc.Slt(tc.Const(b.a.w, a.val), b.a)
	}
	if a.slo >= 0 && b.slo >= 0 {
		return tc.Ult(a, b)
	}
	return tc.mk(OSlt, 0, a, b, nil, 0)
}

func (tc *TermCtx) Sle(a, b *Term) *Term {
	if a == b {
		return tc.tTrue
	}
	if a.shi <= b.slo {
		return tc.tTrue
	}
	if a.slo > b.shi {
		return tc.tFals
	}
	// a <= k  <=> a < k+1 ; k <= b <=> k-1 < b
	if b.isConst() && b.slo < sMax(a.w) {
		return tc.Slt(a, tc.Const(a.w, uint64(b.slo+1)))
	}
	if a.isConst() && a.slo > sMin(a.w) {
		return tc.Slt(tc.Const(a.w, uint64(a.slo-1)), b)
	}
	if exactAdd(a) && exactAdd(b) && a.b.isConst() && a.b == b.b {
		return tc.Sle(a.a, b.a)
	}
	if exactMul(a) && exactMul(b) && a.b == b.b {
		return tc.Sle(a.a, b.a)
	}
	if a.slo >= 0 && b.slo >= 0 {
		return tc.Ule(a, b)
	}
	return tc.mk(OSle, 0, a, b, nil, 0)
}

func (tc *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %d width mismatch %d %d", op, a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		if v, ok := evalBin(op, w, a.val, b.val); ok {
			return tc.Const(w, v)
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tc.Bin(OAdd, a.a, tc.Const(w, a.b.val+b.val))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return tc.Ite(a.a, tc.Const(w, a.b.val+b.val), tc.Const(w, a.c.val+b.val))
			}
		} else {
			// float constants outwards
			if a.op == OAdd && a.b.isConst() {
				return tc.Bin(OAdd, tc.Bin(OAdd, a.a, b), a.b)
			}
			if b.op == OAdd && b.b.isConst() {
				return tc.Bin(OAdd, tc.Bin(OAdd, a, b.a), b.b)
			}
			if b.op == ONeg {
				return tc.Bin(OSub, a, b.a)
			}
			if a.op == ONeg {
				return tc.Bin(OSub, b, a.a)
			}
			if a.op == OSub && a.b == b {
				return a.a
			}
			if b.op == OSub && b.b == a {
				return b.a
			}
			if exactMul(a) && exactMul(b) && a.b == b.b {
				s := tc.Bin(OAdd, a.a, b.a)
				return tc.Bin(OMul, s, a.b)
			}
		}
	case OSub:
		if b.isConst() {
			return tc.Bin(OAdd, a, tc.Const(w, -b.val))
		}
		if a == b {
			return tc.Const(w, 0)
		}
		if a.op == OAdd && a.b.isConst() {
			return tc.Bin(OAdd, tc.Bin(OSub, a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return tc.Bin(OAdd, tc.Bin(OSub, a, b.a), tc.Const(w, -b.b.val))
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if exactMul(a) && exactMul(b) && a.b == b.b {
			return tc.Bin(OMul, tc.Bin(OSub, a.a, b.a), a.b)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if exactAdd(a) && a.b.isConst() && b.slo > 0 {
				if v, o := mulOv(a.b.slo, b.slo); !o && v >= sMin(w) && v <= sMax(w) {
					return tc.Bin(OAdd, tc.Bin(OMul, a.a, b), tc.Const(w, uint64(v)))
				}
			}
			if a.op == OMul && a.b.isConst() {
				return tc.Bin(OMul, a.a, tc.Const(w, a.b.val*b.val))
			}
		}
	case OSdiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && exactMul(a) && b.slo > 0 {
			if a.b.slo%b.slo == 0 {
				return tc.Bin(OMul, a.a, tc.Const(w, uint64(a.b.slo/b.slo)))
			}
		}
		if b.isConst() && b.slo > 0 && a.slo >= 0 && exactAdd(a) && a.b.isConst() && exactMul(a.a) &&
			a.a.b.slo == b.slo && a.b.slo%b.slo == 0 {
			return tc.Bin(OAdd, a.a.a, tc.Const(w, uint64(a.b.slo/b.slo)))
		}
		if b.isConst() && b.slo > 0 && a.slo >= 0 && a.shi < b.slo {
			return tc.Const(w, 0)
		}
	case OSrem:
		if b.isConst() && exactMul(a) && b.slo > 0 && a.b.slo%b.slo == 0 {
			return tc.Const(w, 0)
		}
		if b.isConst() && b.slo > 0 && exactAdd(a) && a.b.isConst() && exactMul(a.a) && a.slo >= 0 &&
			a.a.b.slo%b.slo == 0 && a.b.slo >= 0 {
			return tc.Const(w, uint64(a.b.slo%b.slo))
		}
		if b.isConst() && b.slo > 0 && a.slo >= 0 && a.shi < b.slo {
			return a
		}
	case OUdiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if a.slo >= 0 && b.slo > 0 {
			return tc.Bin(OSdiv, a, b)
		}
	case OUrem:
		if a.slo >= 0 && b.slo > 0 {
			return tc.Bin(OSrem, a, b)
		}
	case OBand:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == maskW(w) {
				return a
			}
			// low mask covering the whole range
			if a.slo >= 0 && b.val&(b.val+1) == 0 && uint64(a.shi) <= b.val {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 || a == b {
			return a
		}
	case OBxor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return tc.Const(w, 0)
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val >= uint64(w) && op != OAshr {
			return tc.Const(w, 0)
		}
		if op == OLshr && b.isConst() && a.slo >= 0 && b.val < 63 && (a.shi>>b.val) == 0 {
			return tc.Const(w, 0)
		}
	}
	return tc.mk(op, w, a, b, nil, 0)
}

func (tc *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return tc.Const(a.w, ^a.val)
	}
	return tc.mk(OBnot, a.w, a, nil, nil, 0)
}

func (tc *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return tc.Const(a.w, -a.val)
	}
	switch {
	case a.op == ONeg:
		return a.a
	case a.op == OSub:
		return tc.Bin(OSub, a.b, a.a)
	case a.op == OMul && a.b.isConst():
		return tc.Bin(OMul, tc.Neg(a.a), a.b)
	case a.op == OAdd && a.b.isConst():
		return tc.Bin(OAdd, tc.Neg(a.a), tc.Const(a.w, -a.b.val))
	}
	return tc.mk(ONeg, a.w, a, nil, nil, 0)
}

func (tc *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return tc.Const(w, uint64(sext64(a.val, a.w)))
		}
		return tc.Const(w, a.val)
	}
	if w < a.w {
		if (a.op == OZext || a.op == OSext) && a.a.w >= w {
			return tc.Resize(a.a, w, false)
		}
		if a.op == OZext && a.a.w < w {
			return tc.Resize(a.a, w, false)
		}
		if a.op == OSext && a.a.w < w {
			return tc.Resize(a.a, w, true)
		}
		if a.op == OIte {
			return tc.Ite(a.a, tc.Resize(a.b, w, false), tc.Resize(a.c, w, false))
		}
		return tc.mk(OExtract, w, a, nil, nil, 0)
	}
	if signed {
		if a.slo >= 0 {
			return tc.Resize(a, w, false)
		}
		return tc.mk(OSext, w, a, nil, nil, 0)
	}
	if a.op == OZext {
		return tc.Resize(a.a, w, false)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return tc.Ite(a.a, tc.Const(w, a.b.val), tc.Const(w, a.c.val))
	}
	return tc.mk(OZext, w, a, nil, nil, 0)
}

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := maskW(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSdiv:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			if a >= 0 {
				return m, true
			}
			return 1, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSrem:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OBand:
		return x & y, true
	case OBor:
		return x | y, true
	case OBxor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

// Eval evaluates t under asg (indexed by variable).
func (tc *TermCtx) Eval(t *Term, asg []uint64) uint64 {
	tc.epoch++
	return tc.eval(t, asg)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tc *TermCtx) eval(t *Term, asg []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if int(t.val) < len(asg) {
			return asg[t.val]
		}
		return 0
	}
	if t.evalEpoch == tc.epoch {
		return t.evalVal
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - tc.eval(t.a, asg)
	case OAnd:
		r = tc.eval(t.a, asg)
		if r != 0 {
			r = tc.eval(t.b, asg)
		}
	case OOr:
		r = tc.eval(t.a, asg)
		if r == 0 {
			r = tc.eval(t.b, asg)
		}
	case OIte:
		if tc.eval(t.a, asg) != 0 {
			r = tc.eval(t.b, asg)
		} else {
			r = tc.eval(t.c, asg)
		}
	case OEq:
		r = b2u(tc.eval(t.a, asg) == tc.eval(t.b, asg))
	case OUlt:
		r = b2u(tc.eval(t.a, asg) < tc.eval(t.b, asg))
	case OUle:
		r = b2u(tc.eval(t.a, asg) <= tc.eval(t.b, asg))
	case OSlt:
		r = b2u(sext64(tc.eval(t.a, asg), t.a.w) < sext64(tc.eval(t.b, asg), t.a.w))
	case OSle:
		r = b2u(sext64(tc.eval(t.a, asg), t.a.w) <= sext64(tc.eval(t.b, asg), t.a.w))
	case OBnot:
		r = ^tc.eval(t.a, asg) & maskW(t.w)
	case ONeg:
		r = -tc.eval(t.a, asg) & maskW(t.w)
	case OZext:
		r = tc.eval(t.a, asg)
	case OSext:
		r = uint64(sext64(tc.eval(t.a, asg), t.a.w)) & maskW(t.w)
	case OExtract:
		r = (tc.eval(t.a, asg) >> t.val) & maskW(t.w)
	default:
		r, _ = evalBin(t.op, t.w, tc.eval(t.a, asg), tc.eval(t.b, asg))
	}
	t.evalEpoch = tc.epoch
	t.evalVal = r
	return r
}

// Vars returns the sorted variable indices of t.
func (tc *TermCtx) Vars(t *Term) []int32 {
	if t.varsDone {
		return t.vars
	}
	var out []int32
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			out = mergeVars(out, tc.Vars(x))
		}
	}
	t.vars = out
	t.varsDone = true
	return out
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast path
	if len(a) >= len(b) {
		j := 0
		for i := 0; i < len(a) && j < len(b); i++ {
			if a[i] == b[j] {
				j++
			}
		}
		if j == len(b) {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

var _ = bits.Len
