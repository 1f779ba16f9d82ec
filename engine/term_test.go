package main

import (
	"math/rand"
	"testing"
)

// The builder's simplifications and intervals agree with plain evaluation.
func TestBuilder(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	type pair struct {
		t *Term
		v uint64
	}
	consts := []int64{0, 1, 2, 3, 7, 60, 255, 1000, 1e9, -1, -2, -1e9, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63, 1 << 40}
	for round := 0; round < 300000; round++ {
		tc := NewTermCtx()
		var asg []uint64
		var ints []pair
		bools := []pair{{tc.BoolC(true), 1}}
		w := []uint8{8, 16, 32, 64}[rng.Intn(4)]
		nv := 1 + rng.Intn(3)
		for i := 0; i < nv; i++ {
			lo, hi := sMin(w), sMax(w)
			if rng.Intn(3) > 0 {
				a, b := rng.Int63n(2000)-500, rng.Int63n(2000)-500
				if w == 8 {
					a, b = rng.Int63n(100)-50, rng.Int63n(100)-50
				}
				if a > b {
					a, b = b, a
				}
				lo, hi = a, b
			}
			var v int64
			switch {
			case rng.Intn(4) == 0:
				v = lo
			case rng.Intn(4) == 0:
				v = hi
			case hi-lo > 0 && hi-lo < 1<<62:
				v = lo + rng.Int63n(hi-lo+1)
			default:
				v = sext64(uint64(rng.Int63()), w)
				if v < lo || v > hi {
					v = hi
				}
			}
			x := tc.Var(w, "x", lo, hi)
			asg = append(asg, uint64(v)&maskW(w))
			ints = append(ints, pair{x, uint64(v) & maskW(w)})
		}
		pick := func() pair {
			if rng.Intn(3) == 0 {
				c := uint64(consts[rng.Intn(len(consts))]) & maskW(w)
				return pair{tc.Const(w, c), c}
			}
			return ints[rng.Intn(len(ints))]
		}
		for n := 0; n < 12; n++ {
			a, b := pick(), pick()
			var r pair
			isB := false
			switch k := rng.Intn(22); k {
			case 0, 1, 2:
				r = pair{tc.Bin(OAdd, a.t, b.t), (a.v + b.v) & maskW(w)}
			case 3, 4:
				r = pair{tc.Bin(OSub, a.t, b.t), (a.v - b.v) & maskW(w)}
			case 5, 6:
				r = pair{tc.Bin(OMul, a.t, b.t), (a.v * b.v) & maskW(w)}
			case 7, 8:
				r = pair{tc.Neg(a.t), -a.v & maskW(w)}
			case 9, 10, 11, 12:
				op := []Op{OSdiv, OSrem, OUdiv, OUrem}[k-9]
				if b.v == 0 {
					continue
				}
				v, ok := evalBin(op, w, a.v, b.v)
				if !ok {
					continue
				}
				r = pair{tc.Bin(op, a.t, b.t), v}
			case 13:
				op := []Op{OBand, OBor, OBxor, OShl, OLshr, OAshr}[rng.Intn(6)]
				v, ok := evalBin(op, w, a.v, b.v)
				if !ok {
					continue
				}
				r = pair{tc.Bin(op, a.t, b.t), v}
			case 14:
				r, isB = pair{tc.Slt(a.t, b.t), b2u(sext64(a.v, w) < sext64(b.v, w))}, true
			case 15:
				r, isB = pair{tc.Sle(a.t, b.t), b2u(sext64(a.v, w) <= sext64(b.v, w))}, true
			case 16:
				r, isB = pair{tc.Ult(a.t, b.t), b2u(a.v < b.v)}, true
			case 17:
				r, isB = pair{tc.Eq(a.t, b.t), b2u(a.v == b.v)}, true
			case 18:
				c := bools[rng.Intn(len(bools))]
				v := b.v
				if c.v != 0 {
					v = a.v
				}
				r = pair{tc.Ite(c.t, a.t, b.t), v}
			case 19:
				nw := []uint8{8, 16, 32, 64}[rng.Intn(4)]
				if nw >= w {
					s := rng.Intn(2) == 0
					v := a.v
					if s {
						v = uint64(sext64(a.v, w)) & maskW(nw)
					}
					// widen and narrow again
					r = pair{tc.Resize(tc.Resize(a.t, nw, s), w, s), v & maskW(w)}
					x := tc.Resize(a.t, nw, s)
					if tc.Eval(x, asg) != v {
						t.Fatalf("resize %d", round)
					}
				} else {
					x := tc.Resize(a.t, nw, true)
					if tc.Eval(x, asg) != a.v&maskW(nw) {
						t.Fatalf("narrow %d", round)
					}
					r = pair{tc.Resize(x, w, true), uint64(sext64(a.v, nw)) & maskW(w)}
				}
			case 20:
				c, d := bools[rng.Intn(len(bools))], bools[rng.Intn(len(bools))]
				r, isB = pair{tc.And(c.t, tc.Not(d.t)), c.v & (1 - d.v)}, true
			case 21:
				c, d := bools[rng.Intn(len(bools))], bools[rng.Intn(len(bools))]
				r, isB = pair{tc.Or(c.t, d.t), c.v | d.v}, true
			}
			if got := tc.Eval(r.t, asg); got != r.v {
				t.Fatalf("round %d: value %x, want %x (width %d) asg %v: %s from %s , %s", round, got, r.v, w, asg, show(r.t), show(a.t), show(b.t))
			}
			if isB {
				bools = append(bools, r)
				continue
			}
			if s := sext64(r.v, w); s < r.t.slo || s > r.t.shi {
				t.Fatalf("round %d: %d outside [%d,%d]", round, s, r.t.slo, r.t.shi)
			}
			ints = append(ints, r)
		}
	}
}

func show(t *Term) string {
	if t == nil {
		return ""
	}
	if t.op == OConst {
		return constStr(t)
	}
	if t.op == OVar {
		return "x" + string(rune('0'+t.val))
	}
	return "(" + opNames[t.op] + " " + show(t.a) + " " + show(t.b) + " " + show(t.c) + ")"
}
