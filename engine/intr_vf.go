package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/constant"
	"math/big"
	"strconv"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var vfIntrinsics map[string]Intrinsic

func (in *Interp) concName(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(engineErr("vf: name must be constant"))
	}
	return s
}

func (in *Interp) concI(v Value) int64 {
	n, ok := v.(int64)
	if !ok {
		panic(engineErr("vf: bound must be concrete"))
	}
	return n
}

// newStr makes a symbolic string; ok filters the byte values.
func (in *Interp) newStr(name string, lo, hi int, alpha string, first byte, ok func(t *Term) *Term) Value {
	p := in.path
	in.run.bound(name, fmt.Sprintf("%d..%d bytes%s", lo, hi, alpha))
	n := lo
	if hi > lo {
		n = lo + p.choose(hi-lo+1, name+".len", "len")
	}
	b := make([]Value, n)
	for i := range b {
		fresh := len(p.asg) <= len(in.tc.vars)
		t := p.newVar(8, name, -128, 127)
		if fresh {
			p.asg[t.val] = uint64(first)
		}
		if ok != nil {
			c := ok(t)
			p.event(evAssume, c, nil)
			p.addPC(c)
		}
		b[i] = t
	}
	v := mkStr(b)
	p.addInput(name, "str", v, 0, false)
	return v
}

var keyOnce sync.Once

func loadKeys(p *Program) {
	keyOnce.Do(func() {
		sp := p.pkgs[vfPkg]
		get := func(n string) string {
			c, ok := sp.Members[n].(*ssa.NamedConst)
			if !ok {
				panic(engineErr("vf constant %s", n))
			}
			return constant.StringVal(c.Value.Value)
		}
		for _, n := range []string{"pub0", "pub1", "pub2"} {
			testPub = append(testPub, get(n))
		}
		for _, n := range []string{"oct0", "oct1"} {
			octKeys = append(octKeys, []byte(get(n)))
		}
	})
}

func initVF() {
	V := map[string]Intrinsic{}
	vfIntrinsics = V
	V["Int"] = func(in *Interp, fr *Frame, args []Value) Value {
		name := in.concName(args[0])
		lo, hi := in.concI(args[1]), in.concI(args[2])
		in.run.bound(name, fmt.Sprintf("integer %d..%d", lo, hi))
		if lo == hi {
			in.path.addInput(name, "int", lo, 0, true)
			return lo
		}
		t := in.path.newVar(64, name, lo, hi)
		in.path.addInput(name, "int", t, 0, true)
		return t
	}
	V["Bool"] = func(in *Interp, fr *Frame, args []Value) Value {
		name := in.concName(args[0])
		in.run.bound(name, "boolean")
		t := in.path.newVar(0, name, 0, 1)
		in.path.addInput(name, "bool", t, 0, false)
		return t
	}
	V["Choice"] = func(in *Interp, fr *Frame, args []Value) Value {
		name := in.concName(args[0])
		n := int(in.concI(args[1]))
		in.run.bound(name, fmt.Sprintf("one of %d", n))
		if n <= 1 {
			in.path.addInput(name, "int", int64(0), 0, true)
			return int64(0)
		}
		return int64(in.path.choose(n, name, "choice"))
	}
	V["Str"] = func(in *Interp, fr *Frame, args []Value) Value {
		return in.newStr(in.concName(args[0]), int(in.concI(args[1])), int(in.concI(args[2])), "", 'a', nil)
	}
	V["ASCII"] = func(in *Interp, fr *Frame, args []Value) Value {
		return in.newStr(in.concName(args[0]), int(in.concI(args[1])), int(in.concI(args[2])), ", ASCII", 'a', func(t *Term) *Term {
			return in.tc.And(in.tc.Ult(t, in.tc.Const(8, 0x80)), in.tc.Ult(in.tc.Const(8, 0), t))
		})
	}
	V["StrOf"] = func(in *Interp, fr *Frame, args []Value) Value {
		ab := in.concName(args[1])
		return in.newStr(in.concName(args[0]), int(in.concI(args[2])), int(in.concI(args[3])), " of "+strconv.Quote(ab), ab[0], func(t *Term) *Term {
			return in.inSet(t, ab)
		})
	}
	V["Assume"] = func(in *Interp, fr *Frame, args []Value) Value { in.path.assume(args[0]); return nil }
	V["Assert"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.path.assert(args[0], in.concName(args[1]))
		return nil
	}
	V["Cover"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.path.covers[in.concName(args[0])] = true
		return nil
	}
	V["Stop"] = func(in *Interp, fr *Frame, args []Value) Value { panic(pathEnd{endStop, "stop"}) }
	b2 := func(f func(tc *TermCtx, a, b *Term) *Term) Intrinsic {
		return func(in *Interp, fr *Frame, args []Value) Value {
			return bval(f(in.tc, in.bterm(args[0]), in.bterm(args[1])))
		}
	}
	V["And"] = b2(func(tc *TermCtx, a, b *Term) *Term { return tc.And(a, b) })
	V["Or"] = b2(func(tc *TermCtx, a, b *Term) *Term { return tc.Or(a, b) })
	V["Implies"] = b2(func(tc *TermCtx, a, b *Term) *Term { return tc.Or(tc.Not(a), b) })
	V["Iff"] = b2(func(tc *TermCtx, a, b *Term) *Term { return tc.Eq(a, b) })
	V["Not"] = func(in *Interp, fr *Frame, args []Value) Value { return bval(in.tc.Not(in.bterm(args[0]))) }
	V["Races"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.path.races = true
		in.run.raceWatch.Store(true)
		return nil
	}
	V["Settle"] = func(in *Interp, fr *Frame, args []Value) Value {
		me := in.sch.cur
		in.block("settle", func() bool {
			for _, t := range in.sch.threads {
				if t == me || t.done {
					continue
				}
				if t.ready == nil || t.ready() {
					return false
				}
			}
			return true
		})
		return nil
	}
	V["Goroutines"] = func(in *Interp, fr *Frame, args []Value) Value {
		V["Settle"](in, fr, nil)
		n := int64(0)
		for _, t := range in.sch.threads {
			if !t.done {
				n++
			}
		}
		return n
	}
	V["Param"] = func(in *Interp, fr *Frame, args []Value) Value {
		name := in.concName(args[0])
		def := in.concI(args[1])
		in.run.mu.Lock()
		defer in.run.mu.Unlock()
		if v, ok := in.run.params[name]; ok {
			def = v
		}
		in.run.bound(name, fmt.Sprint(def))
		return def
	}
	V["Q"] = func(in *Interp, fr *Frame, args []Value) Value {
		if in.run.thorough {
			return in.concI(args[1])
		}
		return in.concI(args[0])
	}
	V["Observe"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.path.observed = append(in.path.observed, obs{in.concName(args[0]), args[1]})
		return nil
	}
	V["CaptureLogs"] = func(in *Interp, fr *Frame, args []Value) Value { in.env.capture = true; return nil }
	V["LogsContain"] = func(in *Interp, fr *Frame, args []Value) Value {
		pat := elemsOf(args[0])
		c := in.tc.tFals
		for _, l := range in.env.logs {
			b := elemsOf(l)
		window:
			for i := 0; i+len(pat) <= len(b); i++ {
				// an opaque signature appears in a log as a whole or not at all
				for j := range pat {
					_, o1 := pat[j].(*Opaque)
					_, o2 := b[i+j].(*Opaque)
					if o1 != o2 {
						continue window
					}
				}
				c = in.tc.Or(c, in.seqEq(b[i:i+len(pat)], pat))
			}
		}
		return bval(c)
	}
	V["Preempt"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.path.free = true
		in.path.delays = -1
		in.path.maxPreempt = in.path.preempt + int(in.concI(args[0]))
		in.run.bound("(schedules)", fmt.Sprintf("any order of the goroutines when one blocks, plus at most %d preemptions", in.concI(args[0])))
		return nil
	}
	V["Delays"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.path.free = true
		in.path.maxPreempt = 1 << 30
		in.path.delays = int(in.concI(args[0]))
		in.run.bound("(schedules)", fmt.Sprintf("every schedule with at most %d deviations from the default scheduler, at any synchronisation operation", in.concI(args[0])))
		return nil
	}
	V["Sequential"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.path.free = false
		in.path.maxPreempt = 0
		return nil
	}
	V["MapOrder"] = func(in *Interp, fr *Frame, args []Value) Value {
		in.path.mapOrderMax = int(in.concI(args[0]))
		in.run.bound("(map order)", fmt.Sprintf("every iteration order of maps of up to %d entries", in.concI(args[0])))
		return nil
	}

	// ---- ideal keys
	V["PubPEM"] = func(in *Interp, fr *Frame, args []Value) Value {
		loadKeys(in.prog)
		return testPub[in.concI(args[0])]
	}
	V["OctKey"] = func(in *Interp, fr *Frame, args []Value) Value {
		loadKeys(in.prog)
		return goBytes(octKeys[in.concI(args[0])])
	}
	V["JWK"] = func(in *Interp, fr *Frame, args []Value) Value {
		loadKeys(in.prog)
		i := in.concI(args[1])
		kid, _ := json.Marshal(in.concName(args[0]))
		if i >= 10 {
			return fmt.Sprintf(`{"kid":%s,"kty":"oct","k":"%s"}`, kid, base64.RawURLEncoding.EncodeToString(octKeys[i-10]))
		}
		k := pemRSA(testPub[i])
		return fmt.Sprintf(`{"kid":%s,"kty":"RSA","n":"%s","e":"%s"}`, kid, base64.RawURLEncoding.EncodeToString(k.N.Bytes()), base64.RawURLEncoding.EncodeToString(big.NewInt(int64(k.E)).Bytes()))
	}
	V["SameKey"] = func(in *Interp, fr *Frame, args []Value) Value {
		loadKeys(in.prog)
		i := in.concI(args[1])
		k := ifaceOf(args[0])
		switch x := k.v.(type) {
		case *Value:
			n, ok := in.env.keyIDs[x]
			return ok && n == i
		case Slice:
			b, ok := in.concBytes(x)
			return ok && i >= 10 && bytes.Equal(b, octKeys[i-10])
		}
		return false
	}
	V["PublicKey"] = func(in *Interp, fr *Frame, args []Value) Value {
		i := in.concI(args[0])
		k := in.keyPtr("vf"+string(rune('0'+i)), "crypto/rsa", "PublicKey")
		in.env.keyIDs[k.v.(*Value)] = i
		return k
	}
	enc := func(v Value) Value {
		if s, ok := v.(string); ok {
			return b64raw(s)
		}
		return &SymStr{b: []Value{&Opaque{kind: "b64", v: strToBytes(v)}}}
	}
	V["JWT"] = func(in *Interp, fr *Frame, args []Value) Value {
		loadKeys(in.prog)
		s := strCat(strCat(enc(args[0]), "."), enc(args[1]))
		sig := &SymStr{b: []Value{&Opaque{kind: "sig", v: &sigVal{in.concName(args[2]), in.concI(args[3]), s}}}}
		return strCat(strCat(s, "."), sig)
	}
	V["JWTWithSig"] = func(in *Interp, fr *Frame, args []Value) Value {
		loadKeys(in.prog)
		s := strCat(strCat(enc(args[0]), "."), enc(args[1]))
		t := strCat(strCat(enc(args[2]), "."), enc(args[3]))
		sig := &SymStr{b: []Value{&Opaque{kind: "sig", v: &sigVal{in.concName(args[4]), in.concI(args[5]), t}}}}
		return strCat(strCat(s, "."), sig)
	}
	V["ZMSSign"] = func(in *Interp, fr *Frame, args []Value) Value {
		loadKeys(in.prog)
		return &SymStr{b: []Value{&Opaque{kind: "sig", v: &sigVal{"zms", in.concI(args[1]), args[0]}}}}
	}
	V["YB64"] = func(in *Interp, fr *Frame, args []Value) Value {
		return yb64.EncodeToString([]byte(in.concName(args[0])))
	}
}

// inSet is "the byte is in the alphabet".
func (in *Interp) inSet(t *Term, ab string) *Term {
	tc := in.tc
	var have [256]bool
	for i := 0; i < len(ab); i++ {
		have[ab[i]] = true
	}
	r := tc.tFals
	for i := 0; i < 256; {
		if !have[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && have[j+1] {
			j++
		}
		if i == j {
			r = tc.Or(r, tc.Eq(t, tc.Const(8, uint64(i))))
		} else {
			r = tc.Or(r, tc.And(tc.Ule(tc.Const(8, uint64(i)), t), tc.Ule(t, tc.Const(8, uint64(j)))))
		}
		i = j + 1
	}
	return r
}
