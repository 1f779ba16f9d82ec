package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"go/types"
	"strings"

	"github.com/lestrrat-go/jwx/jwk"
	"golang.org/x/tools/go/ssa"
)

const jwtPkg = "github.com/golang-jwt/jwt/v4"
const jwkPkg = "github.com/lestrrat-go/jwx/jwk"
const zmsPkg = "github.com/AthenZ/athenz/libs/go/zmssvctoken"
const glgPkg = "github.com/kpango/glg"

// sigVal is an ideal signature: made only by whoever holds the private key.
type sigVal struct {
	alg   string
	key   int64
	input Value
}

func (in *Interp) concBytes(v Value) ([]byte, bool) {
	s, ok := v.(Slice)
	if !ok {
		if a, isA := v.(Array); isA {
			s = Slice(a)
		} else {
			return nil, false
		}
	}
	out := make([]byte, len(s))
	for i, x := range s {
		c, ok := x.(int64)
		if !ok {
			return nil, false
		}
		out[i] = byte(c)
	}
	return out, true
}

func goBytes(b []byte) Slice {
	out := make(Slice, len(b))
	for i, c := range b {
		out[i] = int64(c)
	}
	return out
}

// singleOpaque returns the opaque element a string consists of.
func singleOpaque(v Value, kind string) *Opaque {
	s, ok := v.(*SymStr)
	if !ok || len(s.b) != 1 {
		return nil
	}
	o, ok := s.b[0].(*Opaque)
	if !ok || o.kind != kind {
		return nil
	}
	return o
}

func (in *Interp) b64Enc(fr *Frame, v Value) *base64.Encoding {
	p, ok := v.(*Value)
	if !ok || p == nil {
		in.nilDeref(fr)
	}
	s := (*p).(Struct)
	t := in.prog.typ("encoding/base64", "Encoding")
	ab, _ := in.concBytes(s[fieldIdx(t, "encode")])
	if len(ab) != 64 {
		panic(unsupported("base64 alphabet"))
	}
	e := base64.NewEncoding(string(ab)).WithPadding(rune(s[fieldIdx(t, "padChar")].(int64)))
	if s[fieldIdx(t, "strict")] == true {
		e = e.Strict()
	}
	return e
}

// readAll drains an interpreted io.Reader.
func (in *Interp) readAll(fr *Frame, r Iface) (out []Value, err Iface) {
	for i := 0; i < 10000; i++ {
		buf := make(Slice, 256)
		for j := range buf {
			buf[j] = int64(0)
		}
		v, ok := in.callIface(fr, r, "Read", buf)
		if !ok {
			in.nilDeref(fr)
		}
		t := v.(Tuple)
		n := in.concInt(t[0], intKind{64, true})
		out = append(out, buf[:n]...)
		if e := ifaceOf(t[1]); e.t != nil {
			if in.eqVal(e, in.globalVal("io", "EOF")).isTrue() {
				return out, Iface{}
			}
			return out, e
		}
	}
	panic(pathEnd{endLimit, "endless reader"})
}

// ---- JWK sets, parsed by the real library

type jwkSet struct{ s jwk.Set }
type jwkKey struct{ k jwk.Key }

// jwkIter is the iterator of a set: a snapshot of the keys at the time it was made.
type jwkIter struct {
	keys []jwk.Key
	next int
}

// jwkKeyOf gives one object per key, so that keys can be compared.
func (in *Interp) jwkKeyOf(k jwk.Key) Iface {
	o := in.env.jwks[k]
	if o == nil {
		o = &jwkKey{k}
		if in.env.jwks == nil {
			in.env.jwks = map[jwk.Key]*jwkKey{}
		}
		in.env.jwks[k] = o
	}
	name := strings.TrimPrefix(fmt.Sprintf("%T", k), "*jwk.")
	return Iface{in.prog.ptrTo(in.prog.typ(jwkPkg, name)), o}
}

func (in *Interp) jwkSetOf(s jwk.Set) Iface {
	return Iface{in.prog.ptrTo(in.prog.typ(jwkPkg, "set")), &jwkSet{s}}
}

func (s *jwkSet) arg(in *Interp, fr *Frame, v Value) jwk.Key {
	k, ok := ifaceOf(v).v.(*jwkKey)
	if !ok {
		if ifaceOf(v).t == nil {
			in.nilDeref(fr)
		}
		panic(unsupported("jwk.Set with a key of another kind"))
	}
	return k.k
}

func (s *jwkSet) call(in *Interp, fr *Frame, m string, args []Value) Value {
	switch m {
	case "LookupKeyID":
		for i := 0; i < s.s.Len(); i++ {
			k, ok := s.s.Get(i)
			if !ok {
				break
			}
			if in.path.decide(in.strEq(k.KeyID(), args[0])) {
				return Tuple{in.jwkKeyOf(k), true}
			}
		}
		return Tuple{Iface{}, false}
	case "Len":
		return int64(s.s.Len())
	case "Get":
		i := in.concInt(args[0], intKind{64, true})
		k, ok := s.s.Get(int(i))
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{in.jwkKeyOf(k), true}
	case "Add":
		return s.s.Add(s.arg(in, fr, args[0]))
	case "Remove":
		return s.s.Remove(s.arg(in, fr, args[0]))
	case "Index":
		return int64(s.s.Index(s.arg(in, fr, args[0])))
	case "Clear":
		s.s.Clear()
		return nil
	case "Clone":
		c, err := s.s.Clone()
		if err != nil {
			return Tuple{Iface{}, in.mkError(err.Error())}
		}
		return Tuple{in.jwkSetOf(c), Iface{}}
	case "Iterate", "Keys":
		it := &jwkIter{next: -1}
		for i := 0; i < s.s.Len(); i++ {
			k, _ := s.s.Get(i)
			it.keys = append(it.keys, k)
		}
		return Iface{in.prog.ptrTo(in.prog.typ("github.com/lestrrat-go/iter/arrayiter", "iter")), it}
	}
	panic(unsupported("jwk.Set." + m))
}

func (it *jwkIter) call(in *Interp, fr *Frame, m string, args []Value) Value {
	switch m {
	case "Next":
		if it.next+1 >= len(it.keys) {
			return false
		}
		it.next++
		return true
	case "Pair":
		if it.next < 0 || it.next >= len(it.keys) {
			return (*Value)(nil)
		}
		p := new(Value)
		*p = Struct{int64(it.next), in.jwkKeyOf(it.keys[it.next])}
		return p
	}
	panic(unsupported("jwk iterator " + m))
}

func (k *jwkKey) call(in *Interp, fr *Frame, m string, args []Value) Value {
	switch m {
	case "KeyID":
		return k.k.KeyID()
	case "Algorithm":
		return k.k.Algorithm()
	case "KeyUsage":
		return k.k.KeyUsage()
	case "KeyType":
		return string(k.k.KeyType())
	case "Get":
		n, ok := concStr(args[0])
		if ok {
			v, has := k.k.Get(n)
			if !has {
				return Tuple{Iface{}, false}
			}
			if t, ok := v.(string); ok {
				return Tuple{Iface{types.Typ[types.String], t}, true}
			}
		}
	case "Raw":
		var raw interface{}
		if err := k.k.Raw(&raw); err != nil {
			return in.mkError(err.Error())
		}
		dst := ifaceOf(args[0])
		p, ok := dst.v.(*Value)
		if !ok || p == nil {
			in.nilDeref(fr)
		}
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("jwk Raw target"))
		}
		if _, isI := pt.Elem().Underlying().(*types.Interface); !isI {
			panic(unsupported("jwk Raw target"))
		}
		var v Iface
		switch r := raw.(type) {
		case []byte:
			v = Iface{types.NewSlice(types.Typ[types.Uint8]), goBytes(r)}
		case *rsa.PublicKey:
			loadKeys(in.prog)
			id := fmt.Sprintf("%T:%v", raw, raw)
			n := int64(-1)
			for i, tp := range testPub {
				if k := pemRSA(tp); k != nil && k.Equal(r) {
					id, n = "vf"+string(rune('0'+i)), int64(i)
				}
			}
			v = in.keyPtr(id, "crypto/rsa", "PublicKey")
			if n >= 0 {
				in.env.keyIDs[v.v.(*Value)] = n
			}
		case *rsa.PrivateKey:
			v = in.keyPtr(fmt.Sprintf("%T:%v", raw, raw), "crypto/rsa", "PrivateKey")
		case *ecdsa.PublicKey:
			v = in.keyPtr(fmt.Sprintf("%T:%v", raw, raw), "crypto/ecdsa", "PublicKey")
		case ed25519.PublicKey:
			v = Iface{in.prog.typ("crypto/ed25519", "PublicKey"), goBytes(r)}
		default:
			panic(unsupported(fmt.Sprintf("jwk raw key %T", raw)))
		}
		in.setCell(p, v)
		return Iface{}
	}
	panic(unsupported("jwk.Key." + m))
}

// keyPtr gives one pointer per distinct key material.
func pemRSA(s string) *rsa.PublicKey {
	b, _ := pem.Decode([]byte(s))
	if b == nil {
		return nil
	}
	k, _ := x509.ParsePKIXPublicKey(b.Bytes)
	r, _ := k.(*rsa.PublicKey)
	return r
}

func (in *Interp) keyPtr(id, pkg, name string) Iface {
	t := in.prog.typ(pkg, name)
	p := in.env.keys[id]
	if p == nil {
		p = new(Value)
		*p = zero(t)
		in.env.keys[id] = p
	}
	return Iface{in.prog.ptrTo(t), p}
}

// ---- zmssvctoken verifiers

type zmsVerifier struct {
	pem string
	key int64
}

func (z *zmsVerifier) call(in *Interp, fr *Frame, m string, args []Value) Value {
	if m != "Verify" {
		panic(unsupported("zmssvctoken.Verifier." + m))
	}
	o := singleOpaque(args[1], "sig")
	if o == nil {
		return in.mkError("invalid signature")
	}
	sv := o.v.(*sigVal)
	if sv.alg != "zms" || sv.key != z.key || !in.path.decide(in.strEq(args[0], sv.input)) {
		return in.mkError("crypto/rsa: verification error")
	}
	return Iface{}
}

func zmsParse(b []byte) error {
	block, _ := pem.Decode(b)
	if block == nil {
		return fmt.Errorf("Unable to load public key")
	}
	if !strings.HasSuffix(block.Type, "PUBLIC KEY") {
		return fmt.Errorf("Invalid public key type: %s", block.Type)
	}
	_, err := x509.ParsePKIXPublicKey(block.Bytes)
	return err
}

func initNet(I map[string]Intrinsic) {
	I["(io.discard).ReadFrom"] = func(in *Interp, fr *Frame, args []Value) Value {
		b, err := in.readAll(fr, args[1].(Iface))
		return Tuple{int64(len(b)), err}
	}
	I["io.ReadAll"] = func(in *Interp, fr *Frame, args []Value) Value {
		b, err := in.readAll(fr, args[0].(Iface))
		if b == nil {
			b = []Value{}
		}
		return Tuple{Slice(b), err}
	}
	I["crypto/sha256.Sum256"] = func(in *Interp, fr *Frame, args []Value) Value {
		b, ok := in.concBytes(args[0])
		if !ok {
			panic(unsupported("sha256 of symbolic bytes"))
		}
		s := sha256.Sum256(b)
		return Array(goBytes(s[:]))
	}
	I["crypto/subtle.ConstantTimeCompare"] = func(in *Interp, fr *Frame, args []Value) Value {
		x, _ := args[0].(Slice)
		y, _ := args[1].(Slice)
		if in.path.decide(in.strEq(bytesToStr(x), bytesToStr(y))) {
			return int64(1)
		}
		return int64(0)
	}
	I["crypto/internal/fips140/subtle.ConstantTimeCompare"] = I["crypto/subtle.ConstantTimeCompare"]
	I["crypto/internal/constanttime.boolToUint8"] = func(in *Interp, fr *Frame, args []Value) Value {
		if in.path.decide(in.bterm(args[0])) {
			return int64(1)
		}
		return int64(0)
	}
	for _, n := range []string{"RecordApproved", "RecordNonApproved"} {
		I["crypto/internal/fips140."+n] = func(in *Interp, fr *Frame, args []Value) Value { return nil }
	}
	const be = "(*encoding/base64.Encoding)."
	I[be+"EncodeToString"] = func(in *Interp, fr *Frame, args []Value) Value {
		e := in.b64Enc(fr, args[0])
		if b, ok := in.concBytes(args[1]); ok {
			return e.EncodeToString(b)
		}
		return &SymStr{b: []Value{&Opaque{kind: "b64", v: append(Slice(nil), args[1].(Slice)...)}}}
	}
	I[be+"DecodeString"] = func(in *Interp, fr *Frame, args []Value) Value {
		e := in.b64Enc(fr, args[0])
		if s, ok := args[1].(string); ok {
			b, err := e.DecodeString(s)
			if err != nil {
				return Tuple{goBytes(b), in.mkError(err.Error())}
			}
			return Tuple{goBytes(b), Iface{}}
		}
		if o := singleOpaque(args[1], "b64"); o != nil {
			return Tuple{append(Slice(nil), o.v.(Slice)...), Iface{}}
		}
		if hasOpaque(args[1]) {
			panic(unsupported("base64 decoding of mixed opaque text"))
		}
		return notHandled
	}

	// ---- JWT signatures (ideal)
	jv := func(fam string) Intrinsic {
		return func(in *Interp, fr *Frame, args []Value) Value {
			key := ifaceOf(args[3])
			bad := func(n string) Value { return in.globalVal(jwtPkg, n) }
			var id int64 = -1
			switch fam {
			case "HS":
				if key.t == nil || typeKey(key.t) != "[]byte" && typeKey(key.t) != "[]uint8" {
					return bad("ErrInvalidKeyType")
				}
			case "RS", "PS":
				if key.t == nil || typeKey(key.t) != "*crypto/rsa.PublicKey" {
					return bad("ErrInvalidKeyType")
				}
			case "ES":
				if key.t == nil || typeKey(key.t) != "*crypto/ecdsa.PublicKey" {
					return bad("ErrInvalidKeyType")
				}
			}
			o := singleOpaque(args[2], "sig")
			if o == nil {
				return bad("ErrSignatureInvalid")
			}
			sv := o.v.(*sigVal)
			mname := in.jwtAlg(args[0])
			if p, ok := key.v.(*Value); ok {
				if i, ok := in.env.keyIDs[p]; ok {
					id = i
				}
			} else if s, ok := key.v.(Slice); ok {
				if b, ok := in.concBytes(s); ok {
					for i, k := range octKeys {
						if bytes.Equal(k, b) {
							id = int64(i)
						}
					}
				}
			}
			if sv.key != id || sv.alg != mname || !in.path.decide(in.strEq(sv.input, args[1])) {
				if fam == "RS" || fam == "PS" {
					return in.mkError("crypto/rsa: verification error")
				}
				return bad("ErrSignatureInvalid")
			}
			return Iface{}
		}
	}
	I["(*"+jwtPkg+".SigningMethodRSA).Verify"] = jv("RS")
	I["(*"+jwtPkg+".SigningMethodHMAC).Verify"] = jv("HS")
	I["(*"+jwtPkg+".SigningMethodECDSA).Verify"] = jv("ES")
	I["(*"+jwtPkg+".SigningMethodRSAPSS).Verify"] = jv("PS")

	// ---- JWK
	parse := func(in *Interp, b []Value) (Value, Iface) {
		bs := make([]byte, len(b))
		for i, x := range b {
			c, ok := x.(int64)
			if !ok {
				panic(unsupported("symbolic JWK document"))
			}
			bs[i] = byte(c)
		}
		s, err := jwk.Parse(bs)
		if err != nil {
			return Iface{}, in.mkError(err.Error()).(Iface)
		}
		if s == nil {
			return Iface{}, Iface{}
		}
		return in.jwkSetOf(s), Iface{}
	}
	I[jwkPkg+".ParseReader"] = func(in *Interp, fr *Frame, args []Value) Value {
		b, err := in.readAll(fr, args[0].(Iface))
		if err.t != nil {
			return Tuple{Iface{}, err}
		}
		v, e := parse(in, b)
		return Tuple{v, e}
	}
	I[jwkPkg+".Parse"] = func(in *Interp, fr *Frame, args []Value) Value {
		v, e := parse(in, []Value(args[0].(Slice)))
		return Tuple{v, e}
	}
	I[jwkPkg+".NewSet"] = func(in *Interp, fr *Frame, args []Value) Value {
		return in.jwkSetOf(jwk.NewSet())
	}
	// ---- zmssvctoken
	I[zmsPkg+".NewVerifier"] = func(in *Interp, fr *Frame, args []Value) Value {
		b, ok := in.concBytes(args[0])
		if !ok {
			panic(unsupported("symbolic PEM"))
		}
		if err := zmsParse(b); err != nil {
			return Tuple{Iface{}, in.mkError(err.Error())}
		}
		key := int64(-1)
		for i, p := range testPub {
			if p == string(b) {
				key = int64(i)
			}
		}
		return Tuple{Iface{in.prog.ptrTo(in.prog.typ(zmsPkg, "verify")), &zmsVerifier{string(b), key}}, Iface{}}
	}
	I["(*"+zmsPkg+".YBase64).DecodeString"] = func(in *Interp, fr *Frame, args []Value) Value {
		s, ok := args[1].(string)
		if !ok {
			return notHandled
		}
		b, err := yb64.DecodeString(s)
		if err != nil {
			return Tuple{goBytes(b), in.mkError(err.Error())}
		}
		return Tuple{goBytes(b), Iface{}}
	}
}

var yb64 = base64.NewEncoding("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._").WithPadding('-')

func (in *Interp) jwtAlg(recv Value) string {
	p, ok := recv.(*Value)
	if !ok || p == nil {
		return ""
	}
	v := *p
	for {
		s, ok := v.(Struct)
		if !ok || len(s) == 0 {
			return ""
		}
		switch x := s[0].(type) {
		case string:
			return x
		case *Value:
			if x == nil {
				return ""
			}
			v = *x
		default:
			v = x
		}
	}
}

// glgIntr replaces the logger: no output, optional capture of the text.
func glgIntr(f *ssa.Function) Intrinsic {
	name := f.Name()
	if name == "init" || f.Blocks == nil || !token0(name) {
		return nil
	}
	rt := f.Signature.Results()
	recv := f.Signature.Recv() != nil
	return func(in *Interp, fr *Frame, args []Value) Value {
		a := args
		if recv {
			a = a[1:]
		}
		if in.initDepth == 0 {
			in.touchLogger(fr, name)
			if strings.HasSuffix(name, "Func") {
				// log-text closures only run when a harness looks at the log
				if len(a) == 1 && (in.env.capture || in.path.races) {
					if c, ok := a[0].(*Closure); ok && c != nil {
						s := in.callValue(fr, c, nil)
						if in.env.capture && isStrV(s) {
							in.env.logs = append(in.env.logs, s)
						}
					}
				}
			} else if in.env.capture && len(a) > 0 {
				if f.Signature.Variadic() {
					last, _ := a[len(a)-1].(Slice)
					switch {
					case len(a) == 2 && isStrV(a[0]):
						in.env.logs = append(in.env.logs, in.sprintf(fr, a[0], last))
					case len(a) == 1:
						in.env.logs = append(in.env.logs, in.sprint(fr, last, false))
					}
				}
			}
			if strings.HasPrefix(name, "Fatal") {
				panic(&targetPanicT{v: Iface{in.prog.runtimeErrT, "glg." + name}, msg: "process exit through glg." + name, pos: in.posStr(fr)})
			}
		}
		if rt.Len() == 0 {
			return nil
		}
		if rt.Len() == 1 {
			if pt, ok := rt.At(0).Type().(*types.Pointer); ok {
				p := new(Value)
				*p = zero(pt.Elem())
				return p
			}
		}
		return zero(rt)
	}
}

func b64raw(s string) string { return base64.RawURLEncoding.EncodeToString([]byte(s)) }

func token0(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

// ideal signing used by harnesses

var testPub []string // public PEM of the test keys (read from vf)
var octKeys [][]byte // symmetric test keys

func jsonCompact(b []byte) []byte {
	var o bytes.Buffer
	if json.Compact(&o, b) != nil {
		return b
	}
	return o.Bytes()
}
