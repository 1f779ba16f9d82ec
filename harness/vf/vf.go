// Package vf is the harness interface. Under symgo every function here is an
// intrinsic; compiled natively it replays one concrete assignment.
package vf

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
)

type replayFile struct {
	Inputs map[string]string `json:"inputs"`
	Params map[string]int64  `json:"params"`
}

var (
	mu     sync.Mutex
	in     replayFile
	loaded bool
	count  = map[string]int{}
	failed []string
	obs    []string
	pruned string
	logs   strings.Builder
)

// Reset loads a replay file (native only).
func Reset(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	in = replayFile{}
	count = map[string]int{}
	failed, obs, pruned = nil, nil, ""
	logs.Reset()
	loaded = true
	return json.Unmarshal(b, &in)
}

type StopT struct{ Why string }

// Report returns what the run observed (native only).
func Report() (fails, observations []string, prunedBy string) {
	mu.Lock()
	defer mu.Unlock()
	return failed, obs, pruned
}

func get(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	k := fmt.Sprintf("%s#%d", name, count[name])
	count[name]++
	v, ok := in.Inputs[k]
	return v, ok
}

func num(name string, def int64) int64 {
	v, ok := get(name)
	if !ok || len(v) < 2 {
		return def
	}
	n, err := strconv.ParseInt(v[2:], 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// Int is any integer in [lo,hi].
func Int(name string, lo, hi int64) int64 { return num(name, lo) }

// Bool is any Boolean.
func Bool(name string) bool {
	v, ok := get(name)
	return ok && v == "b:true"
}

// Choice is any of 0..n-1; each alternative is a separate path.
func Choice(name string, n int) int { return int(num(name, 0)) }

// Str is any byte string with a length in [min,max].
func Str(name string, min, max int) string {
	v, ok := get(name)
	if !ok {
		return strings.Repeat("a", min)
	}
	s, err := strconv.Unquote(v[2:])
	if err != nil {
		panic(err)
	}
	return s
}

// ASCII is any string over 0x01..0x7f.
func ASCII(name string, min, max int) string { return Str(name, min, max) }

// StrOf is any string over an alphabet.
func StrOf(name, alphabet string, min, max int) string { return Str(name, min, max) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		mu.Lock()
		pruned = "assume"
		mu.Unlock()
		panic(StopT{"assume"})
	}
}

// Stop ends the path.
func Stop() { panic(StopT{"stop"}) }

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		mu.Lock()
		failed = append(failed, label)
		mu.Unlock()
	}
}

// Cover marks a situation that must be reachable.
func Cover(label string) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Settle lets every other goroutine run until it blocks.
func Settle() { synctest.Wait() }

// Goroutines is the number of goroutines that have not ended.
func Goroutines() int {
	synctest.Wait()
	return runtime.NumGoroutine()
}

// Races makes unordered accesses to shared memory by different goroutines a
// violation (natively: run with the race detector).
func Races() {}

// Param is a bound that differs between the quick and the thorough tier.
func Param(name string, def int64) int64 {
	mu.Lock()
	defer mu.Unlock()
	if v, ok := in.Params[name]; ok {
		return v
	}
	return def
}

// Observe records a value both the engine and the real run must agree on.
func Observe(name string, v interface{}) {
	var s string
	switch x := v.(type) {
	case nil:
		s = "nil"
	case string:
		s = strconv.Quote(x)
	case error:
		s = "error"
	case bool:
		s = strconv.FormatBool(x)
	case []string:
		var p []string
		for _, e := range x {
			p = append(p, strconv.Quote(e))
		}
		s = "[" + strings.Join(p, " ") + "]"
	default:
		s = fmt.Sprint(x)
	}
	mu.Lock()
	obs = append(obs, name+"="+s)
	mu.Unlock()
}

// CaptureLogs makes log text available through Logs.
func CaptureLogs() {}

// AddLog is called by the native log hook.
func AddLog(s string) {
	mu.Lock()
	logs.WriteString(s)
	logs.WriteByte('\n')
	mu.Unlock()
}

// LogsContain tells whether any log line so far contains s.
func LogsContain(s string) bool {
	mu.Lock()
	defer mu.Unlock()
	return strings.Contains(logs.String(), s)
}

// Preempt explores all orders of goroutines with up to n preemptions.
func Preempt(n int) {}

// Delays explores every schedule that departs at most n times from a fair
// round-robin schedule, at any synchronisation operation.
func Delays(n int) {}

// Sequential ends the exploration of schedules started by Preempt.
func Sequential() {}

// MapOrder explores the iteration orders of maps with up to n entries.
func MapOrder(n int) {}

// ---- test keys and signatures

func pubPEM(i int) string { return []string{pub0, pub1, pub2}[i] }

// PubPEM is the public key i in PEM form.
func PubPEM(i int) string { return pubPEM(i) }

// OctKey is symmetric key i.
func OctKey(i int) []byte { return []byte([]string{oct0, oct1}[i]) }

func priv(i int) *rsa.PrivateKey {
	b, _ := pem.Decode([]byte([]string{priv0, priv1, priv2}[i]))
	k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
	if err != nil {
		panic(err)
	}
	return k
}

var pubs [3]*rsa.PublicKey

// PublicKey is the *rsa.PublicKey of key i.
func PublicKey(i int) interface{} {
	mu.Lock()
	defer mu.Unlock()
	if pubs[i] == nil {
		pubs[i] = &priv(i).PublicKey
	}
	return pubs[i]
}

// JWK is key i (symmetric key i-10 for i >= 10) as a JSON web key.
func JWK(kid string, i int) string {
	id, _ := json.Marshal(kid)
	if i >= 10 {
		return fmt.Sprintf(`{"kid":%s,"kty":"oct","k":"%s"}`, id, b64.EncodeToString(OctKey(i-10)))
	}
	k := priv(i).PublicKey
	return fmt.Sprintf(`{"kid":%s,"kty":"RSA","n":"%s","e":"%s"}`, id, b64.EncodeToString(k.N.Bytes()), b64.EncodeToString(big.NewInt(int64(k.E)).Bytes()))
}

// SameKey tells whether a raw key is key i (symmetric key i-10 for i >= 10).
func SameKey(k interface{}, i int) bool {
	switch x := k.(type) {
	case *rsa.PublicKey:
		return i < 10 && x != nil && x.Equal(&priv(i).PublicKey)
	case []byte:
		return i >= 10 && string(x) == string(OctKey(i-10))
	}
	return false
}

var b64 = base64.RawURLEncoding

// JWT builds a signed token from header and claims text; alg is RS256 or HS256.
func JWT(header, claims, alg string, key int) string {
	s := b64.EncodeToString([]byte(header)) + "." + b64.EncodeToString([]byte(claims))
	return s + "." + sigOf(s, alg, key)
}

// JWTWithSig joins header and claims with the signature made over other content.
func JWTWithSig(header, claims, sigHeader, sigClaims, alg string, key int) string {
	s := b64.EncodeToString([]byte(header)) + "." + b64.EncodeToString([]byte(claims))
	t := b64.EncodeToString([]byte(sigHeader)) + "." + b64.EncodeToString([]byte(sigClaims))
	return s + "." + sigOf(t, alg, key)
}

func sigOf(s, alg string, key int) string {
	switch alg {
	case "RS256":
		h := sha256.Sum256([]byte(s))
		sig, err := rsa.SignPKCS1v15(rand.Reader, priv(key), crypto.SHA256, h[:])
		if err != nil {
			panic(err)
		}
		return b64.EncodeToString(sig)
	case "HS256":
		m := hmac.New(sha256.New, OctKey(key))
		m.Write([]byte(s))
		return b64.EncodeToString(m.Sum(nil))
	}
	return b64.EncodeToString([]byte("nosignature"))
}

var yb64 = base64.NewEncoding("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._").WithPadding('-')

// ZMSSign signs data the way Athenz servers do.
func ZMSSign(data string, key int) string {
	h := sha256.Sum256([]byte(data))
	sig, err := rsa.SignPKCS1v15(rand.Reader, priv(key), crypto.SHA256, h[:])
	if err != nil {
		panic(err)
	}
	return yb64.EncodeToString(sig)
}

// YB64 encodes text in Athenz's base64 variant.
func YB64(s string) string { return yb64.EncodeToString([]byte(s)) }

// Q picks a bound for the quick and one for the thorough tier.
func Q(quick, thorough int) int {
	if Param("thorough", 0) == 1 {
		return thorough
	}
	return quick
}
