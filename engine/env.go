package main

import (
	"fmt"
	"github.com/lestrrat-go/jwx/jwk"
	"go/types"
	"strconv"
	"strings"
	"time"
)

// Env is per-path engine state that stands for the outside world.
type Env struct {
	capture bool
	logs    []Value
	keyIDs  map[*Value]int64
	jwks    map[jwk.Key]*jwkKey
	keys    map[string]*Value
	rndCtr  int64
}

func newEnv() *Env { return &Env{keyIDs: map[*Value]int64{}, keys: map[string]*Value{}} }

// virtual clock: starts at 2000-01-01T00:00:00Z, as testing/synctest does
const baseUnix = 946684800

func (in *Interp) nowNano() int64 { return baseUnix*1e9 + in.sch.mono }

const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

// timeVal builds a time.Time without monotonic part.
func timeVal(sec, nsec int64) Value {
	return Struct{nsec, sec + unixToInternal, (*Value)(nil)}
}

// concTime converts an interpreted time.Time to a native one (UTC).
func concTime(v Value) (time.Time, bool) {
	s, ok := v.(Struct)
	if !ok || len(s) != 3 {
		return time.Time{}, false
	}
	w, ok1 := s[0].(int64)
	e, ok2 := s[1].(int64)
	if !ok1 || !ok2 {
		return time.Time{}, false
	}
	if uint64(w)>>63 != 0 { // monotonic
		return time.Time{}, false
	}
	return time.Unix(e-unixToInternal, w&(1<<30-1)).UTC(), true
}

// render shows an observed value under an assignment, like vf.Observe does natively.
func (in *Interp) render(v Value, asg []uint64) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if s, ok := x.t.Underlying().(*types.Slice); ok {
			if _, isInt := basicInt(s.Elem()); !isInt {
				var parts []string
				for _, e := range x.v.(Slice) {
					parts = append(parts, in.render(e, asg))
				}
				return "[" + strings.Join(parts, " ") + "]"
			}
		}
		if k, ok := basicInt(x.t); ok {
			switch y := x.v.(type) {
			case int64:
				return strconv.FormatInt(y, 10)
			case *Term:
				u := in.tc.Eval(y, asg)
				if k.signed {
					return strconv.FormatInt(sext64(u, y.w), 10)
				}
				return strconv.FormatUint(u, 10)
			}
		}
		return in.render(x.v, asg)
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case *Term:
		u := in.tc.Eval(x, asg)
		if x.w == 0 {
			return strconv.FormatBool(u != 0)
		}
		return strconv.FormatUint(u, 10)
	case string, *SymStr:
		if hasOpaque(x) {
			return "opaque"
		}
		return strconv.Quote(in.path.evalStr(x, asg))
	}
	return fmt.Sprintf("%T", v)
}
