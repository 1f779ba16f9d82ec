package main

import (
	"bytes"
	"net/http"
	"net/textproto"
	"net/url"
	"strconv"
	"strings"
	"unicode/utf8"
)

func isStrV(v Value) bool {
	switch v.(type) {
	case string, *SymStr:
		return true
	}
	return false
}

// text view of a string or []byte argument
func elemsOf(v Value) []Value {
	switch x := v.(type) {
	case Slice:
		return []Value(x)
	}
	return strBytes(v)
}

func concStr(v Value) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case Slice:
		s, ok := bytesToStr(x).(string)
		return s, ok
	}
	return "", false
}

// find returns the first index >= from where pat occurs in s (element-wise), forking on symbolic equality.
func (in *Interp) find(s, pat []Value, from int) int {
	for i := from; i+len(pat) <= len(s); i++ {
		e := in.tc.tTrue
		for j := range pat {
			q := in.byteEq(s[i+j], pat[j])
			if q.isFalse() {
				e = q
				break
			}
			e = in.tc.And(e, q)
		}
		if e.isFalse() {
			continue
		}
		if in.path.decide(e) {
			return i
		}
	}
	return -1
}

func (in *Interp) findLast(s, pat []Value) int {
	for i := len(s) - len(pat); i >= 0; i-- {
		e := in.tc.tTrue
		for j := range pat {
			e = in.tc.And(e, in.byteEq(s[i+j], pat[j]))
		}
		if in.path.decide(e) {
			return i
		}
	}
	return -1
}

// asciiOnly reports whether every element is certainly (or decided to be) ASCII.
func (in *Interp) asciiOnly(b []Value) bool {
	for _, x := range b {
		switch x := x.(type) {
		case int64:
			if x >= 0x80 {
				return false
			}
		case *Term:
			if !in.path.decide(in.tc.Ult(x, in.tc.Const(8, 0x80))) {
				return false
			}
		}
	}
	return true
}

func (in *Interp) lowerB(x Value, lo, hi byte, delta int64) Value {
	switch v := x.(type) {
	case int64:
		if v >= int64(lo) && v <= int64(hi) {
			return v + delta
		}
		return v
	case *Term:
		tc := in.tc
		c := tc.And(tc.Ule(tc.Const(8, uint64(lo)), v), tc.Ule(v, tc.Const(8, uint64(hi))))
		return ival(tc.Ite(c, tc.Bin(OAdd, v, tc.Const(8, uint64(delta)&255)), v), intKind{8, false})
	}
	return x
}

func caseIntr(lo, hi byte, delta int64, nat func(string) string, isBytes bool) Intrinsic {
	return func(in *Interp, fr *Frame, args []Value) Value {
		if !isBytes {
			if s, ok := args[0].(string); ok {
				return nat(s)
			}
		}
		b := elemsOf(args[0])
		if !in.asciiOnly(b) {
			return notHandled
		}
		out := make([]Value, len(b))
		for i := range b {
			if o, ok := b[i].(*Opaque); ok {
				if o.kind != "num" {
					panic(unsupported("case mapping of opaque text"))
				}
				out[i] = o
				continue
			}
			out[i] = in.lowerB(b[i], lo, hi, delta)
		}
		if isBytes {
			return Slice(out)
		}
		return mkStr(out)
	}
}

func (in *Interp) foldEq(a, b Value) *Term {
	la, lb := elemsOf(a), elemsOf(b)
	if len(la) != len(lb) {
		return in.tc.tFals
	}
	r := in.tc.tTrue
	for i := range la {
		x, y := la[i], lb[i]
		_, o1 := x.(*Opaque)
		_, o2 := y.(*Opaque)
		if !o1 {
			x = in.lowerB(x, 'A', 'Z', 32)
		}
		if !o2 {
			y = in.lowerB(y, 'A', 'Z', 32)
		}
		r = in.tc.And(r, in.byteEq(x, y))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func initStr(I map[string]Intrinsic) {
	for _, p := range []string{"strings.", "bytes."} {
		I[p+"Index"] = func(in *Interp, fr *Frame, args []Value) Value {
			if a, ok := concStr(args[0]); ok {
				if b, ok := concStr(args[1]); ok {
					return int64(strings.Index(a, b))
				}
			}
			return int64(in.find(elemsOf(args[0]), elemsOf(args[1]), 0))
		}
		I[p+"IndexByte"] = func(in *Interp, fr *Frame, args []Value) Value {
			return int64(in.find(elemsOf(args[0]), []Value{args[1]}, 0))
		}
		I[p+"Contains"] = func(in *Interp, fr *Frame, args []Value) Value {
			if a, ok := concStr(args[0]); ok {
				if b, ok := concStr(args[1]); ok {
					return strings.Contains(a, b)
				}
			}
			// one formula, no fork
			s, pat := elemsOf(args[0]), elemsOf(args[1])
			r := in.tc.tFals
			for i := 0; i+len(pat) <= len(s); i++ {
				e := in.tc.tTrue
				for j := range pat {
					e = in.tc.And(e, in.byteEq(s[i+j], pat[j]))
				}
				r = in.tc.Or(r, e)
			}
			return bval(r)
		}
		I[p+"LastIndex"] = func(in *Interp, fr *Frame, args []Value) Value {
			return int64(in.findLast(elemsOf(args[0]), elemsOf(args[1])))
		}
		I[p+"LastIndexByte"] = func(in *Interp, fr *Frame, args []Value) Value {
			return int64(in.findLast(elemsOf(args[0]), []Value{args[1]}))
		}
		I[p+"Count"] = func(in *Interp, fr *Frame, args []Value) Value {
			if a, ok := concStr(args[0]); ok {
				if b, ok := concStr(args[1]); ok {
					return int64(strings.Count(a, b))
				}
			}
			s, pat := elemsOf(args[0]), elemsOf(args[1])
			if len(pat) == 0 {
				return notHandled
			}
			n, i := int64(0), 0
			for {
				j := in.find(s, pat, i)
				if j < 0 {
					return n
				}
				n++
				i = j + len(pat)
			}
		}
		I[p+"EqualFold"] = func(in *Interp, fr *Frame, args []Value) Value {
			if a, ok := concStr(args[0]); ok {
				if b, ok := concStr(args[1]); ok {
					return strings.EqualFold(a, b)
				}
			}
			if !in.asciiOnly(elemsOf(args[0])) || !in.asciiOnly(elemsOf(args[1])) {
				return notHandled
			}
			return bval(in.foldEq(args[0], args[1]))
		}
		I[p+"HasPrefix"] = func(in *Interp, fr *Frame, args []Value) Value {
			s, pat := elemsOf(args[0]), elemsOf(args[1])
			if len(s) < len(pat) {
				for _, x := range s {
					if _, ok := x.(*Opaque); ok {
						panic(unsupported("prefix test on opaque text"))
					}
				}
				return false
			}
			return bval(in.seqEq(s[:len(pat)], pat))
		}
		I[p+"HasSuffix"] = func(in *Interp, fr *Frame, args []Value) Value {
			s, pat := elemsOf(args[0]), elemsOf(args[1])
			if len(s) < len(pat) {
				return false
			}
			return bval(in.seqEq(s[len(s)-len(pat):], pat))
		}
	}
	I["bytes.Equal"] = func(in *Interp, fr *Frame, args []Value) Value {
		return bval(in.strEq(bytesToStr(args[0].(Slice)), bytesToStr(args[1].(Slice))))
	}
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["strings.Compare"] = func(in *Interp, fr *Frame, args []Value) Value {
		if a, ok := args[0].(string); ok {
			if b, ok := args[1].(string); ok {
				return int64(strings.Compare(a, b))
			}
		}
		if in.path.decide(in.strEq(args[0], args[1])) {
			return int64(0)
		}
		if in.path.decide(in.strLess(args[0], args[1], false)) {
			return int64(-1)
		}
		return int64(1)
	}
	I["internal/bytealg.CompareString"] = I["strings.Compare"]
	I["internal/bytealg.Compare"] = func(in *Interp, fr *Frame, args []Value) Value {
		return I["strings.Compare"](in, fr, []Value{bytesToStr(args[0].(Slice)), bytesToStr(args[1].(Slice))})
	}
	I["internal/bytealg.IndexByteString"] = I["strings.IndexByte"]
	I["internal/bytealg.IndexByte"] = I["strings.IndexByte"]
	I["internal/bytealg.LastIndexByteString"] = I["strings.LastIndexByte"]
	I["internal/bytealg.LastIndexByte"] = I["strings.LastIndexByte"]
	I["internal/bytealg.CountString"] = func(in *Interp, fr *Frame, args []Value) Value {
		s := elemsOf(args[0])
		n, i := int64(0), 0
		for {
			j := in.find(s, []Value{args[1]}, i)
			if j < 0 {
				return n
			}
			n++
			i = j + 1
		}
	}
	I["internal/bytealg.Count"] = I["internal/bytealg.CountString"]
	I["internal/bytealg.IndexString"] = I["strings.Index"]
	I["internal/bytealg.Index"] = I["strings.Index"]
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/stringslite.IndexByte"] = I["strings.IndexByte"]
	I["internal/stringslite.HasPrefix"] = I["strings.HasPrefix"]
	I["internal/stringslite.HasSuffix"] = I["strings.HasSuffix"]
	I["internal/bytealg.MakeNoZero"] = func(in *Interp, fr *Frame, args []Value) Value {
		n := in.concInt(args[0], intKind{64, true})
		s := make(Slice, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	}
	I["strings.ToLower"] = caseIntr('A', 'Z', 32, strings.ToLower, false)
	I["strings.ToUpper"] = caseIntr('a', 'z', -32, strings.ToUpper, false)
	I["bytes.ToLower"] = caseIntr('A', 'Z', 32, nil, true)
	I["bytes.ToUpper"] = caseIntr('a', 'z', -32, nil, true)
	conc1 := func(f func(string) Value) Intrinsic {
		return func(in *Interp, fr *Frame, args []Value) Value {
			if s, ok := args[0].(string); ok {
				return f(s)
			}
			return notHandled
		}
	}
	// trimming around opaque text: the text itself is never empty, and no byte it may contain is cut
	trim := func(name string, left, right bool, set func(args []Value) (string, bool)) {
		I[name] = func(in *Interp, fr *Frame, args []Value) Value {
			cut, ok := set(args)
			if !ok {
				return notHandled
			}
			if s, ok := args[0].(string); ok {
				l := s
				if left {
					l = strings.TrimLeft(l, cut)
				}
				if right {
					l = strings.TrimRight(l, cut)
				}
				return l
			}
			if !hasOpaque(args[0]) {
				return notHandled
			}
			b := elemsOf(args[0])
			isCut := func(x Value) bool {
				if o, ok := x.(*Opaque); ok {
					for i := 0; i < len(cut); i++ {
						if opaqueMay(o.kind, cut[i]) {
							panic(unsupported("trimming opaque text"))
						}
					}
					return false
				}
				e := in.tc.tFals
				for i := 0; i < len(cut); i++ {
					e = in.tc.Or(e, in.byteEq(x, int64(cut[i])))
				}
				return in.path.decide(e)
			}
			for left && len(b) > 0 && isCut(b[0]) {
				b = b[1:]
			}
			for right && len(b) > 0 && isCut(b[len(b)-1]) {
				b = b[:len(b)-1]
			}
			return mkStr(b)
		}
	}
	cutset := func(args []Value) (string, bool) {
		c, ok := args[1].(string)
		for i := 0; ok && i < len(c); i++ {
			ok = c[i] < 0x80
		}
		return c, ok
	}
	trim("strings.Trim", true, true, cutset)
	trim("strings.TrimLeft", true, false, cutset)
	trim("strings.TrimRight", false, true, cutset)
	trimOpq := func(args []Value) (string, bool) { return "\t\n\v\f\r ", hasOpaque(args[0]) && isASCIIText(args[0]) }
	trim("strings.TrimSpace", true, true, trimOpq)
	if trimSp := I["strings.TrimSpace"]; trimSp != nil {
		I["strings.TrimSpace"] = func(in *Interp, fr *Frame, args []Value) Value {
			if s, ok := args[0].(string); ok {
				return strings.TrimSpace(s)
			}
			return trimSp(in, fr, args)
		}
	}
	I["strings.Fields"] = conc1(func(s string) Value { return strSlice(strings.Fields(s)) })
	I["unicode/utf8.ValidString"] = func(in *Interp, fr *Frame, args []Value) Value {
		if s, ok := args[0].(string); ok {
			return utf8.ValidString(s)
		}
		if hasOpaque(args[0]) {
			return true
		}
		return notHandled
	}
	I["unicode/utf8.Valid"] = func(in *Interp, fr *Frame, args []Value) Value {
		if s, ok := concStr(args[0]); ok {
			return utf8.ValidString(s)
		}
		return notHandled
	}
	I["unicode/utf8.RuneCountInString"] = func(in *Interp, fr *Frame, args []Value) Value {
		if s, ok := args[0].(string); ok {
			return int64(utf8.RuneCountInString(s))
		}
		return notHandled
	}
	rep := func(in *Interp, fr *Frame, args []Value, n int64) Value {
		a, ok1 := args[0].(string)
		b, ok2 := args[1].(string)
		c, ok3 := args[2].(string)
		if ok1 && ok2 && ok3 {
			return strings.Replace(a, b, c, int(n))
		}
		return notHandled
	}
	I["strings.Replace"] = func(in *Interp, fr *Frame, args []Value) Value {
		return rep(in, fr, args, in.concInt(args[3], intKind{64, true}))
	}
	I["strings.Split"] = func(in *Interp, fr *Frame, args []Value) Value {
		if a, ok := args[0].(string); ok {
			if b, ok := args[1].(string); ok {
				return strSlice(strings.Split(a, b))
			}
		}
		return notHandled
	}
	// (the tables of these are indexed by the byte)
	I["(*strings.byteStringReplacer).Replace"] = func(in *Interp, fr *Frame, args []Value) Value {
		if !hasOpaque(args[1]) {
			return notHandled
		}
		st, ok := in.load(args[0], fr).(Struct)
		if !ok {
			return notHandled
		}
		tab := st[0].(Array)
		var out []Value
	next:
		for _, x := range elemsOf(args[1]) {
			for c := range tab {
				if r, ok := tab[c].(Slice); ok && r != nil && in.path.decide(in.byteEq(x, int64(c))) {
					out = append(out, r...)
					continue next
				}
			}
			out = append(out, x)
		}
		return mkStr(out)
	}
	I["(*strings.byteReplacer).Replace"] = func(in *Interp, fr *Frame, args []Value) Value {
		if !hasOpaque(args[1]) {
			return notHandled
		}
		tab, ok := in.load(args[0], fr).(Array)
		if !ok {
			return notHandled
		}
		var out []Value
	next:
		for _, x := range elemsOf(args[1]) {
			for c := range tab {
				if tab[c] != int64(c) && in.path.decide(in.byteEq(x, int64(c))) {
					out = append(out, tab[c])
					continue next
				}
			}
			out = append(out, x)
		}
		return mkStr(out)
	}
	I["strings.Clone"] = retArg0
	I["strings.IndexAny"] = func(in *Interp, fr *Frame, args []Value) Value {
		a, ok1 := args[0].(string)
		b, ok2 := args[1].(string)
		if ok1 && ok2 {
			return int64(strings.IndexAny(a, b))
		}
		return notHandled
	}
	// ---- strings.Builder
	I["(*strings.Builder).copyCheck"] = noop
	I["(*strings.Builder).String"] = func(in *Interp, fr *Frame, args []Value) Value {
		s := (*args[0].(*Value)).(Struct)
		return bytesToStr(s[1].(Slice))
	}
	I["(*strings.Builder).WriteString"] = func(in *Interp, fr *Frame, args []Value) Value {
		if args[0].(*Value) == nil {
			in.nilDeref(fr)
		}
		s := (*args[0].(*Value)).(Struct)
		old := s[1].(Slice)
		n := make(Slice, 0, len(old)+strLen(args[1])+16)
		n = append(n, old...)
		n = append(n, strBytes(args[1])...)
		in.setCell(&s[1], n)
		return Tuple{int64(strLen(args[1])), Iface{}}
	}
	// ---- strconv
	I["strconv.Itoa"] = func(in *Interp, fr *Frame, args []Value) Value {
		switch x := args[0].(type) {
		case int64:
			return strconv.FormatInt(x, 10)
		case *Term:
			return in.numText(x, nil)
		}
		return notHandled
	}
	I["strconv.FormatInt"] = func(in *Interp, fr *Frame, args []Value) Value {
		b, _ := args[1].(int64)
		switch x := args[0].(type) {
		case int64:
			return strconv.FormatInt(x, int(b))
		case *Term:
			if b == 10 {
				return in.numText(x, nil)
			}
		}
		return notHandled
	}
	I["strconv.FormatUint"] = func(in *Interp, fr *Frame, args []Value) Value {
		b, _ := args[1].(int64)
		switch x := args[0].(type) {
		case int64:
			return strconv.FormatUint(uint64(x), int(b))
		}
		return notHandled
	}
	I["strconv.ParseInt"] = func(in *Interp, fr *Frame, args []Value) Value {
		if s, ok := args[0].(*SymStr); ok && len(s.b) == 1 {
			if o, ok := s.b[0].(*Opaque); ok && o.kind == "num" {
				t := o.v.(*Term)
				if t.w == 64 {
					return Tuple{t, Iface{}}
				}
				return Tuple{ival(in.tc.Resize(t, 64, true), intKind{64, true}), Iface{}}
			}
		}
		return notHandled
	}
	I["strconv.Atoi"] = func(in *Interp, fr *Frame, args []Value) Value {
		if s, ok := args[0].(*SymStr); ok && hasOpaque(s) {
			return I["strconv.ParseInt"](in, fr, []Value{s, int64(10), int64(64)})
		}
		return notHandled
	}
	I["strconv.Quote"] = func(in *Interp, fr *Frame, args []Value) Value {
		if s, ok := args[0].(string); ok {
			return strconv.Quote(s)
		}
		return strCat("\"", strCat(args[0], "\""))
	}
	I["internal/strconv.ParseInt"] = notH
	// ---- sort
	I["sort.Slice"] = func(in *Interp, fr *Frame, args []Value) Value {
		s, _ := args[0].(Iface).v.(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := in.callValue(fr, args[1], []Value{int64(j), int64(j - 1)})
				var less bool
				switch x := r.(type) {
				case bool:
					less = x
				case *Term:
					less = in.path.decide(x)
				}
				if !less {
					break
				}
				a, b := copyVal(s[j]), copyVal(s[j-1])
				in.store(&s[j], b)
				in.store(&s[j-1], a)
			}
		}
		return nil
	}
	I["sort.SliceStable"] = I["sort.Slice"]
	// ---- net/textproto, url
	I["net/textproto.CanonicalMIMEHeaderKey"] = conc1(func(s string) Value { return textproto.CanonicalMIMEHeaderKey(s) })
	I["net/http.CanonicalHeaderKey"] = conc1(func(s string) Value { return http.CanonicalHeaderKey(s) })
	I["net/http.knownRoundTripperImpl"] = func(in *Interp, fr *Frame, args []Value) Value {
		i, ok := args[0].(Iface)
		return ok && i.t != nil && i.t.String() == "*net/http.Transport" // no alternate transports are registered
	}
	I["net/url.QueryEscape"] = conc1(func(s string) Value { return url.QueryEscape(s) })
	I["net/url.PathEscape"] = conc1(func(s string) Value { return url.PathEscape(s) })
	_ = bytes.Equal
}

var notH Intrinsic = func(in *Interp, fr *Frame, args []Value) Value { return notHandled }

func strSlice(ss []string) Value {
	out := make(Slice, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	if ss == nil {
		return Slice(nil)
	}
	return out
}

func (in *Interp) seqEq(a, b []Value) *Term {
	r := in.tc.tTrue
	for i := range a {
		r = in.tc.And(r, in.byteEq(a[i], b[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// isASCIIText: no concrete byte outside ASCII (opaque text is ASCII).
func isASCIIText(v Value) bool {
	for _, x := range elemsOf(v) {
		if c, ok := x.(int64); ok && c >= 0x80 {
			return false
		}
	}
	return true
}
