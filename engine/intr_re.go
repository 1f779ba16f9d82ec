package main

import (
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Regular expressions: the pattern text may contain symbolic literal bytes,
// the matched text may be symbolic. MatchString becomes one formula obtained
// by running the compiled NFA over the text with Boolean state sets.

const phBase = 0xE000 // private-use runes stand for symbolic literal bytes

type reProg struct {
	prog *syntax.Prog
	ph   []Value // symbolic bytes, by placeholder index
	nat  *regexp.Regexp
	err  error
}

var reCache sync.Map // concrete pattern -> *reProg

const reMeta = `\.+*?()|[]{}^$`

// reCompile compiles a pattern whose text may hold symbolic bytes.
func (in *Interp) reCompile(pat Value) *reProg {
	if s, ok := pat.(string); ok {
		if r, ok := reCache.Load(s); ok {
			return r.(*reProg)
		}
		r := &reProg{}
		re, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			r.err = err
		} else {
			r.prog, r.err = syntax.Compile(re.Simplify())
			if r.err == nil {
				r.nat, r.err = regexp.Compile(s)
			}
		}
		reCache.Store(s, r)
		return r
	}
	b := append([]Value(nil), strBytes(pat)...)
	tc := in.tc
	var sb strings.Builder
	var ph []Value
	esc, class, brace := false, false, false
	for i := 0; i < len(b); i++ {
		x := b[i]
		if _, ok := x.(*Opaque); ok {
			panic(unsupported("regular expression with opaque text"))
		}
		if t, ok := x.(*Term); ok {
			meta := tc.tFals
			for _, m := range []byte(reMeta) {
				if m == ']' || m == '}' && !brace {
					continue // literal outside a class or repetition
				}
				meta = tc.Or(meta, tc.Eq(t, tc.Const(8, uint64(m))))
			}
			meta = tc.Or(meta, tc.Ule(tc.Const(8, 0x80), t))
			if !esc && !class && !in.path.decide(meta) {
				sb.WriteRune(rune(phBase + len(ph)))
				ph = append(ph, t)
				continue
			}
			if esc {
				// an escaped punctuation byte is a literal
				punct := tc.tFals
				for c := 0x21; c < 0x7f; c++ {
					if unicode.IsLetter(rune(c)) || unicode.IsDigit(rune(c)) {
						continue
					}
					punct = tc.Or(punct, tc.Eq(t, tc.Const(8, uint64(c))))
				}
				if in.path.decide(punct) {
					s := sb.String()
					sb.Reset()
					sb.WriteString(s[:len(s)-1])
					sb.WriteRune(rune(phBase + len(ph)))
					ph = append(ph, t)
					esc = false
					continue
				}
			}
			x = int64(in.path.concretize(t))
		}
		c := byte(x.(int64))
		sb.WriteByte(c)
		if esc {
			esc = false
			continue
		}
		switch c {
		case '\\':
			esc = true
		case '{':
			brace = true
		case '[':
			class = true
		case ']':
			class = false
		}
	}
	r := &reProg{ph: ph}
	re, err := syntax.Parse(sb.String(), syntax.Perl)
	if err != nil {
		r.err = err
		return r
	}
	r.prog, r.err = syntax.Compile(re.Simplify())
	if len(ph) == 0 && r.err == nil {
		r.nat, r.err = regexp.Compile(sb.String())
	}
	return r
}

// reMatch builds "the text contains a match of the program".
func (in *Interp) reMatch(r *reProg, text Value) Value {
	if s, ok := text.(string); ok && r.nat != nil {
		return r.nat.MatchString(s)
	}
	tc := in.tc
	bs := strBytes(text)
	// split into units: symbolic bytes must be ASCII, concrete runs may be UTF-8
	var units []Value
	for i := 0; i < len(bs); {
		switch x := bs[i].(type) {
		case *Term:
			if !in.path.decide(tc.Ult(x, tc.Const(8, 0x80))) {
				panic(unsupported("regular expression over symbolic non-ASCII text"))
			}
			units = append(units, x)
			i++
		case int64:
			if x < 0x80 {
				units = append(units, x)
				i++
				continue
			}
			j := i
			var run []byte
			for j < len(bs) {
				y, ok := bs[j].(int64)
				if !ok {
					break
				}
				run = append(run, byte(y))
				j++
			}
			for _, ru := range string(run) {
				units = append(units, int64(ru))
			}
			i = j
		default:
			panic(unsupported("regular expression over opaque text"))
		}
	}
	n := len(units)
	isC := func(i int, c int64) *Term {
		switch x := units[i].(type) {
		case int64:
			return tc.BoolC(x == c)
		case *Term:
			return tc.Eq(x, tc.Const(8, uint64(c)))
		}
		return tc.tFals
	}
	word := func(i int) *Term {
		if i < 0 || i >= n {
			return tc.tFals
		}
		return in.inRanges(units[i], []rune{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'})
	}
	empty := func(op syntax.EmptyOp, pos int) *Term {
		c := tc.tTrue
		if op&syntax.EmptyBeginText != 0 {
			c = tc.And(c, tc.BoolC(pos == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			c = tc.And(c, tc.BoolC(pos == n))
		}
		if op&syntax.EmptyBeginLine != 0 && pos > 0 {
			c = tc.And(c, isC(pos-1, '\n'))
		}
		if op&syntax.EmptyEndLine != 0 && pos < n {
			c = tc.And(c, isC(pos, '\n'))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			w := tc.Not(tc.Eq(word(pos-1), word(pos)))
			if op&syntax.EmptyWordBoundary != 0 {
				c = tc.And(c, w)
			}
			if op&syntax.EmptyNoWordBoundary != 0 {
				c = tc.And(c, tc.Not(w))
			}
		}
		return c
	}
	p := r.prog
	ni := len(p.Inst)
	cur := make([]*Term, ni)
	acc := tc.tFals
	// add propagates a condition through the epsilon edges
	var add func(set []*Term, pc uint32, c *Term, pos int, seen map[uint32]*Term)
	add = func(set []*Term, pc uint32, c *Term, pos int, seen map[uint32]*Term) {
		if c.isFalse() {
			return
		}
		if old, ok := seen[pc]; ok {
			m := tc.Or(old, c)
			if m == old {
				return
			}
			seen[pc] = m
			c = m
		} else {
			seen[pc] = c
		}
		i := p.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, i.Out, c, pos, seen)
			add(set, i.Arg, c, pos, seen)
		case syntax.InstCapture, syntax.InstNop:
			add(set, i.Out, c, pos, seen)
		case syntax.InstEmptyWidth:
			add(set, i.Out, tc.And(c, empty(syntax.EmptyOp(i.Arg), pos)), pos, seen)
		case syntax.InstMatch:
			acc = tc.Or(acc, c)
		case syntax.InstFail:
		default:
			if set[pc] == nil {
				set[pc] = c
			} else {
				set[pc] = tc.Or(set[pc], c)
			}
		}
	}
	for pos := 0; pos <= n; pos++ {
		// existing states already closed; a match may start anywhere
		seen := map[uint32]*Term{}
		add(cur, uint32(p.Start), tc.tTrue, pos, seen)
		if acc.isTrue() || pos == n {
			break
		}
		next := make([]*Term, ni)
		seen = map[uint32]*Term{}
		for pc := 0; pc < ni; pc++ {
			c := cur[pc]
			if c == nil {
				continue
			}
			i := &p.Inst[pc]
			m := in.runeMatch(r, i, units[pos])
			add(next, i.Out, tc.And(c, m), pos+1, seen)
		}
		cur = next
	}
	return bval(acc)
}

func (in *Interp) runeMatch(r *reProg, i *syntax.Inst, u Value) *Term {
	tc := in.tc
	switch i.Op {
	case syntax.InstRuneAny:
		return tc.tTrue
	case syntax.InstRuneAnyNotNL:
		return in.tc.Not(in.inRanges(u, []rune{'\n', '\n'}))
	}
	rs := i.Rune
	if len(rs) == 1 {
		x := rs[0]
		if x >= phBase && int(x-phBase) < len(r.ph) {
			e := in.unitEq(u, r.ph[x-phBase])
			if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
				panic(unsupported("case-folded symbolic pattern"))
			}
			return e
		}
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			c := tc.Or(tc.tFals, in.inRanges(u, []rune{x, x}))
			for f := unicode.SimpleFold(x); f != x; f = unicode.SimpleFold(f) {
				c = tc.Or(c, in.inRanges(u, []rune{f, f}))
			}
			return c
		}
		return in.inRanges(u, []rune{x, x})
	}
	c := tc.tFals
	for j := 0; j+1 < len(rs); j += 2 {
		lo, hi := rs[j], rs[j+1]
		if hi >= phBase && lo < phBase+rune(len(r.ph)) && len(r.ph) > 0 && lo == hi {
			c = tc.Or(c, in.unitEq(u, r.ph[lo-phBase]))
			continue
		}
		if len(r.ph) > 0 && lo >= phBase && hi < phBase+rune(len(r.ph)) {
			// several adjacent placeholders folded into one range by the parser
			for x := lo; x <= hi; x++ {
				c = tc.Or(c, in.unitEq(u, r.ph[x-phBase]))
			}
			continue
		}
		c = tc.Or(c, in.inRanges(u, []rune{lo, hi}))
	}
	return c
}

func (in *Interp) unitEq(u, b Value) *Term {
	if x, ok := u.(int64); ok && x >= 0x80 {
		return in.tc.tFals
	}
	return in.byteEq(u, b)
}

func (in *Interp) inRanges(u Value, rs []rune) *Term {
	tc := in.tc
	c := tc.tFals
	for j := 0; j+1 < len(rs); j += 2 {
		lo, hi := rs[j], rs[j+1]
		switch x := u.(type) {
		case int64:
			if rune(x) >= lo && rune(x) <= hi {
				return tc.tTrue
			}
		case *Term:
			if lo > 0x7f {
				continue
			}
			if hi > 0x7f {
				hi = 0x7f
			}
			if lo == hi {
				c = tc.Or(c, tc.Eq(x, tc.Const(8, uint64(lo))))
			} else {
				c = tc.Or(c, tc.And(tc.Ule(tc.Const(8, uint64(lo)), x), tc.Ule(x, tc.Const(8, uint64(hi)))))
			}
		}
	}
	return c
}

func (in *Interp) reExpr(fr *Frame, v Value) Value {
	p, ok := v.(*Value)
	if !ok {
		panic(engineErr("regexp receiver %T", v))
	}
	if p == nil {
		in.nilDeref(fr)
	}
	return (*p).(Struct)[0]
}

// reReal gives the receiver fully compiled by the real (interpreted) package.
func (in *Interp) reReal(fr *Frame, v Value) Value {
	p, ok := v.(*Value)
	if !ok || p == nil {
		in.nilDeref(fr)
	}
	s := (*p).(Struct)
	if q, ok := s[1].(*Value); ok && q != nil {
		return v
	}
	f := in.prog.fn("regexp", "compile")
	r := in.callBody(fr, in.fnOf(f), []Value{s[0], int64(syntax.Perl), false}, nil, nil).(Tuple)
	if ifaceOf(r[1]).t != nil {
		panic(engineErr("regexp: compile failed on a compiled pattern"))
	}
	return r[0]
}

func initRegexp(I map[string]Intrinsic) {
	mk := func(in *Interp, pat Value) Value {
		t := in.prog.typ("regexp", "Regexp")
		s := zero(t).(Struct)
		s[0] = pat
		c := new(Value)
		*c = s
		return c
	}
	I["regexp.Compile"] = func(in *Interp, fr *Frame, args []Value) Value {
		r := in.reCompile(args[0])
		if r.err != nil {
			return Tuple{(*Value)(nil), in.mkError("error parsing regexp: " + strings.TrimPrefix(r.err.Error(), "error parsing regexp: "))}
		}
		return Tuple{mk(in, args[0]), Iface{}}
	}
	I["regexp.MustCompile"] = func(in *Interp, fr *Frame, args []Value) Value {
		r := in.reCompile(args[0])
		if r.err != nil {
			in.targetPanic("regexp: Compile: " + r.err.Error())
		}
		return mk(in, args[0])
	}
	match := func(in *Interp, fr *Frame, args []Value) Value {
		text := args[1]
		if b, ok := text.(Slice); ok {
			text = bytesToStr(b)
		}
		return in.reMatch(in.reCompile(in.reExpr(fr, args[0])), text)
	}
	I["(*regexp.Regexp).MatchString"] = match
	I["(*regexp.Regexp).Match"] = match
	I["(*regexp.Regexp).String"] = func(in *Interp, fr *Frame, args []Value) Value { return in.reExpr(fr, args[0]) }
	I["regexp.MatchString"] = func(in *Interp, fr *Frame, args []Value) Value {
		r := in.reCompile(args[0])
		if r.err != nil {
			return Tuple{false, in.mkError(r.err.Error())}
		}
		return Tuple{in.reMatch(r, args[1]), Iface{}}
	}
	I["regexp.QuoteMeta"] = func(in *Interp, fr *Frame, args []Value) Value {
		var out []Value
		tc := in.tc
		for _, x := range strBytes(args[0]) {
			meta := false
			switch y := x.(type) {
			case int64:
				meta = strings.IndexByte(reMeta, byte(y)) >= 0
			case *Term:
				c := tc.tFals
				for _, m := range []byte(reMeta) {
					c = tc.Or(c, tc.Eq(y, tc.Const(8, uint64(m))))
				}
				meta = in.path.decide(c)
			}
			if meta {
				out = append(out, int64('\\'))
			}
			out = append(out, x)
		}
		return mkStr(out)
	}
}

// regexpFallback serves the other methods of Regexp.
func regexpFallback(f *ssa.Function) Intrinsic {
	name := f.Name()
	if f.Signature.Recv() == nil || len(name) == 0 || name[0] < 'A' || name[0] > 'Z' || pkgPathOf(f) != "regexp" {
		return nil
	}
	if f.String() != "(*regexp.Regexp)."+name {
		return nil
	}
	return func(in *Interp, fr *Frame, args []Value) Value {
		e := in.reExpr(fr, args[0])
		if es, ok := e.(string); ok {
			if r := in.reCompile(es); r.nat != nil {
				switch name {
				case "ReplaceAllString", "ReplaceAllLiteralString":
					src, ok1 := args[1].(string)
					rep, ok2 := args[2].(string)
					if ok1 && ok2 {
						if name == "ReplaceAllString" {
							return r.nat.ReplaceAllString(src, rep)
						}
						return r.nat.ReplaceAllLiteralString(src, rep)
					}
				case "FindString":
					if src, ok := args[1].(string); ok {
						return r.nat.FindString(src)
					}
				case "FindStringIndex":
					if src, ok := args[1].(string); ok {
						loc := r.nat.FindStringIndex(src)
						if loc == nil {
							return Slice(nil)
						}
						return Slice{int64(loc[0]), int64(loc[1])}
					}
				}
			}
		}
		na := append([]Value(nil), args...)
		na[0] = in.reReal(fr, args[0])
		return in.callBody(fr, in.fnOf(f), na, nil, nil)
	}
}
