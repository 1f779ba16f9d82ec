package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
)

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (in *Interp) hasMethod(t types.Type, name string) bool {
	return in.prog.lookupMethod(t, nil, name) != nil
}

// textOf formats v like %v; plus for %+v.
func (in *Interp) textOf(fr *Frame, v Value, t types.Type, verb byte, plus bool, depth int) Value {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "<nil>"
		}
		return in.textOf(fr, i.v, i.t, verb, plus, depth)
	}
	if depth > 8 {
		return "..."
	}
	if verb != 'd' && verb != 'x' && verb != 'p' && verb != 'T' {
		if in.implements(t, errorIface) {
			if p, isP := v.(*Value); !(isP && p == nil) {
				r, _ := in.callMethod(fr, Iface{t, v}, "Error")
				return r
			}
			return "<nil>"
		}
		if f := in.prog.lookupMethod(t, nil, "String"); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
			if p, isP := v.(*Value); isP && p == nil {
				return "<nil>"
			}
			if depth == 0 || exportedPath(t) {
				r, _ := in.callMethod(fr, Iface{t, v}, "String")
				return r
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case string, *SymStr:
			return x
		case bool:
			return strconv.FormatBool(x)
		case int64:
			k, _ := basicInt(u)
			if !k.signed {
				return strconv.FormatUint(uint64(x), 10)
			}
			return strconv.FormatInt(x, 10)
		case *Term:
			if x.w == 0 {
				if in.path.decide(x) {
					return "true"
				}
				return "false"
			}
			return in.numText(x, u)
		case float64:
			return fmt.Sprint(x)
		}
		return fmt.Sprint(v)
	case *types.Slice:
		s, _ := v.(Slice)
		if k, ok := basicInt(u.Elem()); ok && k.w == 8 && verb == 's' {
			return bytesToStr(s)
		}
		var out Value = "["
		for i, e := range s {
			if i > 0 {
				out = strCat(out, " ")
			}
			out = strCat(out, in.textOf(fr, e, u.Elem(), verb, plus, depth+1))
		}
		return strCat(out, "]")
	case *types.Array:
		s, _ := v.(Array)
		var out Value = "["
		for i, e := range s {
			if i > 0 {
				out = strCat(out, " ")
			}
			out = strCat(out, in.textOf(fr, e, u.Elem(), verb, plus, depth+1))
		}
		return strCat(out, "]")
	case *types.Struct:
		s, _ := v.(Struct)
		var out Value = "{"
		for i := 0; i < u.NumFields() && i < len(s); i++ {
			if i > 0 {
				out = strCat(out, " ")
			}
			if plus {
				out = strCat(out, u.Field(i).Name()+":")
			}
			out = strCat(out, in.textOf(fr, s[i], u.Field(i).Type(), verb, plus, depth+1))
		}
		return strCat(out, "}")
	case *types.Map:
		m, _ := v.(*Map)
		var out Value = "map["
		if m != nil {
			first := true
			for _, i := range in.sortedEnts(m) {
				if !first {
					out = strCat(out, " ")
				}
				first = false
				out = strCat(out, in.textOf(fr, m.ents[i].k, u.Key(), verb, plus, depth+1))
				out = strCat(out, ":")
				out = strCat(out, in.textOf(fr, m.ents[i].v, u.Elem(), verb, plus, depth+1))
			}
		}
		return strCat(out, "]")
	case *types.Pointer:
		p, ok := v.(*Value)
		if ok && p == nil {
			return "<nil>"
		}
		if ok && depth == 0 && isAgg(u.Elem()) {
			return strCat("&", in.textOf(fr, *p, u.Elem(), verb, plus, depth+1))
		}
		return "0xc000000000"
	case *types.Interface:
		return "<nil>"
	case *types.Chan, *types.Signature:
		return "0xc000000000"
	}
	return "?"
}

func exportedPath(t types.Type) bool { return true }

// sortedEnts lists live entries, by key when all keys are concrete strings.
func (in *Interp) sortedEnts(m *Map) []int {
	var idx []int
	all := true
	for i := range m.ents {
		if m.ents[i].live {
			idx = append(idx, i)
			if _, ok := m.ents[i].k.(string); !ok {
				all = false
			}
		}
	}
	if all {
		sort.Slice(idx, func(a, b int) bool { return m.ents[idx[a]].k.(string) < m.ents[idx[b]].k.(string) })
	} else if len(idx) > 1 {
		// order by symbolic comparison
		for i := 1; i < len(idx); i++ {
			for j := i; j > 0; j-- {
				ka, ok1 := m.ents[idx[j]].k, true
				if _, s := ka.(string); !s {
					_, ok1 = ka.(*SymStr)
				}
				kb := m.ents[idx[j-1]].k
				if !ok1 {
					break
				}
				if _, s := kb.(string); !s {
					if _, s2 := kb.(*SymStr); !s2 {
						break
					}
				}
				if in.path.decide(in.strLess(ka, kb, false)) {
					idx[j], idx[j-1] = idx[j-1], idx[j]
				} else {
					break
				}
			}
		}
	}
	return idx
}

func (in *Interp) numText(x *Term, t types.Type) Value {
	if x.isConst() {
		return strconv.FormatInt(sext64(x.val, x.w), 10)
	}
	return &SymStr{b: []Value{&Opaque{kind: "num", v: x, t: t}}}
}

func toNative(v Value, t types.Type) (any, bool) {
	switch x := v.(type) {
	case string, bool, float64:
		return x, true
	case int64:
		if k, ok := basicInt(t); ok && !k.signed {
			return uint64(x), true
		}
		return x, true
	case Slice:
		if u, ok := t.Underlying().(*types.Slice); ok {
			if k, ok := basicInt(u.Elem()); ok && k.w == 8 {
				if s, ok := bytesToStr(x).(string); ok {
					return []byte(s), true
				}
			}
		}
	}
	return nil, false
}

func (in *Interp) sprintf(fr *Frame, format Value, args Slice) Value {
	f, ok := format.(string)
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	var out Value = ""
	ai := 0
	for i := 0; i < len(f); {
		j := i
		for j < len(f) && f[j] != '%' {
			j++
		}
		if j > i {
			out = strCat(out, f[i:j])
		}
		if j >= len(f) {
			break
		}
		k := j + 1
		for k < len(f) && (f[k] == '+' || f[k] == '#' || f[k] == '-' || f[k] == ' ' || f[k] == '0' || f[k] >= '1' && f[k] <= '9' || f[k] == '.') {
			k++
		}
		if k >= len(f) {
			out = strCat(out, "%!(NOVERB)")
			break
		}
		verb := f[k]
		flags := f[j+1 : k]
		i = k + 1
		if verb == '%' {
			out = strCat(out, "%")
			continue
		}
		if ai >= len(args) {
			out = strCat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		out = strCat(out, in.fmtArg(fr, a, verb, flags))
	}
	if ai < len(args) {
		out = strCat(out, "%!(EXTRA ")
		for n, a := range args[ai:] {
			if n > 0 {
				out = strCat(out, ", ")
			}
			ia := a.(Iface)
			if ia.t == nil {
				out = strCat(out, "<nil>")
				continue
			}
			out = strCat(out, types.TypeString(ia.t, func(p *types.Package) string { return p.Name() })+"=")
			out = strCat(out, in.textOf(fr, ia.v, ia.t, 'v', false, 0))
		}
		out = strCat(out, ")")
	}
	return out
}

func (in *Interp) fmtArg(fr *Frame, a Iface, verb byte, flags string) Value {
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if a.t == nil {
		if verb == 'v' || verb == 'w' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if flags != "" && flags != "+" {
		if n, ok := toNative(a.v, a.t); ok {
			return fmt.Sprintf("%"+flags+string(verb), n)
		}
		if verb == 'v' {
			return in.textOf(fr, a.v, a.t, 'v', true, 0)
		}
		panic(unsupported("format flags " + flags))
	}
	switch verb {
	case 'v', 's', 'w':
		if _, ok := a.v.(string); !ok && verb == 's' {
			if b, isB := a.t.Underlying().(*types.Basic); isB && b.Info()&types.IsString == 0 &&
				!in.implements(a.t, errorIface) && !in.hasMethod(a.t, "String") {
				return strCat("%!s("+a.t.String()+"=", strCat(in.textOf(fr, a.v, a.t, 'v', false, 0), ")"))
			}
		}
		return in.textOf(fr, a.v, a.t, verb, flags == "+", 0)
	case 'd', 't':
		return in.textOf(fr, a.v, a.t, 'd', false, 0)
	case 'p':
		return "0xc000000000"
	case 'q':
		s := in.textOf(fr, a.v, a.t, 's', false, 0)
		if c, ok := s.(string); ok {
			return strconv.Quote(c)
		}
		return strCat("\"", strCat(s, "\""))
	}
	if n, ok := toNative(a.v, a.t); ok {
		return fmt.Sprintf("%"+flags+string(verb), n)
	}
	if verb == 'x' || verb == 'X' || verb == 'c' || verb == 'f' || verb == 'g' {
		return in.textOf(fr, a.v, a.t, 'v', false, 0)
	}
	panic(unsupported("format verb %" + string(verb)))
}

func (in *Interp) sprint(fr *Frame, args Slice, ln bool) Value {
	var out Value = ""
	prevStr := true
	for i, x := range args {
		a := x.(Iface)
		isStr := false
		if a.t != nil {
			b, ok := a.t.Underlying().(*types.Basic)
			isStr = ok && b.Info()&types.IsString != 0
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			out = strCat(out, " ")
		}
		if a.t == nil {
			out = strCat(out, "<nil>")
		} else {
			out = strCat(out, in.textOf(fr, a.v, a.t, 'v', false, 0))
		}
		prevStr = isStr
	}
	if ln {
		out = strCat(out, "\n")
	}
	return out
}

func (in *Interp) mkError(msg Value) Value {
	p := new(Value)
	*p = Struct{msg}
	return Iface{in.prog.errorsStrT, p}
}

func (in *Interp) ptrStruct(pkg, typ string, fields map[string]Value) Iface {
	t := in.prog.typ(pkg, typ)
	v := zero(t).(Struct)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if x, ok := fields[st.Field(i).Name()]; ok {
			v[i] = x
		}
	}
	p := new(Value)
	*p = v
	return Iface{types.NewPointer(t), p}
}

func fieldIdx(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
