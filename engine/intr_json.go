package main

import (
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// A JSON reader and writer over text with symbolic bytes, following encoding/json.

type jkind int

const (
	jNull jkind = iota
	jTrue
	jFalse
	jNum
	jStr
	jArr
	jObj
)

type jnode struct {
	k     jkind
	txt   []Value // number text or string content (decoded)
	items []*jnode
	keys  [][]Value
	start int
	end   int
}

type jstate int

const (
	jOK jstate = iota
	jMore
	jBad
)

type jparser struct {
	in  *Interp
	fr  *Frame
	b   []Value
	pos int
	msg string
	st  jstate
}

type jfail struct{}

func (p *jparser) bad(msg string) {
	p.st, p.msg = jBad, msg
	panic(jfail{})
}

func (p *jparser) more() {
	p.st, p.msg = jMore, "unexpected end of JSON input"
	panic(jfail{})
}

func (p *jparser) is(i int, c byte) bool {
	switch x := p.b[i].(type) {
	case int64:
		return x == int64(c)
	case *Opaque:
		return false
	}
	return p.in.path.decide(p.in.byteEq(p.b[i], int64(c)))
}

func (p *jparser) isRange(i int, lo, hi byte) bool {
	switch x := p.b[i].(type) {
	case int64:
		return x >= int64(lo) && x <= int64(hi)
	case *Opaque:
		return false
	case *Term:
		tc := p.in.tc
		return p.in.path.decide(tc.And(tc.Ule(tc.Const(8, uint64(lo)), x), tc.Ule(x, tc.Const(8, uint64(hi)))))
	}
	return false
}

func (p *jparser) ws() {
	for p.pos < len(p.b) && (p.is(p.pos, ' ') || p.is(p.pos, '\n') || p.is(p.pos, '\t') || p.is(p.pos, '\r')) {
		p.pos++
	}
}

func (p *jparser) need() {
	if p.pos >= len(p.b) {
		p.more()
	}
}

func (p *jparser) lit(s string) {
	for i := 0; i < len(s); i++ {
		p.need()
		if !p.is(p.pos, s[i]) {
			p.bad("invalid character in literal " + s)
		}
		p.pos++
	}
}

func (p *jparser) value(d int) *jnode {
	if d > 200 {
		p.bad("exceeded max depth")
	}
	p.ws()
	p.need()
	n := &jnode{start: p.pos}
	defer func() { n.end = p.pos }()
	if o, ok := p.b[p.pos].(*Opaque); ok {
		if o.kind == "num" {
			n.k = jNum
			n.txt = []Value{o}
			p.pos++
			return n
		}
		p.bad("opaque text where a value is expected")
	}
	switch {
	case p.is(p.pos, '{'):
		p.pos++
		n.k = jObj
		p.ws()
		p.need()
		if p.is(p.pos, '}') {
			p.pos++
			return n
		}
		for {
			p.ws()
			p.need()
			if !p.is(p.pos, '"') {
				p.bad("invalid character looking for beginning of object key string")
			}
			k := p.str()
			p.ws()
			p.need()
			if !p.is(p.pos, ':') {
				p.bad("invalid character after object key")
			}
			p.pos++
			v := p.value(d + 1)
			n.keys = append(n.keys, k)
			n.items = append(n.items, v)
			p.ws()
			p.need()
			if p.is(p.pos, ',') {
				p.pos++
				continue
			}
			if p.is(p.pos, '}') {
				p.pos++
				return n
			}
			p.bad("invalid character after object key:value pair")
		}
	case p.is(p.pos, '['):
		p.pos++
		n.k = jArr
		p.ws()
		p.need()
		if p.is(p.pos, ']') {
			p.pos++
			return n
		}
		for {
			n.items = append(n.items, p.value(d+1))
			p.ws()
			p.need()
			if p.is(p.pos, ',') {
				p.pos++
				continue
			}
			if p.is(p.pos, ']') {
				p.pos++
				return n
			}
			p.bad("invalid character after array element")
		}
	case p.is(p.pos, '"'):
		n.k = jStr
		n.txt = p.str()
		return n
	case p.is(p.pos, 't'):
		p.lit("true")
		n.k = jTrue
		return n
	case p.is(p.pos, 'f'):
		p.lit("false")
		n.k = jFalse
		return n
	case p.is(p.pos, 'n'):
		p.lit("null")
		n.k = jNull
		return n
	case p.is(p.pos, '-') || p.isRange(p.pos, '0', '9'):
		n.k = jNum
		s := p.pos
		if p.is(p.pos, '-') {
			p.pos++
			p.need()
			if _, ok := p.b[p.pos].(*Opaque); ok {
				p.bad("sign before opaque number")
			}
		}
		if p.is(p.pos, '0') {
			p.pos++
		} else if p.isRange(p.pos, '1', '9') {
			for p.pos < len(p.b) && p.isRange(p.pos, '0', '9') {
				p.pos++
			}
		} else {
			p.bad("invalid character in numeric literal")
		}
		if p.pos < len(p.b) && p.is(p.pos, '.') {
			p.pos++
			p.need()
			if !p.isRange(p.pos, '0', '9') {
				p.bad("invalid character after decimal point in numeric literal")
			}
			for p.pos < len(p.b) && p.isRange(p.pos, '0', '9') {
				p.pos++
			}
		}
		if p.pos < len(p.b) && (p.is(p.pos, 'e') || p.is(p.pos, 'E')) {
			p.pos++
			p.need()
			if p.is(p.pos, '+') || p.is(p.pos, '-') {
				p.pos++
				p.need()
			}
			if !p.isRange(p.pos, '0', '9') {
				p.bad("invalid character in exponent of numeric literal")
			}
			for p.pos < len(p.b) && p.isRange(p.pos, '0', '9') {
				p.pos++
			}
		}
		n.txt = p.b[s:p.pos]
		return n
	}
	p.bad("invalid character looking for beginning of value")
	return nil
}

func (p *jparser) str() []Value {
	p.pos++ // opening quote
	var out []Value
	for {
		p.need()
		if o, ok := p.b[p.pos].(*Opaque); ok {
			out = append(out, o)
			p.pos++
			continue
		}
		if p.is(p.pos, '"') {
			p.pos++
			return out
		}
		if p.is(p.pos, '\\') {
			p.pos++
			p.need()
			c, ok := p.b[p.pos].(int64)
			if !ok {
				t, isT := p.b[p.pos].(*Term)
				if !isT {
					p.bad("invalid escape")
				}
				c = int64(p.in.path.concretize(t))
			}
			p.pos++
			switch byte(c) {
			case '"', '\\', '/':
				out = append(out, c)
			case 'b':
				out = append(out, int64('\b'))
			case 'f':
				out = append(out, int64('\f'))
			case 'n':
				out = append(out, int64('\n'))
			case 'r':
				out = append(out, int64('\r'))
			case 't':
				out = append(out, int64('\t'))
			case 'u':
				hex := make([]byte, 0, 4)
				for i := 0; i < 4; i++ {
					p.need()
					var h int64
					switch x := p.b[p.pos].(type) {
					case int64:
						h = x
					case *Term:
						h = int64(p.in.path.concretize(x))
					}
					hex = append(hex, byte(h))
					p.pos++
				}
				r, err := strconv.ParseUint(string(hex), 16, 32)
				if err != nil {
					p.bad("invalid character in \\u hexadecimal character escape")
				}
				if r >= 0xd800 && r < 0xe000 {
					r = 0xfffd
				}
				for _, q := range []byte(string(rune(r))) {
					out = append(out, int64(q))
				}
			default:
				p.bad("invalid character in string escape code")
			}
			continue
		}
		if p.isRange(p.pos, 0, 0x1f) {
			p.bad("invalid character in string literal")
		}
		if t, ok := p.b[p.pos].(*Term); ok {
			if !p.in.path.decide(p.in.tc.Ult(t, p.in.tc.Const(8, 0x80))) {
				panic(unsupported("symbolic non-ASCII byte in a JSON string"))
			}
		}
		out = append(out, p.b[p.pos])
		p.pos++
	}
}

// parseJSON reads one value starting at pos.
func (in *Interp) parseJSON(fr *Frame, b []Value, pos int) (n *jnode, p *jparser) {
	p = &jparser{in: in, fr: fr, b: b, pos: pos}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(jfail); ok {
				n = nil
				return
			}
			panic(r)
		}
	}()
	n = p.value(0)
	return n, p
}

// ---- decoding into Go values

type jfield struct {
	name   string
	path   []int
	t      types.Type
	omit   bool
	str    bool
	tagged bool
}

var jsonFieldCache = map[types.Type][]jfield{}

func (in *Interp) jsonFields(t types.Type) []jfield {
	st := t.Underlying().(*types.Struct)
	type cand struct {
		jfield
		depth int
	}
	var all []cand
	var walk func(st *types.Struct, path []int, depth int)
	walk = func(st *types.Struct, path []int, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			pth := append(append([]int(nil), path...), i)
			if f.Embedded() && name == "" {
				ft := f.Type()
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					if _, isS := p.Elem().Underlying().(*types.Struct); isS {
						panic(unsupported("JSON of embedded pointer"))
					}
				}
				if s, ok := ft.Underlying().(*types.Struct); ok {
					walk(s, pth, depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			c := cand{depth: depth}
			c.path, c.t, c.tagged = pth, f.Type(), name != ""
			c.name = name
			if name == "" {
				c.name = f.Name()
			}
			for _, o := range strings.Split(opts, ",") {
				switch o {
				case "omitempty":
					c.omit = true
				case "string":
					c.str = true
				}
			}
			all = append(all, c)
		}
	}
	walk(st, nil, 0)
	var out []jfield
	for i, c := range all {
		win := true
		for j, d := range all {
			if i == j || d.name != c.name {
				continue
			}
			if d.depth < c.depth || d.depth == c.depth && d.tagged && !c.tagged || d.depth == c.depth && d.tagged == c.tagged {
				win = false
			}
		}
		if win {
			out = append(out, c.jfield)
		}
	}
	return out
}

type jdec struct {
	in   *Interp
	fr   *Frame
	err  Iface // first conversion error
	b    []Value
	stop bool
}

func (d *jdec) typeErr(what string, t types.Type) {
	if d.err.t == nil {
		d.err = d.in.ptrStruct("encoding/json", "UnmarshalTypeError", map[string]Value{"Value": what, "Type": Iface{}})
		d.err = d.in.mkError("json: cannot unmarshal " + what + " into Go value of type " + t.String()).(Iface)
	}
}

func (in *Interp) ptrMethod(t types.Type, name string) bool {
	pt := types.NewPointer(t)
	if _, ok := t.(*types.Named); !ok {
		return false
	}
	return in.prog.lookupMethod(pt, nil, name) != nil
}

func (d *jdec) custom(p *Value, t types.Type, n *jnode) bool {
	in := d.in
	if _, isNamed := types.Unalias(t).(*types.Named); !isNamed {
		return false
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		return false
	}
	pt := in.prog.ptrTo(t)
	if f := in.prog.lookupMethod(pt, nil, "UnmarshalJSON"); f != nil {
		raw := append(Slice{}, d.b[n.start:n.end]...)
		r, _ := in.callMethod(d.fr, Iface{pt, p}, "UnmarshalJSON", raw)
		if e := ifaceOf(r); e.t != nil && d.err.t == nil {
			d.err = e
			d.stop = true
		}
		return true
	}
	if f := in.prog.lookupMethod(pt, nil, "UnmarshalText"); f != nil && n.k == jStr {
		r, _ := in.callMethod(d.fr, Iface{pt, p}, "UnmarshalText", append(Slice{}, n.txt...))
		if e := ifaceOf(r); e.t != nil && d.err.t == nil {
			d.err = e
			d.stop = true
		}
		return true
	}
	return false
}

func (n *jnode) what() string {
	switch n.k {
	case jNull:
		return "null"
	case jTrue, jFalse:
		return "bool"
	case jNum:
		return "number"
	case jStr:
		return "string"
	case jArr:
		return "array"
	}
	return "object"
}

// set decodes n into the cell p of type t.
func (d *jdec) set(p *Value, t types.Type, n *jnode, addressable bool) {
	in := d.in
	if d.stop {
		return
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.k == jNull {
			in.setCell(p, (*Value)(nil))
			return
		}
		q := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(pt.Elem())
			in.setCell(p, q)
		}
		d.set(q, pt.Elem(), n, false)
		return
	}
	if d.custom(p, t, n) {
		return
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		cur := ifaceOf(*p)
		if cur.t != nil {
			if pt, isP := cur.t.Underlying().(*types.Pointer); isP {
				if q, _ := cur.v.(*Value); q != nil {
					_, elemP := pt.Elem().Underlying().(*types.Pointer)
					if n.k != jNull || elemP {
						d.set(q, pt.Elem(), n, false)
						return
					}
				}
			}
		}
		if n.k == jNull {
			in.setCell(p, Iface{})
			return
		}
		if it.NumMethods() > 0 {
			d.typeErr(n.what(), t)
			return
		}
		in.setCell(p, d.generic(n))
		return
	}
	if n.k == jNull {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice:
			in.setCell(p, zero(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if n.k != jStr {
				d.typeErr(n.what(), t)
				return
			}
			in.setCell(p, mkStr(n.txt))
		case u.Info()&types.IsBoolean != 0:
			if n.k != jTrue && n.k != jFalse {
				d.typeErr(n.what(), t)
				return
			}
			in.setCell(p, n.k == jTrue)
		case u.Info()&types.IsInteger != 0:
			if n.k != jNum {
				d.typeErr(n.what(), t)
				return
			}
			k, _ := basicInt(u)
			v, ok := d.intOf(n, k)
			if !ok {
				d.typeErr("number", t)
				return
			}
			in.setCell(p, v)
		case u.Info()&types.IsFloat != 0:
			if n.k != jNum {
				d.typeErr(n.what(), t)
				return
			}
			in.setCell(p, d.floatOf(n))
		default:
			d.typeErr(n.what(), t)
		}
	case *types.Struct:
		if n.k != jObj {
			d.typeErr(n.what(), t)
			return
		}
		fs := in.jsonFields(t)
		for i, k := range n.keys {
			var hit *jfield
			ks := mkStr(k)
			for j := range fs {
				if in.path.decide(in.strEq(ks, fs[j].name)) {
					hit = &fs[j]
					break
				}
			}
			if hit == nil {
				for j := range fs {
					if in.path.decide(in.foldEq(ks, fs[j].name)) {
						hit = &fs[j]
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			if hit.str {
				panic(unsupported("JSON string option"))
			}
			c := p
			for _, x := range hit.path {
				s := (*c).(Struct)
				c = &s[x]
			}
			d.set(c, hit.t, n.items[i], true)
		}
	case *types.Map:
		if n.k != jObj {
			d.typeErr(n.what(), t)
			return
		}
		kb, ok := u.Key().Underlying().(*types.Basic)
		if !ok || kb.Info()&types.IsString == 0 {
			panic(unsupported("JSON map key type"))
		}
		m, _ := (*p).(*Map)
		if m == nil {
			m = in.newMap(u)
			in.setCell(p, m)
		}
		for i, k := range n.keys {
			c := new(Value)
			*c = zero(u.Elem())
			d.set(c, u.Elem(), n.items[i], true)
			in.mapSet(m, mkStr(k), *c)
		}
	case *types.Slice:
		if k, isInt := basicInt(u.Elem()); isInt && k.w == 8 && n.k == jStr {
			panic(unsupported("JSON []byte"))
		}
		if n.k != jArr {
			d.typeErr(n.what(), t)
			return
		}
		out := make(Slice, len(n.items))
		for i := range out {
			out[i] = zero(u.Elem())
		}
		for i := range n.items {
			d.set(&out[i], u.Elem(), n.items[i], true)
		}
		in.setCell(p, out)
	case *types.Array:
		panic(unsupported("JSON array type"))
	default:
		d.typeErr(n.what(), t)
	}
}

func (d *jdec) intOf(n *jnode, k intKind) (Value, bool) {
	in := d.in
	if len(n.txt) == 1 {
		if o, ok := n.txt[0].(*Opaque); ok {
			t := o.v.(*Term)
			if t.w == k.w {
				return t, true
			}
			t64 := t
			if t.w < 64 {
				t64 = in.tc.Resize(t, 64, true)
			}
			nt := in.tc.Resize(t64, k.w, true)
			back := in.tc.Resize(nt, 64, k.signed)
			if !in.path.decide(in.tc.Eq(back, t64)) {
				return nil, false
			}
			return ival(nt, k), true
		}
	}
	s, ok := mkStr(n.txt).(string)
	if !ok {
		name := "ParseInt"
		if !k.signed {
			name = "ParseUint"
		}
		r := in.callSSA(d.fr, in.prog.fn("strconv", name), []Value{mkStr(n.txt), int64(10), int64(k.w)}, nil).(Tuple)
		if e := ifaceOf(r[1]); e.t != nil {
			return nil, false
		}
		return in.convInt(r[0], k), true
	}
	if k.signed {
		x, err := strconv.ParseInt(s, 10, int(k.w))
		return x, err == nil
	}
	x, err := strconv.ParseUint(s, 10, int(k.w))
	return int64(x), err == nil
}

func (in *Interp) convInt(v Value, k intKind) Value {
	switch x := v.(type) {
	case int64:
		return k.norm(x)
	case *Term:
		return ival(in.tc.Resize(x, k.w, true), k)
	}
	return v
}

func (d *jdec) floatOf(n *jnode) Value {
	if len(n.txt) == 1 {
		if o, ok := n.txt[0].(*Opaque); ok {
			t := o.t
			if t == nil {
				t = types.Typ[types.Int64]
			}
			return &Opaque{kind: "f64", v: o.v, t: t}
		}
	}
	s, ok := mkStr(n.txt).(string)
	if !ok {
		r := d.in.callSSA(d.fr, d.in.prog.fn("strconv", "ParseInt"), []Value{mkStr(n.txt), int64(10), int64(64)}, nil).(Tuple)
		if e := ifaceOf(r[1]); e.t != nil {
			panic(unsupported("symbolic float text"))
		}
		if t, sym := r[0].(*Term); sym {
			return &Opaque{kind: "f64", v: t, t: types.Typ[types.Int64]}
		}
		return float64(r[0].(int64))
	}
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

var emptyIface = types.NewInterfaceType(nil, nil)
var mapStrAny = types.NewMap(types.Typ[types.String], types.Universe.Lookup("any").Type())
var sliceAny = types.NewSlice(types.Universe.Lookup("any").Type())

func (d *jdec) generic(n *jnode) Value {
	in := d.in
	switch n.k {
	case jNull:
		return Iface{}
	case jTrue, jFalse:
		return Iface{types.Typ[types.Bool], n.k == jTrue}
	case jNum:
		return Iface{types.Typ[types.Float64], d.floatOf(n)}
	case jStr:
		return Iface{types.Typ[types.String], mkStr(n.txt)}
	case jArr:
		out := make(Slice, len(n.items))
		for i := range n.items {
			out[i] = d.generic(n.items[i])
		}
		return Iface{sliceAny, out}
	}
	m := in.newMap(mapStrAny)
	for i, k := range n.keys {
		in.mapSet(m, mkStr(k), d.generic(n.items[i]))
	}
	return Iface{mapStrAny, m}
}

// ---- encoding

type jenc struct {
	in  *Interp
	fr  *Frame
	out []Value
	err Iface
}

func (e *jenc) raw(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, int64(s[i]))
	}
}

func (e *jenc) str(v Value) {
	in := e.in
	e.raw(`"`)
	b := strBytes(v)
	const hex = "0123456789abcdef"
	for i := 0; i < len(b); i++ {
		var c int64
		switch x := b[i].(type) {
		case *Opaque:
			e.out = append(e.out, x)
			continue
		case int64:
			c = x
		case *Term:
			tc := in.tc
			plain := tc.And(tc.Ule(tc.Const(8, 0x20), x), tc.Ult(x, tc.Const(8, 0x80)))
			for _, s := range []byte{'"', '\\', '<', '>', '&', 0x7f} {
				if s == 0x7f {
					continue
				}
				plain = tc.And(plain, tc.Not(tc.Eq(x, tc.Const(8, uint64(s)))))
			}
			if in.path.decide(plain) {
				e.out = append(e.out, x)
				continue
			}
			if !in.path.decide(tc.Ult(x, tc.Const(8, 0x80))) {
				panic(unsupported("symbolic non-ASCII byte written to JSON"))
			}
			c = int64(in.path.concretize(x))
		}
		switch {
		case c == '"' || c == '\\':
			e.raw("\\" + string(rune(c)))
		case c == '\n':
			e.raw(`\n`)
		case c == '\r':
			e.raw(`\r`)
		case c == '\t':
			e.raw(`\t`)
		case c == '\b':
			e.raw(`\b`)
		case c == '\f':
			e.raw(`\f`)
		case c < 0x20 || c == '<' || c == '>' || c == '&':
			e.raw(`\u00` + string(hex[c>>4]) + string(hex[c&15]))
		default:
			e.out = append(e.out, c)
		}
	}
	e.raw(`"`)
}

func (e *jenc) isEmpty(v Value, t types.Type) bool {
	switch x := v.(type) {
	case string:
		return x == ""
	case *SymStr:
		return false
	case bool:
		return !x
	case int64:
		return x == 0
	case float64:
		return x == 0
	case *Term:
		if x.w == 0 {
			return !e.in.path.decide(x)
		}
		return e.in.path.decide(e.in.tc.Eq(x, e.in.tc.Const(x.w, 0)))
	case Slice:
		return len(x) == 0
	case *Map:
		return x == nil || x.n == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

func (e *jenc) val(v Value, t types.Type) {
	in := e.in
	if e.err.t != nil {
		return
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if f := in.prog.lookupMethod(t, nil, "MarshalJSON"); f != nil {
			if p, isP := v.(*Value); isP && p == nil {
				if _, ptr := t.Underlying().(*types.Pointer); ptr {
					e.raw("null")
					return
				}
			}
			r := in.callSSA(e.fr, f, []Value{v}, nil).(Tuple)
			if x := ifaceOf(r[1]); x.t != nil {
				e.err = x
				return
			}
			e.out = append(e.out, r[0].(Slice)...)
			return
		}
		if f := in.prog.lookupMethod(t, nil, "MarshalText"); f != nil {
			if p, isP := v.(*Value); isP && p == nil {
				e.raw("null")
				return
			}
			r := in.callSSA(e.fr, f, []Value{v}, nil).(Tuple)
			if x := ifaceOf(r[1]); x.t != nil {
				e.err = x
				return
			}
			e.str(bytesToStr(r[0].(Slice)))
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			e.raw("null")
			return
		}
		e.val(i.v, i.t)
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			e.raw("null")
			return
		}
		e.val(*p, u.Elem())
	case *types.Basic:
		switch x := v.(type) {
		case string, *SymStr:
			e.str(x)
		case bool:
			e.raw(strconv.FormatBool(x))
		case int64:
			k, _ := basicInt(u)
			if k.signed {
				e.raw(strconv.FormatInt(x, 10))
			} else {
				e.raw(strconv.FormatUint(uint64(x), 10))
			}
		case float64:
			e.raw(strconv.FormatFloat(x, 'g', -1, 64))
		case *Opaque:
			e.out = append(e.out, &Opaque{kind: "num", v: x.v, t: x.t})
		case *Term:
			if x.w == 0 {
				if in.path.decide(x) {
					e.raw("true")
				} else {
					e.raw("false")
				}
				return
			}
			e.out = append(e.out, strBytes(in.numText(x, u))...)
		default:
			panic(unsupported("JSON of basic value"))
		}
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			e.raw("null")
			return
		}
		if k, ok := basicInt(u.Elem()); ok && k.w == 8 && !k.signed {
			panic(unsupported("JSON of []byte"))
		}
		e.raw("[")
		for i := range s {
			if i > 0 {
				e.raw(",")
			}
			e.val(s[i], u.Elem())
		}
		e.raw("]")
	case *types.Array:
		s := v.(Array)
		e.raw("[")
		for i := range s {
			if i > 0 {
				e.raw(",")
			}
			e.val(s[i], u.Elem())
		}
		e.raw("]")
	case *types.Struct:
		e.raw("{")
		first := true
		for _, f := range in.jsonFields(t) {
			x := v
			for _, i := range f.path {
				x = x.(Struct)[i]
			}
			if f.omit && e.isEmpty(x, f.t) {
				continue
			}
			if !first {
				e.raw(",")
			}
			first = false
			e.str(f.name)
			e.raw(":")
			e.val(x, f.t)
		}
		e.raw("}")
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			e.raw("null")
			return
		}
		e.raw("{")
		for n, i := range in.sortedEnts(m) {
			if n > 0 {
				e.raw(",")
			}
			e.str(m.ents[i].k)
			e.raw(":")
			e.val(m.ents[i].v, u.Elem())
		}
		e.raw("}")
	default:
		e.err = in.mkError("json: unsupported type: " + t.String()).(Iface)
	}
}

func (in *Interp) jsonDecodeInto(fr *Frame, b []Value, n *jnode, target Iface) Value {
	if target.t == nil {
		return in.mkError("json: Unmarshal(nil)")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		return in.mkError("json: Unmarshal(non-pointer " + target.t.String() + ")")
	}
	p := target.v.(*Value)
	if p == nil {
		return in.mkError("json: Unmarshal(nil " + target.t.String() + ")")
	}
	d := &jdec{in: in, fr: fr, b: b}
	d.set(p, pt.Elem(), n, true)
	return d.err
}

func (in *Interp) syntaxErr(msg string, off int) Iface {
	return in.ptrStruct("encoding/json", "SyntaxError", map[string]Value{"msg": msg, "Offset": int64(off)})
}

func (in *Interp) globalVal(pkg, name string) Value {
	sp := in.prog.pkgs[pkg]
	in.ensureInit(sp)
	return *in.global(sp.Var(name))
}

type jstream struct {
	buf []Value
	eof bool
	err Value
}

func initJSON(I map[string]Intrinsic) {
	const J = "encoding/json."
	I[J+"Unmarshal"] = func(in *Interp, fr *Frame, args []Value) Value {
		b := []Value(args[0].(Slice))
		n, p := in.parseJSON(fr, b, 0)
		if n == nil {
			return in.syntaxErr(p.msg, p.pos)
		}
		p.ws()
		if p.pos < len(b) {
			return in.syntaxErr("invalid character after top-level value", p.pos)
		}
		return in.jsonDecodeInto(fr, b, n, args[1].(Iface))
	}
	I[J+"Valid"] = func(in *Interp, fr *Frame, args []Value) Value {
		b := []Value(args[0].(Slice))
		n, p := in.parseJSON(fr, b, 0)
		if n == nil {
			return false
		}
		p.ws()
		return p.pos == len(b)
	}
	I[J+"Marshal"] = func(in *Interp, fr *Frame, args []Value) Value {
		a := args[0].(Iface)
		e := &jenc{in: in, fr: fr}
		if a.t == nil {
			e.raw("null")
		} else {
			e.val(a.v, a.t)
		}
		if e.err.t != nil {
			return Tuple{Slice(nil), e.err}
		}
		return Tuple{Slice(e.out), Iface{}}
	}
	I[J+"NewDecoder"] = func(in *Interp, fr *Frame, args []Value) Value {
		t := in.prog.typ("encoding/json", "Decoder")
		s := zero(t).(Struct)
		s = append(s, args[0], &jstream{})
		p := new(Value)
		*p = s
		return p
	}
	I["(*encoding/json.Decoder).UseNumber"] = func(in *Interp, fr *Frame, args []Value) Value {
		panic(unsupported("json.Decoder.UseNumber"))
	}
	I["(*encoding/json.Decoder).DisallowUnknownFields"] = I["(*encoding/json.Decoder).UseNumber"]
	I["(*encoding/json.Decoder).Decode"] = func(in *Interp, fr *Frame, args []Value) Value {
		s := (*args[0].(*Value)).(Struct)
		js := s[len(s)-1].(*jstream)
		rd := s[len(s)-2].(Iface)
		for {
			if len(js.buf) > 0 {
				n, p := in.parseJSON(fr, js.buf, 0)
				complete := n != nil
				if complete && n.k == jNum && p.pos >= len(js.buf) && !js.eof {
					complete = false // a number may go on
				}
				if complete {
					b := js.buf
					js.buf = append([]Value(nil), js.buf[p.pos:]...)
					return in.jsonDecodeInto(fr, b, n, args[1].(Iface))
				}
				if n == nil && p.st == jBad {
					return in.syntaxErr(p.msg, p.pos)
				}
			}
			if js.eof {
				if js.err != nil {
					return js.err
				}
				blank := true
				for _, c := range js.buf {
					x, ok := c.(int64)
					if !ok || x != ' ' && x != '\n' && x != '\t' && x != '\r' {
						blank = false
					}
				}
				if blank {
					return in.globalVal("io", "EOF")
				}
				return in.globalVal("io", "ErrUnexpectedEOF")
			}
			chunk := make(Slice, 512)
			for i := range chunk {
				chunk[i] = int64(0)
			}
			if rd.t == nil {
				in.nilDeref(fr)
			}
			r, ok := in.callIface(fr, rd, "Read", chunk)
			if !ok {
				panic(unsupported("json decoder reader"))
			}
			tp := r.(Tuple)
			k := in.concInt(tp[0], intKind{64, true})
			js.buf = append(append([]Value(nil), js.buf...), chunk[:k]...)
			if e := ifaceOf(tp[1]); e.t != nil {
				js.eof = true
				if !in.eqVal(e, in.globalVal("io", "EOF")).isTrue() {
					js.err = e
				}
			}
		}
	}
	_ = sort.Strings
}

// callIface calls a method on an interface value, engine-made or interpreted.
func (in *Interp) callIface(fr *Frame, v Iface, name string, args ...Value) (Value, bool) {
	if nr, ok := v.v.(nativeRecv); ok {
		return nr.call(in, fr, name, args), true
	}
	return in.callMethod(fr, v, name, args...)
}

func (p *Program) ptrTo(t types.Type) types.Type {
	if x, ok := p.lookCache.Load(t); ok {
		return x.(types.Type)
	}
	pt := types.NewPointer(t)
	x, _ := p.lookCache.LoadOrStore(t, types.Type(pt))
	return x.(types.Type)
}
