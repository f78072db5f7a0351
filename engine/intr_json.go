package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// A model of encoding/json that keeps symbolic text and numbers symbolic.

type jfield struct {
	name      string
	index     []int
	ti        *TInfo
	omitEmpty bool
	omitZero  bool
	quoted    bool
	tagged    bool
}

var jfCache = map[*TInfo][]jfield{}

func jfields(ti *TInfo) []jfield {
	tiMu.RLock()
	r, ok := jfCache[ti]
	tiMu.RUnlock()
	if ok {
		return r
	}
	var all []jfield
	var walk func(ti *TInfo, index []int, depth int)
	walk = func(ti *TInfo, index []int, depth int) {
		st := ti.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			ft := tinfo(f.Type())
			et := ft
			if ft.k == KPtr {
				et = tinfo(f.Type().Underlying().(*types.Pointer).Elem())
			}
			if f.Anonymous() {
				if !f.Exported() && et.k != KStruct {
					continue
				}
			} else if !f.Exported() {
				continue
			}
			parts := strings.Split(tag, ",")
			ix := append(append([]int{}, index...), i)
			if f.Anonymous() && parts[0] == "" && et.k == KStruct && depth < 6 {
				walk(et, ix, depth+1)
				continue
			}
			jf := jfield{name: f.Name(), index: ix, ti: ft}
			if parts[0] != "" {
				jf.name, jf.tagged = parts[0], true
			}
			for _, o := range parts[1:] {
				switch o {
				case "omitempty":
					jf.omitEmpty = true
				case "omitzero":
					jf.omitZero = true
				case "string":
					jf.quoted = ft.scalar() || ft.k == KString
				}
			}
			all = append(all, jf)
		}
	}
	walk(ti, nil, 0)
	// conflicts: the shallowest wins, then the tagged one, otherwise none
	var out []jfield
	for i, f := range all {
		win := true
		for j, o := range all {
			if i == j || o.name != f.name {
				continue
			}
			if len(o.index) < len(f.index) || len(o.index) == len(f.index) && (o.tagged && !f.tagged || o.tagged == f.tagged) {
				win = false
			}
		}
		if win {
			out = append(out, f)
		}
	}
	tiMu.Lock()
	jfCache[ti] = out
	tiMu.Unlock()
	return out
}

type jenc struct {
	w              *Worker
	g              *G
	out            []Value
	prefix, indent string
	pretty         bool
	noHTML         bool
	depth          int
}

type jerr struct{ v Value }

func (e *jenc) fail(msg string) { panic(jerr{e.w.errValue(e.g, msg)}) }
func (e *jenc) s(x string)      { e.out = append(e.out, strBytes(mkString(x))...) }
func (e *jenc) nl() {
	if e.pretty {
		e.s("\n" + e.prefix + strings.Repeat(e.indent, e.depth))
	}
}
func (e *jenc) colon() {
	if e.pretty {
		e.s(": ")
	} else {
		e.s(":")
	}
}

func (e *jenc) str(v Value) {
	w := e.w
	ar := w.ar
	if c, ok := strConc(v); ok {
		var b bytes.Buffer
		en := json.NewEncoder(&b)
		en.SetEscapeHTML(!e.noHTML)
		en.Encode(c)
		e.s(strings.TrimSuffix(b.String(), "\n"))
		return
	}
	bs := strBytes(v)
	e.s("\"")
	one := func(c byte) {
		var b bytes.Buffer
		en := json.NewEncoder(&b)
		en.SetEscapeHTML(!e.noHTML)
		en.Encode(string(rune(c)))
		x := strings.TrimSuffix(b.String(), "\n")
		e.s(x[1 : len(x)-1])
	}
	for i := 0; i < len(bs); i++ {
		b := bs[i]
		if b.P == nil {
			if b.U < 0x80 {
				one(byte(b.U))
				continue
			}
			r, n := w.decodeRune(v, i)
			q, _ := json.Marshal(string(rune(r.U)))
			if r.U == 0xfffd && n == 1 {
				e.s(`\ufffd`)
			} else {
				e.s(string(q[1 : len(q)-1]))
			}
			i += n - 1
			continue
		}
		t := b.P.(*Term)
		if t.op == ODec || t.op == OFlt {
			e.out = append(e.out, b)
			continue
		}
		ne := func(c byte) *Term { return ar.Not(ar.Eq(t, ar.BV(uint64(c), 8))) }
		plain := ar.AndN(ar.ULe(ar.BV(0x20, 8), t), ar.ULt(t, ar.BV(0x80, 8)), ne('"'), ne('\\'))
		if !e.noHTML {
			plain = ar.AndN(plain, ne('<'), ne('>'), ne('&'))
		}
		if w.branch(plain) {
			e.out = append(e.out, b)
			continue
		}
		if w.branch(ar.Or(ar.Not(ne('"')), ar.Not(ne('\\')))) {
			e.out = append(e.out, Value{U: '\\'}, b)
			continue
		}
		if w.branch(ar.ULt(t, ar.BV(0x80, 8))) {
			// \b \f \n \r \t or \u00xx
			short := ar.fals
			for _, c := range []byte("\b\f\n\r\t") {
				short = ar.Or(short, ar.Not(ne(c)))
			}
			if w.branch(short) {
				x := ar.BV('t', 8)
				for _, p := range []struct{ c, e byte }{{'\b', 'b'}, {'\f', 'f'}, {'\n', 'n'}, {'\r', 'r'}} {
					x = ar.Ite(ar.Eq(t, ar.BV(uint64(p.c), 8)), ar.BV(uint64(p.e), 8), x)
				}
				e.out = append(e.out, Value{U: '\\'}, fromTerm(x))
				continue
			}
			hex := func(n *Term) Value {
				n8 := ar.ZExt(n, 8)
				return fromTerm(ar.Ite(ar.ULt(n8, ar.BV(10, 8)), ar.Add(n8, ar.BV('0', 8)), ar.Add(n8, ar.BV('a'-10, 8))))
			}
			e.s(`\u00`)
			e.out = append(e.out, hex(ar.Extract(t, 7, 4)), hex(ar.Extract(t, 3, 0)))
			continue
		}
		// non-ASCII
		r, n := w.decodeRune(v, i)
		rt := w.term(r, 32)
		switch {
		case n == 1:
			e.s("\\ufffd")
		case w.branch(ar.Eq(rt, ar.BV(0x2028, 32))):
			e.s("\\u2028")
		case w.branch(ar.Eq(rt, ar.BV(0x2029, 32))):
			e.s("\\u2029")
		default:
			e.out = append(e.out, strBytes(v)[i:i+n]...)
		}
		i += n - 1
	}
	e.s("\"")
}

func (e *jenc) isEmpty(ti *TInfo, v Value) bool {
	w := e.w
	switch ti.k {
	case KBool:
		return !w.branch(w.boolTerm(v))
	case KInt:
		return w.branch(w.ar.Eq(w.term(v, ti.sort), w.ar.BV(0, ti.sort)))
	case KFloat:
		return w.branch(w.ar.FCmp(OFEq, w.term(v, ti.sort), w.ar.Const(0, ti.sort)))
	case KString:
		return strLen(v) == 0
	case KSlice, KMap:
		return w.lenOf(ti, v).U == 0
	case KArray:
		return ti.n == 0
	case KPtr, KIface:
		return v.P == nil
	}
	return false
}

func (e *jenc) raw(b []Value) {
	if cb, ok := concBytes(b); ok && len(cb) > 0 && (cb[0] == '{' || cb[0] == '[') {
		var o bytes.Buffer
		if e.pretty {
			if json.Indent(&o, cb, e.prefix+strings.Repeat(e.indent, e.depth), e.indent) != nil {
				e.fail("json: error calling MarshalJSON")
			}
		} else if json.Compact(&o, cb) != nil {
			e.fail("json: error calling MarshalJSON")
		}
		e.s(o.String())
		return
	}
	e.out = append(e.out, b...)
}

// rd notes that the encoder reads a cell.
func (e *jenc) rd(c *Value) {
	if e.w.races {
		e.w.raceRead(e.g, c)
	}
}

func (e *jenc) val(ti *TInfo, v Value) {
	w := e.w
	if p, ok := v.P.(*Poison); ok {
		panic(unsupported("json of " + p.msg))
	}
	if ti.k == KPtr && v.P == nil || ti.k == KIface && v.P == nil {
		e.s("null")
		return
	}
	if ti.k == KIface {
		x := v.P.(*Iface)
		e.val(tinfo(x.T), x.V)
		return
	}
	if m := w.findMethod(ti.t, "MarshalJSON"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 2 {
		r := w.call(e.g, w.code(m), []Value{v}, nil).P.(Tuple)
		if r[1].P != nil {
			panic(jerr{r[1]})
		}
		e.raw(sliceVals(r[0]))
		return
	}
	if m := w.findMethod(ti.t, "MarshalText"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 2 {
		r := w.call(e.g, w.code(m), []Value{v}, nil).P.(Tuple)
		if r[1].P != nil {
			panic(jerr{r[1]})
		}
		e.str(bytesToStr(sliceVals(r[0])))
		return
	}
	switch ti.k {
	case KBool:
		if w.branch(w.boolTerm(v)) {
			e.s("true")
		} else {
			e.s("false")
		}
	case KInt:
		x := w.convert(tinfo(types.Typ[types.Int64]), ti, v)
		e.out = append(e.out, w.decText(x, ti.signed)...)
	case KFloat:
		size := 64
		if ti.sort == SFP32 {
			size = 32
		}
		if v.P == nil {
			f := fval(ti.sort, v.U)
			if f != f || f-f != 0 {
				e.fail("json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, size))
			}
			e.s(jsonFloat(f, size))
			return
		}
		t := v.P.(*Term)
		inf := w.ar.FCmp(OFEq, w.ar.F1(OFAbs, ti.sort, t), w.ar.Const(fbits(ti.sort, inf()), ti.sort))
		if !w.ar.finite(t) && w.branch(w.ar.Or(w.ar.FIsNaN(t), inf)) {
			e.fail("json: unsupported value: NaN or Inf")
		}
		e.out = append(e.out, w.fltTokens(v, ti.sort, 'J', -1, size)...)
	case KString:
		e.str(v)
	case KPtr:
		if x := v.P.(*Value); x.P == nil {
			e.rd(x)
		} else if _, ok := x.P.(*Agg); !ok {
			e.rd(x)
		}
		e.val(tinfo(ti.t.Underlying().(*types.Pointer).Elem()), *v.P.(*Value))
	case KSlice, KArray:
		et := tinfoElem(ti)
		var vals []Value
		if ti.k == KSlice {
			if v.P == nil {
				e.s("null")
				return
			}
			vals = sliceVals(v)
			if et.k == KInt && et.sort == 8 && !et.signed {
				cb, ok := concBytes(vals)
				if !ok {
					panic(unsupported("base64 of symbolic bytes"))
				}
				e.s("\"" + base64.StdEncoding.EncodeToString(cb) + "\"")
				return
			}
		} else {
			vals = v.P.(*Agg).F
		}
		if len(vals) == 0 {
			e.s("[]")
			return
		}
		e.s("[")
		e.depth++
		for i := range vals {
			if i > 0 {
				e.s(",")
			}
			e.nl()
			e.rd(&vals[i])
			e.val(et, vals[i])
		}
		e.depth--
		e.nl()
		e.s("]")
	case KMap:
		m, _ := v.P.(*MapV)
		if m == nil {
			e.s("null")
			return
		}
		if w.races {
			w.raceMap(e.g, m, false)
		}
		if m.live == 0 {
			e.s("{}")
			return
		}
		kt := tinfo(m.kt)
		if kt.k != KString {
			if kt.k != KInt || w.findMethod(kt.t, "MarshalText") != nil {
				e.fail("json: unsupported type: " + typeString(ti.t))
			}
			panic(unsupported("json of a map with integer keys"))
		}
		e.s("{")
		e.depth++
		for i, en := range w.sortedEnts(m) {
			if i > 0 {
				e.s(",")
			}
			e.nl()
			e.str(en.k)
			e.colon()
			e.val(tinfo(m.vt), en.v)
		}
		e.depth--
		e.nl()
		e.s("}")
	case KStruct:
		e.s("{")
		e.depth++
		first := true
	fields:
		for _, f := range jfields(ti) {
			fv := v
			ft := ti
			for _, ix := range f.index {
				if ft.k == KPtr {
					if fv.P == nil {
						continue fields
					}
					ft = tinfo(ft.t.Underlying().(*types.Pointer).Elem())
					fv = *fv.P.(*Value)
				}
				e.rd(&fv.P.(*Agg).F[ix])
				fv = fv.P.(*Agg).F[ix]
				ft = ft.fields[ix]
			}
			if f.omitEmpty && e.isEmpty(f.ti, fv) {
				continue
			}
			if f.omitZero {
				panic(unsupported("omitzero"))
			}
			if !first {
				e.s(",")
			}
			first = false
			e.nl()
			e.str(mkString(f.name))
			e.colon()
			if f.quoted {
				k := len(e.out)
				e.val(f.ti, fv)
				if f.ti.k == KString {
					txt := bytesToStr(append([]Value{}, e.out[k:]...))
					e.out = e.out[:k]
					e.str(txt)
				} else {
					txt := append([]Value{{U: '"'}}, e.out[k:]...)
					e.out = append(e.out[:k], append(txt, Value{U: '"'})...)
				}
				continue
			}
			e.val(f.ti, fv)
		}
		e.depth--
		if !first {
			e.nl()
		}
		e.s("}")
	default:
		e.fail("json: unsupported type: " + typeString(ti.t))
	}
}

func inf() float64 { x := 0.0; return 1 / x }

func (w *Worker) jsonMarshal(g *G, v Value, pretty bool, prefix, indent string, noHTML bool) (out []Value, err Value) {
	e := &jenc{w: w, g: g, pretty: pretty, prefix: prefix, indent: indent, noHTML: noHTML}
	fr := g.fr
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(jerr); ok {
				g.fr = fr
				out, err = nil, x.v
				return
			}
			panic(r)
		}
	}()
	i, _ := v.P.(*Iface)
	if i == nil {
		e.s("null")
	} else {
		e.val(tinfo(i.T), i.V)
	}
	return e.out, Value{}
}

// ---- decoding ----

type jnode struct {
	k    byte // n null, t bool, s string, i number, a array, o object
	b    bool
	s    Value
	num  []Value
	arr  []*jnode
	keys []Value
	raw  []Value
}

type jdec struct {
	w   *Worker
	g   *G
	b   []Value
	pos int
}

type jsyntax struct{ msg string }

func (d *jdec) fail(msg string) { panic(jsyntax{msg}) }

func (d *jdec) peek() byte {
	if d.pos >= len(d.b) {
		d.fail("unexpected end of JSON input")
	}
	v := d.b[d.pos]
	if v.P == nil {
		return byte(v.U)
	}
	t := v.P.(*Term)
	if t.op == ODec || t.op == OFlt {
		return '0'
	}
	return byte(d.w.concTerm(t))
}

func (d *jdec) ws() {
	for d.pos < len(d.b) {
		switch d.peek() {
		case ' ', '\t', '\r', '\n':
			d.pos++
		default:
			return
		}
	}
}

func (d *jdec) lit(s string) {
	for i := 0; i < len(s); i++ {
		if d.peek() != s[i] {
			d.fail("invalid character in literal")
		}
		d.pos++
	}
}

func (d *jdec) str() Value {
	w := d.w
	ar := w.ar
	if d.peek() != '"' {
		d.fail("expected string")
	}
	d.pos++
	var out []Value
	for {
		if d.pos >= len(d.b) {
			d.fail("unexpected end of JSON input")
		}
		v := d.b[d.pos]
		d.pos++
		if v.P != nil {
			t := v.P.(*Term)
			if t.op == ODec || t.op == OFlt {
				out = append(out, v)
				continue
			}
			if w.branch(ar.Eq(t, ar.BV('"', 8))) {
				break
			}
			if w.branch(ar.Eq(t, ar.BV('\\', 8))) {
				v = Value{U: '\\'}
			} else {
				if w.branch(ar.ULt(t, ar.BV(0x20, 8))) {
					d.fail("invalid character in string literal")
				}
				if w.branch(ar.ULt(t, ar.BV(0x80, 8))) {
					out = append(out, v)
					continue
				}
				v = Value{U: w.concTerm(t)}
			}
		}
		c := byte(v.U)
		switch {
		case c == '"':
			goto done
		case c < 0x20:
			d.fail("invalid character in string literal")
		case c == '\\':
			if d.pos >= len(d.b) {
				d.fail("unexpected end of JSON input")
			}
			ev := d.b[d.pos]
			if ev.P != nil {
				et := ev.P.(*Term)
				// an escaped quote or backslash stands for itself
				if w.branch(ar.Or(ar.Eq(et, ar.BV('"', 8)), ar.Eq(et, ar.BV('\\', 8)))) {
					out = append(out, ev)
					d.pos++
					continue
				}
				short := ar.fals
				for _, c := range []byte("bfnrt") {
					short = ar.Or(short, ar.Eq(et, ar.BV(uint64(c), 8)))
				}
				if w.branch(short) {
					x := ar.BV('\t', 8)
					for _, p := range []struct{ c, e byte }{{'\b', 'b'}, {'\f', 'f'}, {'\n', 'n'}, {'\r', 'r'}} {
						x = ar.Ite(ar.Eq(et, ar.BV(uint64(p.e), 8)), ar.BV(uint64(p.c), 8), x)
					}
					out = append(out, fromTerm(x))
					d.pos++
					continue
				}
			}
			ec := d.peek()
			d.pos++
			switch ec {
			case '"', '\\', '/':
				out = append(out, Value{U: uint64(ec)})
			case 'b':
				out = append(out, Value{U: '\b'})
			case 'f':
				out = append(out, Value{U: '\f'})
			case 'n':
				out = append(out, Value{U: '\n'})
			case 'r':
				out = append(out, Value{U: '\r'})
			case 't':
				out = append(out, Value{U: '\t'})
			case 'u':
				if d.pos+4 > len(d.b) {
					d.fail("unexpected end of JSON input")
				}
				h := d.b[d.pos : d.pos+4]
				d.pos += 4
				if x, ok := d.hexSym(h); ok {
					out = append(out, x)
					continue
				}
				cb := make([]byte, 4)
				for i := range h {
					cb[i] = byte(w.conc(h[i], 8))
				}
				n, err := strconv.ParseUint(string(cb), 16, 32)
				if err != nil {
					d.fail("invalid character in \\u hexadecimal character escape")
				}
				r := rune(n)
				if r >= 0xd800 && r < 0xe000 {
					r = 0xfffd // surrogate pairs are not modelled beyond replacement
					if d.pos+6 <= len(d.b) {
						panic(unsupported("surrogate pair"))
					}
				}
				out = append(out, strBytes(mkString(string(r)))...)
			default:
				d.fail("invalid character in string escape code")
			}
		default:
			out = append(out, v)
		}
	}
done:
	// invalid UTF-8 becomes U+FFFD
	if cb, ok := concBytes(out); ok {
		return mkString(strings.ToValidUTF8(string(cb), "\ufffd"))
	}
	return bytesToStr(out)
}

// hexSym decodes \u00xx whose digits were produced from one symbolic byte.
func (d *jdec) hexSym(h []Value) (Value, bool) {
	if h[0].P != nil || h[1].P != nil || h[0].U != '0' || h[1].U != '0' {
		return Value{}, false
	}
	ar := d.w.ar
	nib := func(v Value) *Term {
		t := d.w.term(v, 8)
		dig := ar.ULt(t, ar.BV('9'+1, 8))
		return ar.Ite(dig, ar.Sub(t, ar.BV('0', 8)), ar.Sub(t, ar.BV('a'-10, 8)))
	}
	if h[2].P == nil && h[3].P == nil {
		return Value{}, false
	}
	for _, v := range h[2:] {
		t := d.w.term(v, 8)
		ok := ar.Or(ar.And(ar.ULe(ar.BV('0', 8), t), ar.ULe(t, ar.BV('9', 8))), ar.And(ar.ULe(ar.BV('a', 8), t), ar.ULe(t, ar.BV('f', 8))))
		if !d.w.branch(ok) {
			return Value{}, false
		}
	}
	r := ar.BOr(ar.Shl(nib(h[2]), ar.BV(4, 8)), nib(h[3]))
	if !d.w.branch(ar.ULt(r, ar.BV(0x80, 8))) {
		return Value{}, false
	}
	return fromTerm(r), true
}

func (d *jdec) value(depth int) *jnode {
	if depth > 200 {
		d.fail("exceeded max depth")
	}
	d.ws()
	start := d.pos
	n := &jnode{}
	switch c := d.peek(); {
	case c == '{':
		n.k = 'o'
		d.pos++
		d.ws()
		if d.peek() == '}' {
			d.pos++
			break
		}
		for {
			d.ws()
			n.keys = append(n.keys, d.str())
			d.ws()
			if d.peek() != ':' {
				d.fail("invalid character after object key")
			}
			d.pos++
			n.arr = append(n.arr, d.value(depth+1))
			d.ws()
			x := d.peek()
			d.pos++
			if x == '}' {
				break
			}
			if x != ',' {
				d.fail("invalid character after object key:value pair")
			}
		}
	case c == '[':
		n.k = 'a'
		d.pos++
		d.ws()
		if d.peek() == ']' {
			d.pos++
			break
		}
		for {
			n.arr = append(n.arr, d.value(depth+1))
			d.ws()
			x := d.peek()
			d.pos++
			if x == ']' {
				break
			}
			if x != ',' {
				d.fail("invalid character after array element")
			}
		}
	case c == '"':
		n.k = 's'
		n.s = d.str()
	case c == 't':
		n.k, n.b = 't', true
		d.lit("true")
	case c == 'f':
		n.k = 't'
		d.lit("false")
	case c == 'n':
		n.k = 'n'
		d.lit("null")
	case c == '-' || c >= '0' && c <= '9':
		n.k = 'i'
		for d.pos < len(d.b) {
			x := d.peek()
			if x >= '0' && x <= '9' || x == '-' || x == '+' || x == '.' || x == 'e' || x == 'E' {
				v := d.b[d.pos]
				if t, ok := v.P.(*Term); ok && t.op != ODec && t.op != OFlt {
					v = Value{U: uint64(x)} // pinned by peek
				}
				n.num = append(n.num, v)
				d.pos++
				continue
			}
			break
		}
		if cb, ok := concBytes(n.num); ok && !json.Valid(cb) {
			d.fail("invalid character in numeric literal")
		}
	default:
		d.fail(fmt.Sprintf("invalid character %q looking for beginning of value", string(rune(c))))
	}
	n.raw = d.b[start:d.pos]
	return n
}

func (d *jdec) parse(all bool) (n *jnode, err string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(jsyntax); ok {
				n, err = nil, x.msg
				return
			}
			panic(r)
		}
	}()
	n = d.value(0)
	if all {
		d.ws()
		if d.pos < len(d.b) {
			return nil, "invalid character after top-level value"
		}
	}
	return n, ""
}

type jassign struct {
	w   *Worker
	g   *G
	err Value
}

func (a *jassign) typeErr(what string, ti *TInfo) {
	if a.err.P == nil {
		a.err = a.w.errValue(a.g, "json: cannot unmarshal "+what+" into Go value of type "+typeString(ti.t))
	}
}

// numInt reads an integer number; ok is false if the text is no such integer.
func (a *jassign) numInt(n *jnode, ti *TInfo) (Value, bool) {
	if cb, ok := concBytes(n.num); ok {
		if ti.signed {
			x, err := strconv.ParseInt(string(cb), 10, int(ti.sort))
			return Value{U: uint64(x) & mask(ti.sort)}, err == nil
		}
		x, err := strconv.ParseUint(string(cb), 10, int(ti.sort))
		return Value{U: x}, err == nil
	}
	b := n.num
	neg := false
	if b[0].P == nil && b[0].U == '-' {
		neg, b = true, b[1:]
	}
	t, k := asDecToken(b)
	if t == nil || k != len(b) {
		panic(unsupported("symbolic number text"))
	}
	if ti.sort != 64 {
		panic(unsupported("symbolic number into a small integer"))
	}
	if neg {
		if !ti.signed {
			return Value{}, false
		}
		return fromTerm(a.w.ar.Neg(t)), true
	}
	if ti.signed && a.w.branch(a.w.ar.SLt(t, a.w.ar.BV(0, 64))) {
		return Value{}, false
	}
	return fromTerm(t), true
}

func (a *jassign) numFloat(n *jnode, s Sort) (Value, bool) {
	if cb, ok := concBytes(n.num); ok {
		sz := 64
		if s == SFP32 {
			sz = 32
		}
		f, err := strconv.ParseFloat(string(cb), sz)
		return Value{U: fbits(s, f)}, err == nil
	}
	if t := asFloatToken(n.num); t != nil && len(n.num) == fltLen && t.a[0].sort == s && exactFloatSpec(t.val) {
		return fromTerm(t.a[0]), true
	}
	b := n.num
	neg := false
	if b[0].P == nil && b[0].U == '-' {
		neg, b = true, b[1:]
	}
	if t, k := asDecToken(b); t != nil && k == len(b) {
		f := a.w.ar.F1(OFFromU, s, t)
		if neg {
			f = a.w.ar.F1(OFNeg, s, f)
		}
		return fromTerm(f), true
	}
	panic(unsupported("symbolic number text"))
}

func (a *jassign) iface(n *jnode) Value {
	anyT := types.Universe.Lookup("any").Type()
	mk := func(t types.Type, v Value) Value { return Value{P: &Iface{T: tinfo(t).canon, V: v}} }
	switch n.k {
	case 'n':
		return Value{}
	case 't':
		return mk(types.Typ[types.Bool], mkBool(n.b))
	case 's':
		return mk(types.Typ[types.String], n.s)
	case 'i':
		v, ok := a.numFloat(n, SFP64)
		if !ok {
			a.typeErr("number", tinfo(types.Typ[types.Float64]))
		}
		return mk(types.Typ[types.Float64], v)
	case 'a':
		f := make([]Value, len(n.arr))
		for i, x := range n.arr {
			f[i] = a.iface(x)
		}
		return mk(types.NewSlice(anyT), Value{P: &SliceV{A: &Agg{f}, len: len(f), cap: len(f)}})
	case 'o':
		m := &MapV{kt: types.Typ[types.String], vt: anyT, idx: map[any]int{}}
		for i, x := range n.arr {
			a.w.mapSet(m, tinfo(m.kt), n.keys[i], a.iface(x))
		}
		return mk(types.NewMap(types.Typ[types.String], anyT), Value{P: m})
	}
	return Value{}
}

func (a *jassign) set(n *jnode, ti *TInfo, c *Value) {
	w := a.w
	what := map[byte]string{'s': "string", 'i': "number", 'a': "array", 'o': "object", 't': "bool"}[n.k]
	if ti.k == KPtr && n.k != 'n' {
		et := tinfo(ti.t.Underlying().(*types.Pointer).Elem())
		if c.P == nil {
			x := new(Value)
			*x = et.zero()
			w.setCell(c, Value{P: x})
		}
		a.set(n, et, c.P.(*Value))
		return
	}
	if ti.k == KPtr {
		w.setCell(c, Value{})
		return
	}
	if m := w.findMethod(types.NewPointer(ti.t), "UnmarshalJSON"); m != nil && m.Signature.Params().Len() == 1 {
		r := w.call(a.g, w.code(m), []Value{{P: c}, w.bytesValue(n.raw)}, nil)
		if r.P != nil && a.err.P == nil {
			a.err = r
		}
		return
	}
	if n.k == 'n' {
		switch ti.k {
		case KIface, KMap, KSlice:
			w.setCell(c, Value{})
		}
		return
	}
	if n.k == 's' {
		if m := w.findMethod(types.NewPointer(ti.t), "UnmarshalText"); m != nil && m.Signature.Params().Len() == 1 {
			r := w.call(a.g, w.code(m), []Value{{P: c}, w.bytesValue(strBytes(n.s))}, nil)
			if r.P != nil && a.err.P == nil {
				a.err = r
			}
			return
		}
	}
	switch ti.k {
	case KBool:
		if n.k != 't' {
			a.typeErr(what, ti)
			return
		}
		w.setCell(c, mkBool(n.b))
	case KString:
		if n.k != 's' {
			a.typeErr(what, ti)
			return
		}
		w.setCell(c, n.s)
	case KInt:
		if n.k != 'i' {
			a.typeErr(what, ti)
			return
		}
		v, ok := a.numInt(n, ti)
		if !ok {
			a.typeErr("number "+w.evalStr(bytesToStr(n.num)), ti)
			return
		}
		w.setCell(c, v)
	case KFloat:
		if n.k != 'i' {
			a.typeErr(what, ti)
			return
		}
		v, ok := a.numFloat(n, ti.sort)
		if !ok {
			a.typeErr("number "+w.evalStr(bytesToStr(n.num)), ti)
			return
		}
		w.setCell(c, v)
	case KIface:
		if ti.t.Underlying().(*types.Interface).NumMethods() > 0 {
			a.typeErr(what, ti)
			return
		}
		w.setCell(c, a.iface(n))
	case KSlice:
		et := tinfoElem(ti)
		if n.k == 's' && et.k == KInt && et.sort == 8 {
			b, err := base64.StdEncoding.DecodeString(w.concStr(n.s))
			if err != nil {
				a.typeErr("string", ti)
				return
			}
			w.setCell(c, w.bytesValue(strBytes(mkString(string(b)))))
			return
		}
		if n.k != 'a' {
			a.typeErr(what, ti)
			return
		}
		f := make([]Value, len(n.arr))
		old := sliceVals(*c)
		for i, x := range n.arr {
			f[i] = et.zero()
			if i < len(old) && et.agg { // decoding reuses existing elements
				f[i] = copyVal(old[i])
			}
			a.set(x, et, &f[i])
		}
		w.setCell(c, Value{P: &SliceV{A: &Agg{f}, len: len(f), cap: len(f)}})
	case KArray:
		if n.k != 'a' {
			a.typeErr(what, ti)
			return
		}
		f := c.P.(*Agg).F
		for i := range f {
			if i < len(n.arr) {
				a.set(n.arr[i], ti.elem, &f[i])
			} else {
				w.storeCell(&f[i], ti.elem.zero())
			}
		}
	case KMap:
		if n.k != 'o' {
			a.typeErr(what, ti)
			return
		}
		mt := ti.t.Underlying().(*types.Map)
		kt := tinfo(mt.Key())
		if kt.k != KString {
			panic(unsupported("json into a map with non-string keys"))
		}
		m, _ := c.P.(*MapV)
		if m == nil {
			m = &MapV{kt: mt.Key(), vt: mt.Elem(), idx: map[any]int{}}
			w.setCell(c, Value{P: m})
		}
		et := tinfo(mt.Elem())
		for i, x := range n.arr {
			var e Value
			e = et.zero()
			a.set(x, et, &e)
			w.mapSet(m, kt, n.keys[i], e)
		}
	case KStruct:
		if n.k != 'o' {
			a.typeErr(what, ti)
			return
		}
		fs := jfields(ti)
	keys:
		for i, x := range n.arr {
			key, conc := strConc(n.keys[i])
			if !conc {
				// a symbolic key may equal one of the fields
				var gs []*Term
				none := w.ar.true_
				for _, f := range fs {
					e := w.strEq(n.keys[i], mkString(f.name))
					gs = append(gs, e)
					none = w.ar.And(none, w.ar.Not(e))
				}
				gs = append(gs, none)
				k := w.choose(gs)
				if k == len(fs) {
					continue
				}
				key = fs[k].name
			}
			best := -1
			for j, f := range fs {
				if f.name == key {
					best = j
					break
				}
				if best < 0 && strings.EqualFold(f.name, key) {
					best = j
				}
			}
			if best < 0 {
				continue
			}
			f := fs[best]
			cc, ct := c, ti
			for _, ix := range f.index {
				if ct.k == KPtr {
					ct = tinfo(ct.t.Underlying().(*types.Pointer).Elem())
					if cc.P == nil {
						y := new(Value)
						*y = ct.zero()
						w.setCell(cc, Value{P: y})
					}
					cc = cc.P.(*Value)
				}
				if cc.P == nil {
					continue keys
				}
				cc = &cc.P.(*Agg).F[ix]
				ct = ct.fields[ix]
			}
			if f.quoted {
				if x.k == 's' {
					sub, _ := (&jdec{w: a.w, g: a.g, b: strBytes(x.s)}).parse(true)
					if sub != nil && (sub.k == 'i' || sub.k == 't' || sub.k == 's' || sub.k == 'n') {
						a.set(sub, f.ti, cc)
						continue
					}
				} else if x.k == 'n' {
					continue
				}
				if a.err.P == nil {
					a.err = a.w.errValue(a.g, "json: invalid use of ,string struct tag")
				}
				continue
			}
			a.set(x, f.ti, cc)
		}
	default:
		a.typeErr(what, ti)
	}
}

func (w *Worker) jsonUnmarshal(g *G, b []Value, target Value, d *jdec) Value {
	i, _ := target.P.(*Iface)
	if i == nil || tinfo(i.T).k != KPtr || i.V.P == nil {
		return w.errValue(g, "json: Unmarshal(non-pointer or nil)")
	}
	if d == nil {
		d = &jdec{w: w, g: g, b: b}
	}
	n, msg := d.parse(b != nil)
	if n == nil {
		return w.errValue(g, msg)
	}
	a := &jassign{w: w, g: g}
	a.set(n, tinfo(i.T.Underlying().(*types.Pointer).Elem()), i.V.P.(*Value))
	return a.err
}

type jsonEncSt struct {
	wr             Value
	prefix, indent string
	pretty, noHTML bool
}
type jsonDecSt struct {
	rd   Value
	d    *jdec
	read bool
}

func init() {
	ret := func(w *Worker, out []Value, err Value) Value {
		if err.P != nil {
			return w.tuple(Value{}, err)
		}
		return w.tuple(w.bytesValue(out), Value{})
	}
	reg(func(w *Worker, g *G, a []Value) Value {
		o, e := w.jsonMarshal(g, a[0], false, "", "", false)
		return ret(w, o, e)
	}, "encoding/json.Marshal")
	reg(func(w *Worker, g *G, a []Value) Value {
		o, e := w.jsonMarshal(g, a[0], true, w.str(a[1]), w.str(a[2]), false)
		return ret(w, o, e)
	}, "encoding/json.MarshalIndent")
	reg(func(w *Worker, g *G, a []Value) Value {
		b := sliceVals(a[0])
		if b == nil {
			b = []Value{}
		}
		return w.jsonUnmarshal(g, b, a[1], nil)
	}, "encoding/json.Unmarshal")
	reg(func(w *Worker, g *G, a []Value) Value {
		d := &jdec{w: w, g: g, b: sliceVals(a[0])}
		n, _ := d.parse(true)
		return mkBool(n != nil)
	}, "encoding/json.Valid")
	reg(func(w *Worker, g *G, a []Value) Value {
		c := new(Value)
		c.P = &Agg{}
		w.nat[c] = &jsonEncSt{wr: a[0]}
		return Value{P: c}
	}, "encoding/json.NewEncoder")
	reg(func(w *Worker, g *G, a []Value) Value {
		st := w.nat[cellOf(a[0])].(*jsonEncSt)
		st.prefix, st.indent = w.str(a[1]), w.str(a[2])
		st.pretty = st.prefix != "" || st.indent != ""
		return Value{}
	}, "(*encoding/json.Encoder).SetIndent")
	reg(func(w *Worker, g *G, a []Value) Value {
		st := w.nat[cellOf(a[0])].(*jsonEncSt)
		st.noHTML = a[1].U == 0
		return Value{}
	}, "(*encoding/json.Encoder).SetEscapeHTML")
	reg(func(w *Worker, g *G, a []Value) Value {
		st := w.nat[cellOf(a[0])].(*jsonEncSt)
		o, e := w.jsonMarshal(g, a[1], st.pretty, st.prefix, st.indent, st.noHTML)
		if e.P != nil {
			return e
		}
		r := w.writeTo(g, st.wr, append(o, Value{U: '\n'}))
		return r.P.(Tuple)[1]
	}, "(*encoding/json.Encoder).Encode")
	reg(func(w *Worker, g *G, a []Value) Value {
		c := new(Value)
		c.P = &Agg{}
		w.nat[c] = &jsonDecSt{rd: a[0]}
		return Value{P: c}
	}, "encoding/json.NewDecoder")
	reg(func(w *Worker, g *G, a []Value) Value {
		st := w.nat[cellOf(a[0])].(*jsonDecSt)
		if e := st.fill(w, g); e.P != nil {
			return e
		}
		st.d.g = g
		st.d.ws()
		if st.d.pos >= len(st.d.b) {
			return *w.global(w.sh.prog.ImportedPackage("io").Var("EOF"))
		}
		return w.jsonUnmarshal(g, nil, a[1], st.d)
	}, "(*encoding/json.Decoder).Decode")
	reg(func(w *Worker, g *G, a []Value) Value {
		st := w.nat[cellOf(a[0])].(*jsonDecSt)
		if e := st.fill(w, g); e.P != nil {
			return mkBool(false)
		}
		st.d.g = g
		st.d.ws()
		return mkBool(st.d.pos < len(st.d.b))
	}, "(*encoding/json.Decoder).More")
	for _, n := range []string{"UseNumber", "DisallowUnknownFields", "Token", "Buffered", "InputOffset"} {
		reg(func(w *Worker, g *G, a []Value) Value {
			panic(unsupported("json.Decoder." + n))
		}, "(*encoding/json.Decoder)."+n)
	}
}

func (st *jsonDecSt) fill(w *Worker, g *G) Value {
	if st.read {
		return Value{}
	}
	st.read = true
	p := w.sh.prog.ImportedPackage("io")
	r := w.call(g, w.code(p.Func("ReadAll")), []Value{st.rd}, nil).P.(Tuple)
	st.d = &jdec{w: w, g: g, b: sliceVals(r[0])}
	return r[1]
}
