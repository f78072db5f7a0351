package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A model of package fmt that keeps symbolic text symbolic.

type fmtr struct {
	w    *Worker
	g    *G
	out  []Value
	plus bool
	shrp bool
	minu bool
	zero bool
	spc  bool
	wid  int
	prec int // -1 none
	hasW bool
}

func (f *fmtr) s(x string) { f.out = append(f.out, strBytes(mkString(x))...) }
func (f *fmtr) b(x []Value) {
	f.out = append(f.out, x...)
}

func (f *fmtr) pad(x []Value) {
	if !f.hasW || f.wid <= 0 {
		f.b(x)
		return
	}
	n := len(x) // ASCII: width in runes is the number of bytes
	if cb, ok := concBytes(x); ok {
		n = utf8.RuneCount(cb)
	}
	p := f.wid - n
	c := byte(' ')
	if f.zero && !f.minu {
		c = '0'
	}
	if !f.minu {
		for i := 0; i < p; i++ {
			f.out = append(f.out, Value{U: uint64(c)})
		}
	}
	f.b(x)
	if f.minu {
		for i := 0; i < p; i++ {
			f.out = append(f.out, Value{U: ' '})
		}
	}
}

func (f *fmtr) flags() string {
	s := "%"
	if f.plus {
		s += "+"
	}
	if f.minu {
		s += "-"
	}
	if f.shrp {
		s += "#"
	}
	if f.spc {
		s += " "
	}
	if f.zero {
		s += "0"
	}
	if f.hasW {
		s += strconv.Itoa(f.wid)
	}
	if f.prec >= 0 {
		s += "." + strconv.Itoa(f.prec)
	}
	return s
}

func (f *fmtr) plain() bool {
	return !f.plus && !f.shrp && !f.zero && !f.spc && f.prec < 0
}

func (f *fmtr) arg(a Value, verb rune) {
	i, _ := a.P.(*Iface)
	if i == nil {
		if a.P != nil {
			panic(unsupported(fmt.Sprintf("fmt argument %T", a.P)))
		}
		switch verb {
		case 'v', 'T':
			f.s("<nil>")
		default:
			f.s("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if verb == 'T' {
		f.s(typeString(i.T))
		return
	}
	f.val(tinfo(i.T), i.V, verb, 0)
}

// methods tries Error() and String().
func (f *fmtr) methods(ti *TInfo, v Value, verb rune, depth int) bool {
	if f.shrp && verb == 'v' {
		return false
	}
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
	default:
		return false
	}
	if f.w.findMethod(ti.t, "Format") != nil {
		panic(unsupported("fmt.Formatter"))
	}
	for _, n := range []string{"Error", "String"} {
		m := f.w.findMethod(ti.t, n)
		if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 || tinfo(m.Signature.Results().At(0).Type()).k != KString {
			continue
		}
		if ti.k == KPtr && v.P == nil {
			f.s("<nil>")
			return true
		}
		r := f.w.callMethodCatch(f.g, m.String(), f.w.code(m), v)
		if r.P != nil {
			if _, isP := r.P.(*Poison); isP {
				f.s("%!" + string(verb) + "(PANIC=" + n + " method)")
				return true
			}
		}
		f.str(r, verb)
		return true
	}
	return false
}

func (w *Worker) callMethodCatch(g *G, name string, c *fnCode, v Value) (r Value) {
	fr := g.fr
	defer func() {
		if x := recover(); x != nil {
			if sp, ok := x.(simPanic); ok && !sp.exit {
				g.fr = fr
				r = Value{P: &Poison{"panic"}}
				return
			}
			panic(x)
		}
	}()
	return w.call(g, c, []Value{v}, nil)
}

func (f *fmtr) str(v Value, verb rune) {
	switch verb {
	case 'v', 's':
		if f.shrp && verb == 'v' {
			f.pad(strBytes(f.w.quoteSym(v)))
			return
		}
		b := strBytes(v)
		if f.prec >= 0 && len(b) > f.prec {
			b = b[:f.prec]
		}
		f.pad(b)
	case 'q':
		f.pad(strBytes(f.w.quoteSym(v)))
	default:
		f.s(fmt.Sprintf(f.flags()+string(verb), f.w.concStr(v)))
	}
}

func (f *fmtr) val(ti *TInfo, v Value, verb rune, depth int) {
	w := f.w
	if p, ok := v.P.(*Poison); ok {
		panic(unsupported("formatting " + p.msg))
	}
	if f.methods(ti, v, verb, depth) {
		return
	}
	bad := func() {
		f.s("%!" + string(verb) + "(" + typeString(ti.t) + "=")
		g2 := *f
		g2.out = nil
		g2.plus, g2.shrp, g2.zero, g2.hasW, g2.prec = false, false, false, false, -1
		g2.val(ti, v, 'v', depth)
		f.b(g2.out)
		f.s(")")
	}
	switch ti.k {
	case KBool:
		if verb != 't' && verb != 'v' {
			bad()
			return
		}
		if w.branch(w.boolTerm(v)) {
			f.pad(strBytes(mkString("true")))
		} else {
			f.pad(strBytes(mkString("false")))
		}
	case KInt:
		switch verb {
		case 'v', 'd', 'x', 'X', 'o', 'b', 'c', 'q', 'U', 'O':
		default:
			bad()
			return
		}
		if v.P != nil && (verb == 'v' || verb == 'd') && f.prec < 0 && !f.spc && !f.shrp {
			x := w.convert(tinfo(types.Typ[types.Int64]), ti, v)
			txt := w.decText(x, ti.signed)
			if f.plus && !(len(txt) > 0 && txt[0].P == nil && txt[0].U == '-') && verb == 'd' {
				txt = append([]Value{{U: '+'}}, txt...)
			}
			if f.zero && len(txt) > 0 && txt[0].P == nil && txt[0].U == '-' && f.hasW && len(txt) < f.wid {
				pad := []Value{{U: '-'}}
				for k := len(txt); k < f.wid; k++ {
					pad = append(pad, Value{U: '0'})
				}
				f.b(append(pad, txt[1:]...))
				return
			}
			f.pad(txt)
			return
		}
		u := w.conc(v, ti.sort)
		if ti.signed {
			f.s(fmt.Sprintf(f.flags()+string(verb), sext(u, ti.sort)))
		} else {
			f.s(fmt.Sprintf(f.flags()+string(verb), u))
		}
	case KFloat:
		switch verb {
		case 'v', 'e', 'E', 'f', 'F', 'g', 'G', 'x', 'b':
		default:
			bad()
			return
		}
		if v.P == nil {
			if ti.sort == SFP32 {
				f.s(fmt.Sprintf(f.flags()+string(verb), f32(v.U)))
			} else {
				f.s(fmt.Sprintf(f.flags()+string(verb), f64(v.U)))
			}
			return
		}
		fm := byte(verb)
		prec := f.prec
		switch verb {
		case 'v':
			fm = 'V' // %v: shortest %g with a larger exponent threshold
		case 'F', 'f':
			fm = 'f'
			if prec < 0 {
				prec = 6
			}
		case 'e', 'E':
			if prec < 0 {
				prec = 6
			}
		}
		if f.plus || f.shrp || f.spc || f.zero || f.hasW {
			panic(unsupported("flags on a symbolic float"))
		}
		size := 64
		if ti.sort == SFP32 {
			size = 32
		}
		f.b(w.fltTokens(v, ti.sort, fm, prec, size))
	case KString:
		switch verb {
		case 'v', 's', 'q', 'x', 'X':
			f.str(v, verb)
		default:
			bad()
		}
	case KPtr:
		if v.P == nil {
			switch verb {
			case 'v', 's':
				f.s("<nil>")
			default:
				f.s("%!" + string(verb) + "(" + typeString(ti.t) + "=<nil>)")
			}
			return
		}
		et := tinfo(ti.t.Underlying().(*types.Pointer).Elem())
		if depth == 0 && (et.agg || et.k == KSlice || et.k == KMap) {
			f.s("&")
			f.val(et, *v.P.(*Value), verb, depth+1)
			return
		}
		f.s("0xc000012345")
	case KSlice, KArray:
		et := tinfoElem(ti)
		var vals []Value
		if ti.k == KSlice {
			vals = sliceVals(v)
		} else {
			vals = v.P.(*Agg).F
		}
		if et.k == KInt && et.sort == 8 && !et.signed && (verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
			f.str(bytesToStr(vals), verb)
			return
		}
		if f.shrp {
			panic(unsupported("%#v of a composite"))
		}
		f.s("[")
		for i := range vals {
			if i > 0 {
				f.s(" ")
			}
			f.val(et, vals[i], verb, depth+1)
		}
		f.s("]")
	case KMap:
		m, _ := v.P.(*MapV)
		if f.shrp {
			panic(unsupported("%#v of a composite"))
		}
		f.s("map[")
		if m != nil {
			ks := w.sortedEnts(m)
			for i, e := range ks {
				if i > 0 {
					f.s(" ")
				}
				f.val(tinfo(m.kt), e.k, verb, depth+1)
				f.s(":")
				f.val(tinfo(m.vt), e.v, verb, depth+1)
			}
		}
		f.s("]")
	case KStruct:
		if f.shrp {
			panic(unsupported("%#v of a composite"))
		}
		st := ti.t.Underlying().(*types.Struct)
		f.s("{")
		for i, fi := range ti.fields {
			if i > 0 {
				f.s(" ")
			}
			if f.plus {
				f.s(st.Field(i).Name() + ":")
			}
			fv := v.P.(*Agg).F[i]
			if !st.Field(i).Exported() {
				f.noMeth(fi, fv, verb, depth+1)
				continue
			}
			f.val(fi, fv, verb, depth+1)
		}
		f.s("}")
	case KIface:
		x, _ := v.P.(*Iface)
		if x == nil {
			f.s("<nil>")
			return
		}
		f.val(tinfo(x.T), x.V, verb, depth+1)
	case KFunc, KChan, KUnsafe:
		if v.P == nil {
			f.s("<nil>")
			return
		}
		f.s("0xc000012345")
	default:
		panic(unsupported("fmt of " + ti.t.String()))
	}
}

// noMeth formats an unexported field, whose methods fmt does not call.
func (f *fmtr) noMeth(ti *TInfo, v Value, verb rune, depth int) {
	if ti.k == KIface {
		x, _ := v.P.(*Iface)
		if x == nil {
			f.s("<nil>")
			return
		}
		f.noMeth(tinfo(x.T), x.V, verb, depth)
		return
	}
	if _, named := ti.t.(*types.Named); named && ti.scalar() || ti.k == KString {
		f.val(tinfo(ti.t.Underlying()), v, verb, depth)
		return
	}
	f.val(ti, v, verb, depth)
}

func tinfoElem(ti *TInfo) *TInfo {
	switch u := ti.t.Underlying().(type) {
	case *types.Slice:
		return tinfo(u.Elem())
	case *types.Array:
		return tinfo(u.Elem())
	}
	return nil
}

// sortedEnts gives the live entries in key order (forking on symbolic keys).
func (w *Worker) sortedEnts(m *MapV) []mapEnt {
	var es []mapEnt
	for i := range m.ents {
		if !m.ents[i].dead {
			es = append(es, m.ents[i])
		}
	}
	kt := tinfo(m.kt)
	less := func(a, b Value) bool {
		switch kt.k {
		case KString:
			return w.branch(w.strLess(a, b))
		case KInt:
			x, y := w.term(a, kt.sort), w.term(b, kt.sort)
			if kt.signed {
				return w.branch(w.ar.SLt(x, y))
			}
			return w.branch(w.ar.ULt(x, y))
		}
		panic(unsupported("ordering map keys of " + kt.t.String()))
	}
	conc := true
	for i := range es {
		if es[i].sym {
			conc = false
		}
	}
	if conc && kt.k == KString {
		sort.SliceStable(es, func(i, j int) bool { a, _ := strConc(es[i].k); b, _ := strConc(es[j].k); return a < b })
		return es
	}
	for i := 1; i < len(es); i++ {
		for j := i; j > 0 && less(es[j].k, es[j-1].k); j-- {
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	return es
}

func (w *Worker) sprintf(g *G, format Value, args []Value) []Value {
	f := &fmtr{w: w, g: g, prec: -1}
	fb := strBytes(format)
	n := 0
	i := 0
	indexed := false
	isPct := func(v Value) bool {
		if v.P == nil {
			return v.U == '%'
		}
		return w.branch(w.ar.Eq(v.P.(*Term), w.ar.BV('%', 8)))
	}
	at := func(k int) byte { return byte(w.conc(fb[k], 8)) }
	for i < len(fb) {
		if !isPct(fb[i]) {
			f.out = append(f.out, fb[i])
			i++
			continue
		}
		i++
		f.plus, f.shrp, f.minu, f.zero, f.spc, f.hasW, f.prec, f.wid = false, false, false, false, false, false, -1, 0
	flags:
		for ; i < len(fb); i++ {
			switch at(i) {
			case '+':
				f.plus = true
			case '-':
				f.minu = true
			case '#':
				f.shrp = true
			case '0':
				f.zero = true
			case ' ':
				f.spc = true
			default:
				break flags
			}
		}
		if i < len(fb) && at(i) == '[' {
			k, j := 0, i+1
			for ; j < len(fb) && at(j) >= '0' && at(j) <= '9'; j++ {
				k = k*10 + int(at(j)-'0')
			}
			if j >= len(fb) || at(j) != ']' || k < 1 || k > len(args) {
				panic(unsupported("indexed fmt argument"))
			}
			n, i, indexed = k-1, j+1, true
		}
		if i < len(fb) && at(i) == '*' {
			if n < len(args) {
				x, _ := args[n].P.(*Iface)
				if x == nil || tinfo(x.T).k != KInt {
					panic(unsupported("bad width"))
				}
				f.wid, f.hasW = int(int64(w.conc(x.V, 64))), true
				if f.wid < 0 {
					f.wid, f.minu = -f.wid, true
				}
				n++
			}
			i++
		}
		for i < len(fb) && at(i) >= '0' && at(i) <= '9' {
			f.wid = f.wid*10 + int(at(i)-'0')
			f.hasW = true
			i++
		}
		if i < len(fb) && at(i) == '.' {
			i++
			f.prec = 0
			if i < len(fb) && at(i) == '*' {
				x, _ := args[n].P.(*Iface)
				f.prec = int(int64(w.conc(x.V, 64)))
				n++
				i++
			}
			for i < len(fb) && at(i) >= '0' && at(i) <= '9' {
				f.prec = f.prec*10 + int(at(i)-'0')
				i++
			}
		}
		if i >= len(fb) {
			f.s("%!(NOVERB)")
			break
		}
		// the verb
		c := fb[i]
		var verb rune
		if c.P != nil {
			verb = rune(w.concTerm(c.P.(*Term)))
			i++
		} else if c.U < 0x80 {
			verb = rune(c.U)
			i++
		} else {
			r, k := w.decodeRune(bytesToStr(fb), i)
			verb = rune(w.conc(r, 32))
			i += k
		}
		if verb == '%' {
			f.s("%")
			continue
		}
		if n >= len(args) {
			f.s("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			verb = 'v'
		}
		if verb == 'p' {
			f.s("0xc000012345")
			continue
		}
		f.arg(a, verb)
	}
	if n < len(args) && !indexed {
		f.s("%!(EXTRA ")
		for k, a := range args[n:] {
			if k > 0 {
				f.s(", ")
			}
			x, _ := a.P.(*Iface)
			if x == nil {
				f.s("<nil>")
				continue
			}
			f.s(typeString(x.T) + "=")
			f.plus, f.shrp, f.minu, f.zero, f.spc, f.hasW, f.prec = false, false, false, false, false, false, -1
			f.arg(a, 'v')
		}
		f.s(")")
	}
	return f.out
}

func (w *Worker) sprint(g *G, args []Value, ln bool) []Value {
	f := &fmtr{w: w, g: g, prec: -1}
	prevStr := false
	for i, a := range args {
		x, _ := a.P.(*Iface)
		isStr := x != nil && tinfo(x.T).k == KString
		if i > 0 && (ln || !isStr && !prevStr) {
			f.s(" ")
		}
		f.arg(a, 'v')
		prevStr = isStr
	}
	if ln {
		f.s("\n")
	}
	return f.out
}

func (w *Worker) writeTo(g *G, wr Value, b []Value) Value {
	i, _ := wr.P.(*Iface)
	if i == nil {
		w.nilDeref()
	}
	m := w.findMethod(i.T, "Write")
	return w.call(g, w.code(m), []Value{i.V, w.bytesValue(b)}, nil)
}

func init() {
	reg(func(w *Worker, g *G, a []Value) Value { return bytesToStr(w.sprintf(g, a[0], sliceVals(a[1]))) }, "fmt.Sprintf")
	reg(func(w *Worker, g *G, a []Value) Value { return bytesToStr(w.sprint(g, sliceVals(a[0]), false)) }, "fmt.Sprint")
	reg(func(w *Worker, g *G, a []Value) Value { return bytesToStr(w.sprint(g, sliceVals(a[0]), true)) }, "fmt.Sprintln")
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.writeTo(g, a[0], w.sprintf(g, a[1], sliceVals(a[2])))
	}, "fmt.Fprintf")
	reg(func(w *Worker, g *G, a []Value) Value { return w.writeTo(g, a[0], w.sprint(g, sliceVals(a[1]), false)) }, "fmt.Fprint")
	reg(func(w *Worker, g *G, a []Value) Value { return w.writeTo(g, a[0], w.sprint(g, sliceVals(a[1]), true)) }, "fmt.Fprintln")
	bt := tinfo(types.Typ[types.Byte])
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.appendVals(g, bt, a[0], w.sprintf(g, a[1], sliceVals(a[2])))
	}, "fmt.Appendf")
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.appendVals(g, bt, a[0], w.sprint(g, sliceVals(a[1]), false))
	}, "fmt.Append")
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.appendVals(g, bt, a[0], w.sprint(g, sliceVals(a[1]), true))
	}, "fmt.Appendln")
	pr := func(w *Worker, g *G, a []Value) Value { return w.tuple(mkInt(0), Value{}) }
	reg(pr, "fmt.Printf", "fmt.Print", "fmt.Println")
	reg(func(w *Worker, g *G, a []Value) Value {
		args := sliceVals(a[1])
		msg := bytesToStr(w.sprintf(g, a[0], args))
		p := w.sh.prog.ImportedPackage("fmt")
		var wrapped []Value
		if fs, ok := strConc(a[0]); ok {
			k := 0
			for i := 0; i+1 < len(fs); i++ {
				if fs[i] != '%' {
					continue
				}
				i++
				for i < len(fs) && strings.IndexByte("+-# 0.123456789", fs[i]) >= 0 {
					i++
				}
				if i < len(fs) && fs[i] == '%' {
					continue
				}
				if i < len(fs) && fs[i] == 'w' && k < len(args) {
					wrapped = append(wrapped, args[k])
				}
				k++
			}
		}
		if len(wrapped) == 1 {
			t := p.Type("wrapError").Type()
			c := new(Value)
			*c = tinfo(t).zero()
			c.P.(*Agg).F[0], c.P.(*Agg).F[1] = msg, wrapped[0]
			return Value{P: &Iface{T: types.NewPointer(t), V: Value{P: c}}}
		}
		if len(wrapped) > 1 {
			panic(unsupported("several %w"))
		}
		ep := w.sh.prog.ImportedPackage("errors")
		return w.call(g, w.code(ep.Func("New")), []Value{msg}, nil)
	}, "fmt.Errorf")
}
