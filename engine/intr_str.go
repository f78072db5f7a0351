package main

import (
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"
)

// concBytes gives the bytes if all are concrete.
func concBytes(b []Value) ([]byte, bool) {
	out := make([]byte, len(b))
	for i := range b {
		if b[i].P != nil {
			return nil, false
		}
		out[i] = byte(b[i].U)
	}
	return out, true
}

// indexByte finds the first position of c, forking.
func (w *Worker) indexByte(b []Value, c Value, last bool) int {
	ar := w.ar
	ct := w.term(c, 8)
	var guards []*Term
	var pos []int
	none := ar.true_
	n := len(b)
	for i := 0; i < n; i++ {
		j := i
		if last {
			j = n - 1 - i
		}
		e := ar.Eq(w.term(b[j], 8), ct)
		if d, ok := w.decided(e); ok {
			e = ar.Bool(d)
		}
		if e.isFalse() {
			continue
		}
		gd := ar.And(none, e)
		guards = append(guards, gd)
		pos = append(pos, j)
		if e.isTrue() {
			none = ar.fals
			break
		}
		none = ar.And(none, ar.Not(e))
	}
	if len(guards) == 0 {
		return -1
	}
	if !none.isFalse() {
		guards = append(guards, none)
		pos = append(pos, -1)
	}
	if len(guards) == 1 {
		return pos[0]
	}
	return pos[w.choose(guards)]
}

func (w *Worker) indexSub(s, sub []Value) int {
	if len(sub) == 0 {
		return 0
	}
	ar := w.ar
	var guards []*Term
	var pos []int
	none := ar.true_
	for i := 0; i+len(sub) <= len(s); i++ {
		e := w.bytesEq(s[i:i+len(sub)], sub)
		if d, ok := w.decided(e); ok {
			e = ar.Bool(d)
		}
		if e.isFalse() {
			continue
		}
		guards = append(guards, ar.And(none, e))
		pos = append(pos, i)
		if e.isTrue() {
			none = ar.fals
			break
		}
		none = ar.And(none, ar.Not(e))
	}
	if len(guards) == 0 {
		return -1
	}
	if !none.isFalse() {
		guards = append(guards, none)
		pos = append(pos, -1)
	}
	if len(guards) == 1 {
		return pos[0]
	}
	return pos[w.choose(guards)]
}

func (w *Worker) tuple(v ...Value) Value { return Value{P: Tuple(v)} }

func (w *Worker) cmpBytes(a, b Value) Value {
	ar := w.ar
	lt, gt := w.strLess(a, b), w.strLess(b, a)
	return fromTerm(ar.Ite(lt, ar.BV(^uint64(0), 64), ar.Ite(gt, ar.BV(1, 64), ar.BV(0, 64))))
}

func init() {
	asStr := func(v Value) Value { // byte slice or string
		if s, ok := v.P.(*SliceV); ok {
			return bytesToStr(s.A.F[s.off : s.off+s.len])
		}
		return v
	}
	ib := func(w *Worker, g *G, a []Value) Value { return mkInt(w.indexByte(strBytes(asStr(a[0])), a[1], false)) }
	reg(ib, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte")
	lib := func(w *Worker, g *G, a []Value) Value { return mkInt(w.indexByte(strBytes(asStr(a[0])), a[1], true)) }
	reg(lib, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte")
	cnt := func(w *Worker, g *G, a []Value) Value {
		b := strBytes(asStr(a[0]))
		r := w.ar.BV(0, 64)
		for i := range b {
			r = w.ar.Add(r, w.ar.Ite(w.ar.Eq(w.term(b[i], 8), w.term(a[1], 8)), w.ar.BV(1, 64), w.ar.BV(0, 64)))
		}
		return fromTerm(r)
	}
	reg(cnt, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(w *Worker, g *G, a []Value) Value {
		return fromTerm(w.strEq(asStr(a[0]), asStr(a[1])))
	}, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(w *Worker, g *G, a []Value) Value { return w.cmpBytes(asStr(a[0]), asStr(a[1])) },
		"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "runtime.cmpstring")
	ix := func(w *Worker, g *G, a []Value) Value {
		return mkInt(w.indexSub(strBytes(asStr(a[0])), strBytes(asStr(a[1]))))
	}
	reg(ix, "internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index")
	reg(func(w *Worker, g *G, a []Value) Value {
		return mkBool(w.indexSub(strBytes(asStr(a[0])), strBytes(asStr(a[1]))) >= 0)
	}, "strings.Contains", "bytes.Contains")

	// strconv
	reg(func(w *Worker, g *G, a []Value) Value { return bytesToStr(w.decText(a[0], true)) }, "strconv.Itoa")
	fmtInt := func(signed bool) Intrinsic {
		return func(w *Worker, g *G, a []Value) Value {
			base := int(int64(w.conc(a[1], 64)))
			if a[0].P == nil {
				if signed {
					return mkString(strconv.FormatInt(int64(a[0].U), base))
				}
				return mkString(strconv.FormatUint(a[0].U, base))
			}
			if base != 10 {
				u := w.conc(a[0], 64)
				return mkString(strconv.FormatUint(u, base))
			}
			return bytesToStr(w.decText(a[0], signed))
		}
	}
	reg(fmtInt(true), "strconv.FormatInt")
	reg(fmtInt(false), "strconv.FormatUint")
	byteTI := tinfo(types.Typ[types.Byte])
	appInt := func(signed bool) Intrinsic {
		f := fmtInt(signed)
		return func(w *Worker, g *G, a []Value) Value {
			return w.appendVals(g, byteTI, a[0], strBytes(f(w, g, a[1:])))
		}
	}
	reg(appInt(true), "strconv.AppendInt")
	reg(appInt(false), "strconv.AppendUint")
	fmtF := func(w *Worker, a []Value) []Value {
		f := byte(w.conc(a[1], 8))
		prec := int(int64(w.conc(a[2], 64)))
		size := int(int64(w.conc(a[3], 64)))
		return w.fltTokens(a[0], SFP64, f, prec, size)
	}
	reg(func(w *Worker, g *G, a []Value) Value { return bytesToStr(fmtF(w, a)) }, "strconv.FormatFloat")
	reg(func(w *Worker, g *G, a []Value) Value { return w.appendVals(g, byteTI, a[0], fmtF(w, a[1:])) }, "strconv.AppendFloat")
	numErr := func(w *Worker, g *G, err error) Value {
		if err == nil {
			return Value{}
		}
		p := w.sh.prog.ImportedPackage("strconv")
		ne := err.(*strconv.NumError)
		inner := "ErrSyntax"
		if ne.Err == strconv.ErrRange {
			inner = "ErrRange"
		}
		c := new(Value)
		t := p.Type("NumError").Type()
		*c = tinfo(t).zero()
		a := c.P.(*Agg)
		a.F[0], a.F[1] = mkString(ne.Func), mkString(ne.Num)
		if ne.Err == strconv.ErrSyntax || ne.Err == strconv.ErrRange {
			a.F[2] = *w.global(p.Var(inner))
		} else {
			a.F[2] = w.errValue(g, ne.Err.Error())
		}
		return Value{P: &Iface{T: types.NewPointer(t), V: Value{P: c}}}
	}
	parseInt := func(w *Worker, g *G, s Value, base, size int, signed bool, fn string) Value {
		if cs, ok := strConc(s); ok {
			if signed {
				v, err := strconv.ParseInt(cs, base, size)
				if ne, ok := err.(*strconv.NumError); ok {
					ne.Func = fn
				}
				return w.tuple(Value{U: uint64(v)}, numErr(w, g, err))
			}
			v, err := strconv.ParseUint(cs, base, size)
			return w.tuple(Value{U: v}, numErr(w, g, err))
		}
		b := strBytes(s)
		neg := false
		if len(b) > 0 && b[0].P == nil && b[0].U == '-' && signed {
			neg, b = true, b[1:]
		}
		if t, n := asDecToken(b); t != nil && n == len(b) && (base == 10 || base == 0) && (size == 64 || size == 0) {
			if neg {
				t = w.ar.Neg(t)
			}
			return w.tuple(fromTerm(t), Value{})
		}
		cs := w.concStr(s)
		if signed {
			v, err := strconv.ParseInt(cs, base, size)
			return w.tuple(Value{U: uint64(v)}, numErr(w, g, err))
		}
		v, err := strconv.ParseUint(cs, base, size)
		return w.tuple(Value{U: v}, numErr(w, g, err))
	}
	reg(func(w *Worker, g *G, a []Value) Value {
		return parseInt(w, g, a[0], int(int64(a[1].U)), int(int64(a[2].U)), true, "ParseInt")
	}, "strconv.ParseInt")
	reg(func(w *Worker, g *G, a []Value) Value {
		return parseInt(w, g, a[0], int(int64(a[1].U)), int(int64(a[2].U)), false, "ParseUint")
	}, "strconv.ParseUint")
	reg(func(w *Worker, g *G, a []Value) Value { return parseInt(w, g, a[0], 10, 0, true, "Atoi") }, "strconv.Atoi")
	reg(func(w *Worker, g *G, a []Value) Value {
		if cs, ok := strConc(a[0]); ok {
			v, err := strconv.ParseFloat(cs, int(int64(a[1].U)))
			return w.tuple(Value{U: fbits(SFP64, v)}, numErr(w, g, err))
		}
		b := strBytes(a[0])
		if t := asFloatToken(b); t != nil && len(b) == fltLen && t.a[0].sort == SFP64 && exactFloatSpec(t.val) {
			return w.tuple(fromTerm(t.a[0]), Value{})
		}
		panic(unsupported("ParseFloat of symbolic text"))
	}, "strconv.ParseFloat")
	reg(func(w *Worker, g *G, a []Value) Value {
		if s, ok := strConc(a[0]); ok {
			return mkString(strconv.Quote(s))
		}
		return w.quoteSym(a[0])
	}, "strconv.Quote")

	// common pure functions on concrete text, for speed
	s1 := func(name string, f func(string) string) {
		fn := name
		reg(func(w *Worker, g *G, a []Value) Value {
			if s, ok := strConc(a[0]); ok {
				return mkString(f(s))
			}
			return w.callBody(g, fn, a)
		}, name)
	}
	s1("strings.ToLower", strings.ToLower)
	s1("strings.ToUpper", strings.ToUpper)
	s1("strings.TrimSpace", strings.TrimSpace)
	reg(func(w *Worker, g *G, a []Value) Value {
		v := asStr(a[0])
		b := strBytes(v)
		if cb, ok := concBytes(b); ok {
			return mkBool(utf8.Valid(cb))
		}
		ok := w.ar.true_
		for i := range b {
			ok = w.ar.And(ok, w.ar.ULt(w.term(b[i], 8), w.ar.BV(0x80, 8)))
		}
		if d, dec := w.decided(ok); dec && d {
			return mkBool(true)
		}
		if w.branch(ok) {
			return mkBool(true)
		}
		return mkBool(utf8.ValidString(w.concStr(v)))
	}, "unicode/utf8.Valid", "unicode/utf8.ValidString")
	reg(func(w *Worker, g *G, a []Value) Value {
		v := asStr(a[0])
		if strLen(v) == 0 {
			return w.tuple(Value{U: utf8.RuneError}, mkInt(0))
		}
		r, n := w.decodeRune(v, 0)
		return w.tuple(r, mkInt(n))
	}, "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString")
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.appendVals(g, byteTI, a[0], w.encodeRune(a[1]))
	}, "unicode/utf8.AppendRune")
	reg(func(w *Worker, g *G, a []Value) Value { return w.cloneStr(a[0]) }, "strings.Clone", "internal/stringslite.Clone")
}

func (w *Worker) cloneStr(v Value) Value { return v }

// exactFloatSpec: does the text determine the value?
func exactFloatSpec(spec uint64) bool {
	prec := int(uint8(spec>>16)) - 1
	return prec == -1
}

// quoteSym quotes an ASCII symbolic string, forking on the class of each byte.
func (w *Worker) quoteSym(v Value) Value {
	ar := w.ar
	out := []Value{{U: '"'}}
	for _, b := range strBytes(v) {
		if b.P == nil {
			if b.U >= 0x80 {
				return mkString(strconv.Quote(w.concStr(v)))
			}
			q := strconv.Quote(string([]byte{byte(b.U)}))
			out = append(out, strBytes(mkString(q[1:len(q)-1]))...)
			continue
		}
		t := b.P.(*Term)
		plain := ar.AndN(ar.ULe(ar.BV(0x20, 8), t), ar.ULt(t, ar.BV(0x7f, 8)), ar.Not(ar.Eq(t, ar.BV('"', 8))), ar.Not(ar.Eq(t, ar.BV('\\', 8))))
		if w.branch(plain) {
			out = append(out, b)
			continue
		}
		if w.branch(ar.Or(ar.Eq(t, ar.BV('"', 8)), ar.Eq(t, ar.BV('\\', 8)))) {
			out = append(out, Value{U: '\\'}, b)
			continue
		}
		u := byte(w.concTerm(t))
		if u >= 0x80 {
			return mkString(strconv.Quote(w.concStr(v)))
		}
		q := strconv.Quote(string([]byte{u}))
		out = append(out, strBytes(mkString(q[1:len(q)-1]))...)
	}
	out = append(out, Value{U: '"'})
	return bytesToStr(out)
}

// callBody runs the real body of a function that has an intrinsic for simple arguments.
func (w *Worker) callBody(g *G, name string, a []Value) Value {
	i := strings.LastIndexByte(name, '.')
	p := w.sh.prog.ImportedPackage(name[:i])
	fn := p.Func(name[i+1:])
	k := bodyKey{name}
	c, _ := bodyCodes(w)[k]
	if c == nil {
		save := w.codes[fn]
		c = w.compileNoIntr(fn)
		w.codes[fn] = save
		bodyCodes(w)[k] = c
	}
	return w.call(g, c, a, nil)
}

type bodyKey struct{ n string }

func bodyCodes(w *Worker) map[bodyKey]*fnCode {
	if w.bodies == nil {
		w.bodies = map[bodyKey]*fnCode{}
	}
	return w.bodies
}
