package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one Go value. Scalars are concrete in U unless P holds a *Term.
// Other kinds live in P; nil P is the zero value of every kind but struct and array.
type Value struct {
	U uint64
	P any
}

type Agg struct{ F []Value } // struct or array

type SliceV struct {
	A        *Agg
	off      int
	len, cap int
}

type SymStr struct{ B []Value }

type SymPtr struct { // element of a table at a symbolic index
	F     []Value
	idx   *Term
	esort Sort
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	fn     *ssa.Function
	fv     []Value
	native func(w *Worker, g *G, args []Value) Value
}

type Tuple []Value

type mapEnt struct {
	k, v Value
	dead bool
	sym  bool
}

type MapV struct {
	kt, vt types.Type
	idx    map[any]int
	ents   []mapEnt
	live   int
	nsym   int
}

type Poison struct{ msg string }

// ---- type information ----

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KUnsafe
	KComplex
	KInvalid
)

type TInfo struct {
	t      types.Type
	k      Kind
	sort   Sort
	signed bool
	elem   *TInfo   // array elem
	fields []*TInfo // struct
	n      int
	id     int
	agg    bool
	canon  types.Type
	str    string
	rt     *Value // identity of its reflect.Type
}

var (
	tiMu    sync.RWMutex
	tiMap   = map[types.Type]*TInfo{}
	tiCanon typeutil.Map
	tiNext  int
)

func tinfo(t types.Type) *TInfo {
	tiMu.RLock()
	r := tiMap[t]
	tiMu.RUnlock()
	if r != nil {
		return r
	}
	tiMu.Lock()
	defer tiMu.Unlock()
	return tinfoLocked(t)
}

func tinfoLocked(t types.Type) *TInfo {
	if r := tiMap[t]; r != nil {
		return r
	}
	if r, ok := tiCanon.At(t).(*TInfo); ok {
		tiMap[t] = r
		return r
	}
	r := &TInfo{t: t, id: tiNext, canon: t}
	tiNext++
	tiMap[t] = r
	tiCanon.Set(t, r)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.k = KBool
		case types.Int, types.Int64, types.UntypedInt:
			r.k, r.sort, r.signed = KInt, 64, true
		case types.Int8:
			r.k, r.sort, r.signed = KInt, 8, true
		case types.Int16:
			r.k, r.sort, r.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			r.k, r.sort, r.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			r.k, r.sort = KInt, 64
		case types.Uint8:
			r.k, r.sort = KInt, 8
		case types.Uint16:
			r.k, r.sort = KInt, 16
		case types.Uint32:
			r.k, r.sort = KInt, 32
		case types.Float64, types.UntypedFloat:
			r.k, r.sort = KFloat, SFP64
		case types.Float32:
			r.k, r.sort = KFloat, SFP32
		case types.String, types.UntypedString:
			r.k = KString
		case types.UnsafePointer:
			r.k = KUnsafe
		case types.Complex64, types.Complex128, types.UntypedComplex:
			r.k = KComplex
		case types.UntypedNil:
			r.k = KPtr
		default:
			r.k = KInvalid
		}
	case *types.Pointer:
		r.k = KPtr
	case *types.Slice:
		r.k = KSlice
	case *types.Map:
		r.k = KMap
	case *types.Chan:
		r.k = KChan
	case *types.Signature:
		r.k = KFunc
	case *types.Interface:
		r.k = KIface
	case *types.Struct:
		r.k, r.agg = KStruct, true
		r.n = u.NumFields()
		for i := 0; i < r.n; i++ {
			r.fields = append(r.fields, tinfoLocked(u.Field(i).Type()))
		}
	case *types.Array:
		r.k, r.agg = KArray, true
		r.n = int(u.Len())
		r.elem = tinfoLocked(u.Elem())
	case *types.Tuple:
		r.k = KTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, tinfoLocked(u.At(i).Type()))
		}
	default:
		r.k = KInvalid
	}
	return r
}

func (ti *TInfo) scalar() bool { return ti.k <= KFloat }

func (ti *TInfo) zero() Value {
	switch ti.k {
	case KStruct:
		f := make([]Value, ti.n)
		for i, fi := range ti.fields {
			if fi.agg {
				f[i] = fi.zero()
			}
		}
		return Value{P: &Agg{f}}
	case KArray:
		f := make([]Value, ti.n)
		if ti.elem.agg {
			for i := range f {
				f[i] = ti.elem.zero()
			}
		}
		return Value{P: &Agg{f}}
	case KTuple:
		f := make(Tuple, len(ti.fields))
		for i, fi := range ti.fields {
			f[i] = fi.zero()
		}
		return Value{P: f}
	}
	return Value{}
}

func identical(a, b types.Type) bool {
	return a == b || tinfo(a) == tinfo(b)
}

// copyVal makes an independent copy of struct and array values.
func copyVal(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		return Value{P: copyAgg(a)}
	}
	return v
}

func copyAgg(a *Agg) *Agg {
	f := make([]Value, len(a.F))
	copy(f, a.F)
	for i := range f {
		if x, ok := f[i].P.(*Agg); ok {
			f[i].P = copyAgg(x)
		}
	}
	return &Agg{f}
}

// ---- strings ----

func mkString(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(unsupported(fmt.Sprintf("string value %T", v.P)))
}

func strAt(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{U: uint64(s[i])}
	case *SymStr:
		return s.B[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].U = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.B
	}
	panic(unsupported(fmt.Sprintf("string value %T", v.P)))
}

func strConc(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

// bytesToStr makes a string of the bytes (which are not aliased if concrete).
func bytesToStr(b []Value) Value {
	for i := range b {
		if b[i].P != nil {
			c := make([]Value, len(b))
			copy(c, b)
			return Value{P: &SymStr{c}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].U)
	}
	return Value{P: string(bs)}
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return mkString(s[lo:hi])
	case *SymStr:
		return bytesToStr(s.B[lo:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	sa, ok1 := strConc(a)
	sb, ok2 := strConc(b)
	if ok1 && ok2 {
		return mkString(sa + sb)
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return Value{P: &SymStr{r}}
}

// ---- terms and equality ----

func (w *Worker) term(v Value, s Sort) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	if v.P != nil {
		panic(unsupported(fmt.Sprintf("scalar expected, have %T", v.P)))
	}
	return w.ar.Const(v.U, s)
}

func (w *Worker) boolTerm(v Value) *Term { return w.term(v, SBool) }

func fromTerm(t *Term) Value {
	if t.op == OConst {
		return Value{U: t.val}
	}
	return Value{P: t}
}

func mkBool(b bool) Value {
	if b {
		return Value{U: 1}
	}
	return Value{}
}

func mkInt(i int) Value { return Value{U: uint64(i)} }

func (w *Worker) strEq(a, b Value) *Term {
	sa, ok1 := strConc(a)
	sb, ok2 := strConc(b)
	if ok1 && ok2 {
		return w.ar.Bool(sa == sb)
	}
	if strLen(a) != strLen(b) {
		return w.ar.fals
	}
	x, y := strBytes(a), strBytes(b)
	return w.bytesEq(x, y)
}

func (w *Worker) bytesEq(x, y []Value) *Term {
	for i := range x {
		if x[i].P == nil && y[i].P == nil && x[i].U != y[i].U {
			return w.ar.fals
		}
	}
	r := w.ar.true_
	for i := range x {
		r = w.ar.And(r, w.ar.Eq(w.term(x[i], 8), w.term(y[i], 8)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLess: lexicographic byte order.
func (w *Worker) strLess(a, b Value) *Term {
	sa, ok1 := strConc(a)
	sb, ok2 := strConc(b)
	if ok1 && ok2 {
		return w.ar.Bool(sa < sb)
	}
	x, y := strBytes(a), strBytes(b)
	n := min(len(x), len(y))
	r := w.ar.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(x[i], 8), w.term(y[i], 8)
		r = w.ar.Or(w.ar.ULt(p, q), w.ar.And(w.ar.Eq(p, q), r))
	}
	return r
}

// eqTerm is Go's == on values of type t.
func (w *Worker) eqTerm(ti *TInfo, a, b Value) *Term {
	ar := w.ar
	switch ti.k {
	case KBool:
		return ar.Eq(w.boolTerm(a), w.boolTerm(b))
	case KInt:
		return ar.Eq(w.term(a, ti.sort), w.term(b, ti.sort))
	case KFloat:
		return ar.FCmp(OFEq, w.term(a, ti.sort), w.term(b, ti.sort))
	case KString:
		return w.strEq(a, b)
	case KIface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return ar.Bool(x == nil && y == nil)
		}
		tx, ty := tinfo(x.T), tinfo(y.T)
		if tx != ty {
			return ar.fals
		}
		if !types.Comparable(x.T) {
			w.rtPanic("comparing uncomparable type " + typeString(x.T))
		}
		return w.eqTerm(tx, x.V, y.V)
	case KStruct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := ar.true_
		st := ti.t.Underlying().(*types.Struct)
		for i, f := range ti.fields {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = ar.And(r, w.eqTerm(f, x.F[i], y.F[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case KArray:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := ar.true_
		for i := range x.F {
			r = ar.And(r, w.eqTerm(ti.elem, x.F[i], y.F[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case KPtr, KUnsafe, KMap, KChan, KFunc, KSlice:
		return ar.Bool(refEq(a, b))
	}
	panic(unsupported("== on " + ti.t.String()))
}

func refEq(a, b Value) bool {
	if a.P == nil || b.P == nil {
		return a.P == nil && b.P == nil && a.U == b.U
	}
	if s, ok := a.P.(*SliceV); ok { // only comparable with nil
		t, ok2 := b.P.(*SliceV)
		return ok2 && s == t
	}
	return a.P == b.P
}

// hashKey turns a concrete value into a comparable Go key; ok is false if it is symbolic.
func hashKey(ti *TInfo, v Value) (any, bool) {
	switch ti.k {
	case KBool, KInt, KFloat:
		if v.P != nil {
			return nil, false
		}
		return v.U, true
	case KString:
		s, ok := strConc(v)
		return s, ok
	case KPtr, KUnsafe, KChan:
		return v.P, true
	case KIface:
		x, _ := v.P.(*Iface)
		if x == nil {
			return nil, true
		}
		t := tinfo(x.T)
		k, ok := hashKey(t, x.V)
		return ifaceKey{t, k}, ok
	case KStruct, KArray:
		a := v.P.(*Agg)
		var sb strings.Builder
		for i := range a.F {
			e := ti.elem
			if ti.k == KStruct {
				e = ti.fields[i]
			}
			k, ok := hashKey(e, a.F[i])
			if !ok {
				return nil, false
			}
			switch x := k.(type) {
			case string:
				fmt.Fprintf(&sb, "%d:%s,", len(x), x)
			case uint64:
				fmt.Fprintf(&sb, "%d,", x)
			case nil:
				sb.WriteString("nil,")
			case ifaceKey:
				fmt.Fprintf(&sb, "i%d/%v,", x.t.id, x.k)
			default:
				fmt.Fprintf(&sb, "%p,", k)
			}
		}
		return "\x00agg" + sb.String(), true
	}
	return nil, false
}

type ifaceKey struct {
	t *TInfo
	k any
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
