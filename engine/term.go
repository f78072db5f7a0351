package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Sort of a term: 0 is Bool, 1..64 a bit-vector of that width, SFP64 and SFP32 floating point.
type Sort uint8

const (
	SBool Sort = 0
	SFP64 Sort = 200
	SFP32 Sort = 201
)

func (s Sort) isFP() bool { return s >= 200 }
func (s Sort) isBV() bool { return s > 0 && s < 200 }
func (s Sort) smt() string {
	switch s {
	case SBool:
		return "Bool"
	case SFP64:
		return "(_ FloatingPoint 11 53)"
	case SFP32:
		return "(_ FloatingPoint 8 24)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OExtract // val = hi<<8 | lo
	OConcat
	OZExt
	OSExt
	OFromBits // BV -> FP
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFFromS
	OFFromU
	OFToS // val unused; sort gives width
	OFToU
	OFToF
	OFBits // FP -> BV (not printable unless simplified)
	ODec   // decimal digit: arg unsigned value t (64 bit), val = power index k : byte '0'+(t/10^k)%10
	OFlt   // formatted float byte: arg f, val = fmt<<32|uint8(prec+1)<<16|i
	OUF    // uninterpreted byte function name(args) with index val
)

type Term struct {
	op   Op
	sort Sort
	n    uint8
	a    [3]*Term
	val  uint64
	name string
	id   int32

	evGen uint32
	evVal uint64

	rngDone  bool
	lo, hi   uint64
	kDone    bool
	km, kv   uint64
	sDone    bool
	slo, shi int64
	alias    *Term // the constant this term always equals
	maxVar   int32 // largest variable creation index below
}

type termKey struct {
	op         Op
	sort       Sort
	a0, a1, a2 *Term
	val        uint64
	name       string
}

// UFEval gives the meaning of OUF functions for concrete arguments.
type Arena struct {
	tab   map[termKey]*Term
	terms []*Term
	vars  []*Term
	gen   uint32
	true_ *Term
	fals  *Term
	small [65][]*Term
	mags  map[*Term]float64
	hards map[*Term]bool
	absd  map[*Term]absTerm
	lims  map[*Term]float64 // declared magnitudes of the variables behind floats
}

func NewArena() *Arena {
	ar := &Arena{tab: make(map[termKey]*Term, 1<<12)}
	ar.true_ = ar.mk(OConst, SBool, 1, "")
	ar.fals = ar.mk(OConst, SBool, 0, "")
	return ar
}

func (ar *Arena) mk(op Op, sort Sort, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: sort, val: val, name: name}
	switch len(args) {
	case 3:
		k.a2 = args[2]
		fallthrough
	case 2:
		k.a1 = args[1]
		fallthrough
	case 1:
		k.a0 = args[0]
	}
	if t, ok := ar.tab[k]; ok {
		if t.alias != nil {
			return t.alias
		}
		return t
	}
	t := &Term{op: op, sort: sort, n: uint8(len(args)), val: val, name: name, id: int32(len(ar.terms))}
	copy(t.a[:], args)
	ar.terms = append(ar.terms, t)
	ar.tab[k] = t
	if sort.isBV() && len(args) > 0 {
		if m, v := ar.known(t); m == mask(sort) {
			t.alias = ar.BV(v, sort)
			return t.alias
		}
	}
	return t
}

// known gives the bits of t whose value is known, and that value.
func (ar *Arena) known(t *Term) (uint64, uint64) {
	if t.kDone {
		return t.km, t.kv
	}
	full := mask(t.sort)
	var m, v uint64
	arg := func(i int) (uint64, uint64) {
		if t.a[i].sort.isBV() {
			return ar.known(t.a[i])
		}
		return 0, 0
	}
	switch t.op {
	case OConst:
		m, v = full, t.val
	case OZExt:
		am, av := arg(0)
		m, v = am|(full&^mask(t.a[0].sort)), av
	case OBAnd:
		am, av := arg(0)
		bm, bv := arg(1)
		m = (am & bm) | (am &^ av) | (bm &^ bv)
		v = av & bv
	case OBOr:
		am, av := arg(0)
		bm, bv := arg(1)
		m = (am & bm) | (am & av) | (bm & bv)
		v = av | bv
	case OBXor:
		am, av := arg(0)
		bm, bv := arg(1)
		m, v = am&bm, av^bv
	case OBNot:
		am, av := arg(0)
		m, v = am, ^av
	case OShl:
		if c := t.a[1]; c.op == OConst && c.val < uint64(t.sort) {
			am, av := arg(0)
			m, v = am<<c.val|(1<<c.val-1), av<<c.val
		}
	case OLShr:
		if c := t.a[1]; c.op == OConst && c.val < uint64(t.sort) {
			am, av := arg(0)
			m, v = am>>c.val|(full&^(full>>c.val)), av>>c.val
		}
	case OExtract:
		am, av := arg(0)
		lo := t.val & 255
		m, v = am>>lo, av>>lo
	case OConcat:
		am, av := arg(0)
		bm, bv := arg(1)
		w := t.a[1].sort
		m, v = am<<w|bm, av<<w|bv
	case OIte:
		am, av := arg(1)
		bm, bv := arg(2)
		m, v = am&bm&^(av^bv), av
	case OAdd, OSub, OMul:
		am, av := arg(0)
		bm, bv := arg(1)
		// the low bits up to the first unknown one
		n := min(bits.TrailingZeros64(^am), bits.TrailingZeros64(^bm))
		if n > 0 {
			m = ^uint64(0)
			if n < 64 {
				m = 1<<n - 1
			}
			switch t.op {
			case OAdd:
				v = av + bv
			case OSub:
				v = av - bv
			default:
				v = av * bv
			}
		}
	}
	// leading bits shared by the bounds
	lo, hi := ar.rng(t)
	if d := lo ^ hi; d == 0 {
		m, v = full, lo
	} else if n := bits.Len64(d); n < 64 {
		hm := ^(uint64(1)<<n - 1)
		v = v&m&^hm | lo&hm
		m |= hm
	}
	m &= full
	v &= m
	t.km, t.kv, t.kDone = m, v, true
	return m, v
}

// srng gives signed bounds of a bit-vector term.
func (ar *Arena) srng(t *Term) (int64, int64) {
	smin, smax := int64(math.MinInt64)>>(64-t.sort), int64(math.MaxInt64)>>(64-t.sort)
	if t.op == OConst {
		v := sext(t.val, t.sort)
		return v, v
	}
	if lo, hi := ar.rng(t); hi <= uint64(smax) {
		return int64(lo), int64(hi)
	} else if lo > uint64(smax) {
		return sext(lo, t.sort), sext(hi, t.sort)
	}
	if t.sDone {
		return t.slo, t.shi
	}
	lo, hi := smin, smax
	small := func(x int64) bool { return x > -(1<<61) && x < 1<<61 }
	set := func(l, h int64) {
		if small(l) && small(h) && l >= smin && h <= smax {
			lo, hi = l, h
		}
	}
	switch t.op {
	case ONeg:
		l, h := ar.srng(t.a[0])
		if small(l) && small(h) {
			set(-h, -l)
		}
	case OAdd, OSub:
		l0, h0 := ar.srng(t.a[0])
		l1, h1 := ar.srng(t.a[1])
		if small(l0) && small(h0) && small(l1) && small(h1) {
			if t.op == OAdd {
				set(l0+l1, h0+h1)
			} else {
				set(l0-h1, h0-l1)
			}
		}
	case OMul:
		if c := t.a[1]; c.op == OConst {
			k := sext(c.val, c.sort)
			l, h := ar.srng(t.a[0])
			if k > 0 && small(l) && small(h) && l > -(1<<61)/k && h < (1<<61)/k {
				set(l*k, h*k)
			}
		}
	case OSExt:
		lo, hi = ar.srng(t.a[0])
	case OIte:
		l0, h0 := ar.srng(t.a[1])
		l1, h1 := ar.srng(t.a[2])
		lo, hi = min(l0, l1), max(h0, h1)
	case OSDiv:
		if c := t.a[1]; c.op == OConst && sext(c.val, c.sort) > 0 {
			l, h := ar.srng(t.a[0])
			k := sext(c.val, c.sort)
			lo, hi = l/k, h/k
		}
	case OSRem:
		if c := t.a[1]; c.op == OConst && sext(c.val, c.sort) > 0 {
			l, h := ar.srng(t.a[0])
			k := sext(c.val, c.sort)
			lo, hi = max(l, -(k-1)), min(h, k-1)
			if l >= 0 {
				lo = 0
			}
			if h <= 0 {
				hi = 0
			}
			lo, hi = min(lo, 0), max(hi, 0)
		}
	}
	t.slo, t.shi, t.sDone = lo, hi, true
	return lo, hi
}

// linear adds k*t to the linear form acc, c. It gives false if the form gets too large.
func linear(t *Term, k uint64, acc *[]linTerm, c *uint64, depth int) bool {
	switch {
	case t.op == OConst:
		*c += k * t.val
		return true
	case depth > 8:
	case t.op == OAdd:
		return linear(t.a[0], k, acc, c, depth+1) && linear(t.a[1], k, acc, c, depth+1)
	case t.op == OSub:
		return linear(t.a[0], k, acc, c, depth+1) && linear(t.a[1], -k, acc, c, depth+1)
	case t.op == ONeg:
		return linear(t.a[0], -k, acc, c, depth+1)
	case t.op == OMul && t.a[1].op == OConst:
		return linear(t.a[0], k*t.a[1].val, acc, c, depth+1)
	}
	for i := range *acc {
		if (*acc)[i].t == t {
			(*acc)[i].k += k
			return true
		}
	}
	if len(*acc) >= 12 {
		return false
	}
	*acc = append(*acc, linTerm{t, k})
	return true
}

type linTerm struct {
	t *Term
	k uint64
}

// cancel rewrites a+k*b if some summands cancel out.
func (ar *Arena) cancel(a, b *Term, k uint64) *Term {
	lin := func(t *Term) bool { return t.op == OAdd || t.op == OSub || t.op == ONeg || t.op == OMul }
	if !lin(a) && !lin(b) {
		return nil
	}
	var buf [12]linTerm
	acc := buf[:0]
	c := uint64(0)
	if !linear(a, 1, &acc, &c, 0) || !linear(b, k, &acc, &c, 0) {
		return nil
	}
	m := mask(a.sort)
	found := false
	for _, l := range acc {
		if l.k&m == 0 {
			found = true
		}
	}
	if !found {
		return nil
	}
	r := ar.BV(c, a.sort)
	for _, l := range acc {
		switch l.k & m {
		case 0:
		case m:
			r = ar.Sub(r, l.t)
		default:
			r = ar.Add(r, ar.Mul(l.t, ar.BV(l.k, a.sort)))
		}
	}
	return r
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.val == 0 }

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (ar *Arena) Bool(b bool) *Term {
	if b {
		return ar.true_
	}
	return ar.fals
}

func (ar *Arena) BV(v uint64, w Sort) *Term {
	v &= mask(w)
	if v < 256 {
		s := ar.small[w]
		if s == nil {
			s = make([]*Term, 256)
			ar.small[w] = s
		}
		if s[v] == nil {
			s[v] = ar.mk(OConst, w, v, "")
		}
		return s[v]
	}
	return ar.mk(OConst, w, v, "")
}

func (ar *Arena) Const(v uint64, s Sort) *Term {
	if s == SBool {
		return ar.Bool(v != 0)
	}
	if s.isBV() {
		return ar.BV(v, s)
	}
	return ar.mk(OConst, s, v, "")
}

// Var gives the variable; hi, if not 0, is an upper bound that the path condition states.
func (ar *Arena) Var(name string, s Sort, hi uint64) *Term {
	n := len(ar.terms)
	t := ar.mk(OVar, s, hi, name)
	if len(ar.terms) > n {
		ar.vars = append(ar.vars, t)
	}
	return t
}

func f64(v uint64) float64 { return math.Float64frombits(v) }
func f32(v uint64) float32 { return math.Float32frombits(uint32(v)) }

func fbits(s Sort, f float64) uint64 {
	if s == SFP32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func fval(s Sort, v uint64) float64 {
	if s == SFP32 {
		return float64(f32(v))
	}
	return f64(v)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var pow10 = func() (r [20]uint64) {
	r[0] = 1
	for i := 1; i < 20; i++ {
		r[i] = r[i-1] * 10
	}
	return
}()

// ufConc evaluates OUF functions; registered by models.
var ufConc = map[string]func(args []uint64, idx int) uint64{}

// evalOp computes an operation on concrete argument bit patterns.
func evalOp(t *Term, x []uint64) uint64 {
	w := t.sort
	var aw Sort
	if t.n > 0 {
		aw = t.a[0].sort
	}
	switch t.op {
	case ONot:
		return x[0] ^ 1
	case OAnd:
		return x[0] & x[1]
	case OOr:
		return x[0] | x[1]
	case OIte:
		if x[0] != 0 {
			return x[1]
		}
		return x[2]
	case OEq:
		if aw.isFP() { // bitwise SMT equality on FP: NaN = NaN
			a, b := fval(aw, x[0]), fval(aw, x[1])
			if math.IsNaN(a) || math.IsNaN(b) {
				return b2u(math.IsNaN(a) && math.IsNaN(b))
			}
		}
		return b2u(x[0] == x[1])
	case OAdd:
		return (x[0] + x[1]) & mask(w)
	case OSub:
		return (x[0] - x[1]) & mask(w)
	case OMul:
		return (x[0] * x[1]) & mask(w)
	case OUDiv:
		if x[1] == 0 {
			return mask(w)
		}
		return x[0] / x[1]
	case OURem:
		if x[1] == 0 {
			return x[0]
		}
		return x[0] % x[1]
	case OSDiv:
		a, b := sext(x[0], w), sext(x[1], w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(w)
		}
		if b == -1 {
			return uint64(-a) & mask(w)
		}
		return uint64(a/b) & mask(w)
	case OSRem:
		a, b := sext(x[0], w), sext(x[1], w)
		if b == 0 {
			return x[0]
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mask(w)
	case OBAnd:
		return x[0] & x[1]
	case OBOr:
		return x[0] | x[1]
	case OBXor:
		return x[0] ^ x[1]
	case OBNot:
		return ^x[0] & mask(w)
	case ONeg:
		return -x[0] & mask(w)
	case OShl:
		if x[1] >= uint64(w) {
			return 0
		}
		return (x[0] << x[1]) & mask(w)
	case OLShr:
		if x[1] >= uint64(w) {
			return 0
		}
		return x[0] >> x[1]
	case OAShr:
		s := x[1]
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext(x[0], w)>>s) & mask(w)
	case OULt:
		return b2u(x[0] < x[1])
	case OULe:
		return b2u(x[0] <= x[1])
	case OSLt:
		return b2u(sext(x[0], aw) < sext(x[1], aw))
	case OSLe:
		return b2u(sext(x[0], aw) <= sext(x[1], aw))
	case OExtract:
		return (x[0] >> (t.val & 255)) & mask(w)
	case OConcat:
		return x[0]<<t.a[1].sort | x[1]
	case OZExt:
		return x[0]
	case OSExt:
		return uint64(sext(x[0], aw)) & mask(w)
	case OFromBits, OFBits:
		return x[0]
	case OFAdd, OFSub, OFMul, OFDiv:
		if w == SFP32 {
			a, b := f32(x[0]), f32(x[1])
			var r float32
			switch t.op {
			case OFAdd:
				r = a + b
			case OFSub:
				r = a - b
			case OFMul:
				r = a * b
			case OFDiv:
				r = a / b
			}
			return uint64(math.Float32bits(r))
		}
		a, b := f64(x[0]), f64(x[1])
		var r float64
		switch t.op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return math.Float64bits(r)
	case OFNeg:
		if w == SFP32 {
			return x[0] ^ (1 << 31)
		}
		return x[0] ^ (1 << 63)
	case OFAbs:
		if w == SFP32 {
			return x[0] &^ (1 << 31)
		}
		return x[0] &^ (1 << 63)
	case OFSqrt:
		return fbits(w, math.Sqrt(fval(w, x[0])))
	case OFEq:
		return b2u(fval(aw, x[0]) == fval(aw, x[1]))
	case OFLt:
		return b2u(fval(aw, x[0]) < fval(aw, x[1]))
	case OFLe:
		return b2u(fval(aw, x[0]) <= fval(aw, x[1]))
	case OFIsNaN:
		return b2u(math.IsNaN(fval(aw, x[0])))
	case OFFromS:
		if w == SFP32 {
			return uint64(math.Float32bits(float32(sext(x[0], aw))))
		}
		return math.Float64bits(float64(sext(x[0], aw)))
	case OFFromU:
		if w == SFP32 {
			return uint64(math.Float32bits(float32(x[0])))
		}
		return math.Float64bits(float64(x[0]))
	case OFToS:
		f := math.Trunc(fval(aw, x[0]))
		lo, hi := -math.Ldexp(1, int(w)-1), math.Ldexp(1, int(w)-1)
		if f >= lo && f < hi {
			return uint64(int64(f)) & mask(w)
		}
		return (uint64(1) << (w - 1)) & mask(w)
	case OFToU:
		f := math.Trunc(fval(aw, x[0]))
		if f >= 0 && f < math.Ldexp(1, int(w)) {
			return uint64(f) & mask(w)
		}
		return (uint64(1) << (w - 1)) & mask(w)
	case OFToF:
		return fbits(w, fval(aw, x[0]))
	case ODec:
		return '0' + (x[0]/pow10[t.val])%10
	case OFlt:
		return fltByte(x[0], t.val)
	case OUF:
		if f := ufConc[t.name]; f != nil {
			return f(x, int(t.val)) & mask(w)
		}
		h := uint64(1469598103934665603)
		for _, v := range x {
			h = (h ^ v) * 1099511628211
		}
		h = (h ^ t.val) * 1099511628211
		for i := 0; i < len(t.name); i++ {
			h = (h ^ uint64(t.name[i])) * 1099511628211
		}
		return (h >> 17) & mask(w)
	}
	panic("evalOp " + strconv.Itoa(int(t.op)))
}

const fltLen = 5 // length of the token standing for a formatted symbolic float

func fltByte(bitsv uint64, spec uint64) uint64 {
	i := int(spec & 0xffff)
	s := fltText(bitsv, spec)
	// hash of the text, spread over the token's bytes
	h := uint64(1469598103934665603)
	for j := 0; j < len(s); j++ {
		h = (h ^ uint64(s[j])) * 1099511628211
	}
	return '0' + (h>>(8*uint(i)))%10
}

// Eval evaluates t under model m (variable name -> bits; missing = 0).
type Model map[string]uint64

func (ar *Arena) newGen() { ar.gen++ }

func (ar *Arena) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == ar.gen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m[t.name]
	case OIte:
		if ar.eval(t.a[0], m) != 0 {
			r = ar.eval(t.a[1], m)
		} else {
			r = ar.eval(t.a[2], m)
		}
	case OAnd:
		r = ar.eval(t.a[0], m)
		if r != 0 {
			r = ar.eval(t.a[1], m)
		}
	case OOr:
		r = ar.eval(t.a[0], m)
		if r == 0 {
			r = ar.eval(t.a[1], m)
		}
	default:
		var x [3]uint64
		for i := 0; i < int(t.n); i++ {
			x[i] = ar.eval(t.a[i], m)
		}
		r = evalOp(t, x[:t.n])
	}
	t.evGen = ar.gen
	t.evVal = r
	return r
}

func (ar *Arena) foldable(args ...*Term) bool {
	for _, a := range args {
		if a.op != OConst {
			return false
		}
	}
	return true
}

func (ar *Arena) fold(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	t := Term{op: op, sort: s, n: uint8(len(args)), val: val, name: name}
	copy(t.a[:], args)
	var x [3]uint64
	for i, a := range args {
		x[i] = a.val
	}
	return ar.Const(evalOp(&t, x[:len(args)]), s)
}

// ---- constructors with simplification ----

func (ar *Arena) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return ar.Bool(a.val == 0)
	case ONot:
		return a.a[0]
	case OULt:
		return ar.ULe(a.a[1], a.a[0])
	case OULe:
		return ar.ULt(a.a[1], a.a[0])
	case OSLt:
		return ar.SLe(a.a[1], a.a[0])
	case OSLe:
		return ar.SLt(a.a[1], a.a[0])
	}
	return ar.mk(ONot, SBool, 0, "", a)
}

func (ar *Arena) isNeg(a, b *Term) bool {
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return true
	}
	switch a.op {
	case OULt:
		return b.op == OULe && b.a[0] == a.a[1] && b.a[1] == a.a[0]
	case OULe:
		return b.op == OULt && b.a[0] == a.a[1] && b.a[1] == a.a[0]
	case OSLt:
		return b.op == OSLe && b.a[0] == a.a[1] && b.a[1] == a.a[0]
	case OSLe:
		return b.op == OSLt && b.a[0] == a.a[1] && b.a[1] == a.a[0]
	}
	return false
}

func (ar *Arena) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return ar.fals
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if ar.isNeg(a, b) {
		return ar.fals
	}
	if a.op == OAnd && (a.a[0] == b || a.a[1] == b) {
		return a
	}
	if b.op == OAnd && (b.a[0] == a || b.a[1] == a) {
		return b
	}
	if b.op == OOr && (b.a[0] == a || b.a[1] == a) {
		return a
	}
	if a.op == OOr && (a.a[0] == b || a.a[1] == b) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ar.mk(OAnd, SBool, 0, "", a, b)
}

func (ar *Arena) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return ar.true_
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if ar.isNeg(a, b) {
		return ar.true_
	}
	if a.op == OOr && (a.a[0] == b || a.a[1] == b) {
		return a
	}
	if b.op == OOr && (b.a[0] == a || b.a[1] == a) {
		return b
	}
	if a.op == OAnd && (a.a[0] == b || a.a[1] == b) {
		return b
	}
	if b.op == OAnd && (b.a[0] == a || b.a[1] == a) {
		return a
	}
	// (x & y) | (!x & y) and x | (!x & y)
	if b.op == OAnd {
		for i := 0; i < 2; i++ {
			if ar.isNeg(a, b.a[i]) {
				return ar.Or(a, b.a[1-i])
			}
		}
	}
	if a.op == OAnd {
		for i := 0; i < 2; i++ {
			if ar.isNeg(b, a.a[i]) {
				return ar.Or(b, a.a[1-i])
			}
		}
	}
	if a.op == OAnd && b.op == OAnd {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if ar.isNeg(a.a[i], b.a[j]) && a.a[1-i] == b.a[1-j] {
					return a.a[1-i]
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ar.mk(OOr, SBool, 0, "", a, b)
}

func (ar *Arena) AndN(ts ...*Term) *Term {
	r := ar.true_
	for _, t := range ts {
		r = ar.And(r, t)
	}
	return r
}

func (ar *Arena) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == ONot {
		return ar.Ite(c.a[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return ar.Or(c, b)
		}
		if a.isFalse() {
			return ar.And(ar.Not(c), b)
		}
		if b.isTrue() {
			return ar.Or(ar.Not(c), a)
		}
		if b.isFalse() {
			return ar.And(c, a)
		}
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.a[1] == a {
		return ar.Ite(ar.Or(c, b.a[0]), a, b.a[2])
	}
	if a.op == OIte && a.a[2] == b {
		return ar.Ite(ar.And(c, a.a[0]), a.a[1], b)
	}
	return ar.mk(OIte, a.sort, 0, "", c, a, b)
}

func (ar *Arena) Eq(a, b *Term) *Term {
	if a == b {
		return ar.true_
	}
	if a.op == OConst && b.op == OConst {
		return ar.fold(OEq, SBool, 0, "", a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && a.sort == SBool {
		if b.val == 1 {
			return a
		}
		return ar.Not(a)
	}
	if a.sort == SBool && ar.isNeg(a, b) {
		return ar.fals
	}
	if b.op == OConst && a.sort.isBV() {
		lo, hi := ar.rng(a)
		if b.val < lo || b.val > hi {
			return ar.fals
		}
		if lo == hi {
			return ar.true_
		}
		switch a.op {
		case OIte:
			if a.a[1].op == OConst || a.a[2].op == OConst {
				e1, e2 := ar.Eq(a.a[1], b), ar.Eq(a.a[2], b)
				return ar.Ite(a.a[0], e1, e2)
			}
		case OZExt:
			return ar.Eq(a.a[0], ar.BV(b.val, a.a[0].sort))
		case OSExt:
			n := ar.BV(b.val, a.a[0].sort)
			if uint64(sext(n.val, n.sort))&mask(a.sort) != b.val {
				return ar.fals
			}
			return ar.Eq(a.a[0], n)
		case OAdd:
			if a.a[1].op == OConst {
				return ar.Eq(a.a[0], ar.BV(b.val-a.a[1].val, a.sort))
			}
		case OBXor:
			if a.a[1].op == OConst {
				return ar.Eq(a.a[0], ar.BV(b.val^a.a[1].val, a.sort))
			}
		case ONeg:
			return ar.Eq(a.a[0], ar.BV(-b.val, a.sort))
		case OConcat:
			w := a.a[1].sort
			return ar.And(ar.Eq(a.a[0], ar.BV(b.val>>w, a.a[0].sort)), ar.Eq(a.a[1], ar.BV(b.val, w)))
		}
	}
	if a.sort.isBV() && b.op != OConst {
		if a.op == OZExt && b.op == OZExt && a.a[0].sort == b.a[0].sort {
			return ar.Eq(a.a[0], b.a[0])
		}
		if a.op == OSExt && b.op == OSExt && a.a[0].sort == b.a[0].sort {
			return ar.Eq(a.a[0], b.a[0])
		}
		if a.op == OAdd && b.op == OAdd {
			if a.a[1] == b.a[1] {
				return ar.Eq(a.a[0], b.a[0])
			}
			if a.a[0] == b.a[0] {
				return ar.Eq(a.a[1], b.a[1])
			}
		}
		alo, ahi := ar.rng(a)
		blo, bhi := ar.rng(b)
		if ahi < blo || bhi < alo {
			return ar.fals
		}
	}
	if a.op == OFromBits && b.op == OFromBits && a.a[0] == b.a[0] {
		return ar.true_
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return ar.mk(OEq, SBool, 0, "", a, b)
}

// rng gives unsigned bounds of a bit-vector term.
func (ar *Arena) rng(t *Term) (uint64, uint64) {
	if t.rngDone {
		return t.lo, t.hi
	}
	lo, hi := uint64(0), mask(t.sort)
	m := hi
	switch t.op {
	case OConst:
		lo, hi = t.val, t.val
	case OVar:
		if t.val != 0 {
			hi = t.val
		}
	case OZExt:
		lo, hi = ar.rng(t.a[0])
	case OSExt:
		l, h := ar.rng(t.a[0])
		if h < 1<<(t.a[0].sort-1) {
			lo, hi = l, h
		}
	case OIte:
		l1, h1 := ar.rng(t.a[1])
		l2, h2 := ar.rng(t.a[2])
		lo, hi = min(l1, l2), max(h1, h2)
	case OAdd:
		l1, h1 := ar.rng(t.a[0])
		l2, h2 := ar.rng(t.a[1])
		s, c := bits.Add64(h1, h2, 0)
		sl, cl := bits.Add64(l1, l2, 0)
		if c == 0 && s <= m {
			lo, hi = sl, s
		} else if m == ^uint64(0) && c == 1 && cl == 1 {
			lo, hi = sl, s
		} else if m != ^uint64(0) && c == 0 && sl > m && s-(m+1) <= m {
			lo, hi = sl-(m+1), s-(m+1)
		}
	case OSub:
		l1, h1 := ar.rng(t.a[0])
		l2, h2 := ar.rng(t.a[1])
		if l1 >= h2 {
			lo, hi = l1-h2, h1-l2
		}
	case OMul:
		l1, h1 := ar.rng(t.a[0])
		l2, h2 := ar.rng(t.a[1])
		o, p := bits.Mul64(h1, h2)
		if o == 0 && p <= m {
			lo, hi = l1*l2, p
		}
	case OUDiv:
		l1, h1 := ar.rng(t.a[0])
		l2, h2 := ar.rng(t.a[1])
		if l2 > 0 {
			lo, hi = l1/h2, h1/l2
		}
	case OURem:
		_, h1 := ar.rng(t.a[0])
		l2, h2 := ar.rng(t.a[1])
		if l2 > 0 {
			hi = min(h1, h2-1)
		}
	case OSDiv, OSRem:
		// non-negative operands are turned into unsigned operations by the constructors
		if t.op == OSRem && t.a[1].op == OConst {
		}
	case OBAnd:
		_, h1 := ar.rng(t.a[0])
		_, h2 := ar.rng(t.a[1])
		hi = min(h1, h2)
	case OBOr, OBXor:
		l1, h1 := ar.rng(t.a[0])
		l2, h2 := ar.rng(t.a[1])
		n := bits.Len64(h1 | h2)
		if n < 64 {
			hi = (uint64(1) << n) - 1
		}
		if t.op == OBOr {
			lo = max(l1, l2)
		}
	case OShl:
		if t.a[1].op == OConst && t.a[1].val < uint64(t.sort) {
			l, h := ar.rng(t.a[0])
			s := t.a[1].val
			if h <= m>>s {
				lo, hi = l<<s, h<<s
			}
		}
	case OLShr:
		l, h := ar.rng(t.a[0])
		if t.a[1].op == OConst && t.a[1].val < uint64(t.sort) {
			lo, hi = l>>t.a[1].val, h>>t.a[1].val
		} else {
			hi = h
		}
	case OExtract:
		l, h := ar.rng(t.a[0])
		if t.val&255 == 0 && h <= m {
			lo, hi = l, h
		}
	case OConcat:
		l, h := ar.rng(t.a[0])
		l2, h2 := ar.rng(t.a[1])
		w := t.a[1].sort
		lo, hi = l<<w|l2, h<<w|h2
		if h<<w|mask(w) > hi {
			hi = h<<w | mask(w)
			lo = l << w
		}
	case ODec:
		lo, hi = '0', '9'
	case OFlt:
		lo, hi = '0', '9'
	}
	t.lo, t.hi, t.rngDone = lo, hi, true
	return lo, hi
}

func (ar *Arena) nonneg(t *Term) bool {
	_, h := ar.rng(t)
	return h < uint64(1)<<(t.sort-1)
}

func commut(a, b *Term) (*Term, *Term) {
	if a.op == OConst || (b.op != OConst && a.id > b.id) {
		return b, a
	}
	return a, b
}

func (ar *Arena) Add(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(OAdd, a.sort, 0, "", a, b)
	}
	a, b = commut(a, b)
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.a[1].op == OConst {
			return ar.Add(a.a[0], ar.BV(a.a[1].val+b.val, a.sort))
		}
		if a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
			return ar.Ite(a.a[0], ar.Add(a.a[1], b), ar.Add(a.a[2], b))
		}
	} else {
		if a.op == OAdd && a.a[1].op == OConst {
			return ar.Add(ar.Add(a.a[0], b), a.a[1])
		}
		if b.op == OAdd && b.a[1].op == OConst {
			return ar.Add(ar.Add(a, b.a[0]), b.a[1])
		}
		if b.op == ONeg && b.a[0] == a || a.op == ONeg && a.a[0] == b {
			return ar.BV(0, a.sort)
		}
		if a.op == OSub && a.a[1] == b {
			return a.a[0]
		}
		if b.op == OSub && b.a[1] == a {
			return b.a[0]
		}
		if r := ar.cancel(a, b, 1); r != nil {
			return r
		}
	}
	return ar.mk(OAdd, a.sort, 0, "", a, b)
}

func (ar *Arena) Sub(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(OSub, a.sort, 0, "", a, b)
	}
	if a == b {
		return ar.BV(0, a.sort)
	}
	if b.op == OConst {
		return ar.Add(a, ar.BV(-b.val, a.sort))
	}
	if a.op == OConst && a.val == 0 {
		return ar.Neg(b)
	}
	if a.op == OAdd {
		if a.a[0] == b {
			return a.a[1]
		}
		if a.a[1] == b {
			return a.a[0]
		}
		if a.a[1].op == OConst {
			return ar.Add(ar.Sub(a.a[0], b), a.a[1])
		}
	}
	if b.op == OAdd {
		if b.a[0] == a {
			return ar.Neg(b.a[1])
		}
		if b.a[1] == a {
			return ar.Neg(b.a[0])
		}
		if b.a[1].op == OConst {
			return ar.Add(ar.Sub(a, b.a[0]), ar.BV(-b.a[1].val, a.sort))
		}
	}
	if b.op == OSub && b.a[0] == a {
		return b.a[1]
	}
	if r := ar.cancel(a, b, ^uint64(0)); r != nil {
		return r
	}
	return ar.mk(OSub, a.sort, 0, "", a, b)
}

func (ar *Arena) Neg(a *Term) *Term {
	if a.op == OConst {
		return ar.BV(-a.val, a.sort)
	}
	if a.op == ONeg {
		return a.a[0]
	}
	if a.op == OSub {
		return ar.Sub(a.a[1], a.a[0])
	}
	if a.op == OAdd && a.a[1].op == OConst {
		return ar.Sub(ar.BV(-a.a[1].val, a.sort), a.a[0])
	}
	return ar.mk(ONeg, a.sort, 0, "", a)
}

func (ar *Arena) Mul(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(OMul, a.sort, 0, "", a, b)
	}
	a, b = commut(a, b)
	if b.op == OConst {
		switch {
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case b.val == mask(a.sort):
			return ar.Neg(a)
		}
		if a.op == OMul && a.a[1].op == OConst {
			return ar.Mul(a.a[0], ar.BV(a.a[1].val*b.val, a.sort))
		}
		if a.op == OAdd && a.a[1].op == OConst {
			return ar.Add(ar.Mul(a.a[0], b), ar.BV(a.a[1].val*b.val, a.sort))
		}
	}
	return ar.mk(OMul, a.sort, 0, "", a, b)
}

func (ar *Arena) UDiv(a, b *Term) *Term {
	if ar.foldable(a, b) && b.val != 0 {
		return ar.fold(OUDiv, a.sort, 0, "", a, b)
	}
	if b.op == OConst && b.val != 0 {
		if b.val == 1 {
			return a
		}
		if _, h := ar.rng(a); h < b.val {
			return ar.BV(0, a.sort)
		}
		if b.val&(b.val-1) == 0 {
			return ar.LShr(a, ar.BV(uint64(bits.TrailingZeros64(b.val)), a.sort))
		}
		if a.op == OUDiv && a.a[1].op == OConst {
			o, p := bits.Mul64(a.a[1].val, b.val)
			if o == 0 && p <= mask(a.sort) {
				return ar.UDiv(a.a[0], ar.BV(p, a.sort))
			}
			return ar.BV(0, a.sort)
		}
		if r := ar.divMulAdd(a, b.val, true); r != nil {
			return r
		}
		if a.op == OZExt && b.val <= mask(a.a[0].sort) {
			return ar.ZExt(ar.UDiv(a.a[0], ar.BV(b.val, a.a[0].sort)), a.sort)
		}
	}
	return ar.mk(OUDiv, a.sort, 0, "", a, b)
}

// divMulAdd handles (x*k + r) / d and % d where d divides k, no overflow and 0<=r: only if ranges show it.
func (ar *Arena) divMulAdd(a *Term, d uint64, div bool) *Term {
	mulOf := func(t *Term) (*Term, uint64, bool) {
		if t.op == OMul && t.a[1].op == OConst && t.a[1].val%d == 0 {
			_, h := ar.rng(t.a[0])
			o, p := bits.Mul64(h, t.a[1].val)
			if o == 0 && p <= mask(t.sort) {
				return t.a[0], t.a[1].val / d, true
			}
		}
		if t.op == OConst && t.val%d == 0 {
			return nil, t.val / d, true
		}
		return nil, 0, false
	}
	if x, k, ok := mulOf(a); ok && x != nil {
		if div {
			return ar.Mul(x, ar.BV(k, a.sort))
		}
		return ar.BV(0, a.sort)
	}
	if a.op == OAdd {
		_, h0 := ar.rng(a.a[0])
		_, h1 := ar.rng(a.a[1])
		s, c := bits.Add64(h0, h1, 0)
		if c == 0 && s <= mask(a.sort) {
			for i := 0; i < 2; i++ {
				if x, k, ok := mulOf(a.a[i]); ok {
					rest := a.a[1-i]
					if !div {
						return ar.URem(rest, ar.BV(d, a.sort))
					}
					q := ar.UDiv(rest, ar.BV(d, a.sort))
					if x == nil {
						return ar.Add(q, ar.BV(k, a.sort))
					}
					return ar.Add(ar.Mul(x, ar.BV(k, a.sort)), q)
				}
			}
			if a.a[1].op == OConst && a.a[1].val > d {
				c := a.a[1].val
				rest := ar.Add(a.a[0], ar.BV(c%d, a.sort))
				if div {
					return ar.Add(ar.UDiv(rest, ar.BV(d, a.sort)), ar.BV(c/d, a.sort))
				}
				return ar.URem(rest, ar.BV(d, a.sort))
			}
		}
	}
	return nil
}

func (ar *Arena) URem(a, b *Term) *Term {
	if ar.foldable(a, b) && b.val != 0 {
		return ar.fold(OURem, a.sort, 0, "", a, b)
	}
	if b.op == OConst && b.val != 0 {
		if _, h := ar.rng(a); h < b.val {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return ar.BAnd(a, ar.BV(b.val-1, a.sort))
		}
		if r := ar.divMulAdd(a, b.val, false); r != nil {
			return r
		}
		if a.op == OZExt && b.val <= mask(a.a[0].sort) {
			return ar.ZExt(ar.URem(a.a[0], ar.BV(b.val, a.a[0].sort)), a.sort)
		}
	}
	return ar.mk(OURem, a.sort, 0, "", a, b)
}

func (ar *Arena) SDiv(a, b *Term) *Term {
	if ar.foldable(a, b) && b.val != 0 {
		return ar.fold(OSDiv, a.sort, 0, "", a, b)
	}
	if ar.nonneg(a) && ar.nonneg(b) {
		return ar.UDiv(a, b)
	}
	if b.op == OConst && sext(b.val, b.sort) > 0 && a.op == OSDiv && a.a[1].op == OConst && sext(a.a[1].val, a.sort) > 0 {
		o, p := bits.Mul64(a.a[1].val, b.val)
		if o == 0 && p <= mask(a.sort)>>1 {
			return ar.SDiv(a.a[0], ar.BV(p, a.sort))
		}
	}
	if b.op == OConst && b.val == 1 {
		return a
	}
	if l, h := ar.srng(a); h <= 0 && l < 0 && l > math.MinInt64>>(64-a.sort) && ar.nonneg(b) {
		return ar.Neg(ar.SDiv(ar.Neg(a), b))
	}
	return ar.mk(OSDiv, a.sort, 0, "", a, b)
}

func (ar *Arena) SRem(a, b *Term) *Term {
	if ar.foldable(a, b) && b.val != 0 {
		return ar.fold(OSRem, a.sort, 0, "", a, b)
	}
	if ar.nonneg(a) && ar.nonneg(b) {
		return ar.URem(a, b)
	}
	if l, h := ar.srng(a); h <= 0 && l < 0 && l > math.MinInt64>>(64-a.sort) && ar.nonneg(b) {
		return ar.Neg(ar.SRem(ar.Neg(a), b))
	}
	return ar.mk(OSRem, a.sort, 0, "", a, b)
}

func (ar *Arena) BAnd(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(OBAnd, a.sort, 0, "", a, b)
	}
	a, b = commut(a, b)
	if a == b {
		return a
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.sort) {
			return a
		}
		if b.val&(b.val+1) == 0 {
			if _, h := ar.rng(a); h <= b.val {
				return a
			}
		}
		if a.op == OBAnd && a.a[1].op == OConst {
			return ar.BAnd(a.a[0], ar.BV(a.a[1].val&b.val, a.sort))
		}
		if a.op == OBOr {
			return ar.BOr(ar.BAnd(a.a[0], b), ar.BAnd(a.a[1], b))
		}
		if a.op == OIte && (a.a[1].op == OConst || a.a[2].op == OConst) {
			return ar.Ite(a.a[0], ar.BAnd(a.a[1], b), ar.BAnd(a.a[2], b))
		}
		if a.op == OShl && a.a[1].op == OConst {
			// mask below the shift
			if a.a[1].val < 64 && b.val < uint64(1)<<a.a[1].val {
				return ar.BV(0, a.sort)
			}
			if a.a[1].val < 64 && b.val>>a.a[1].val == mask(a.sort)>>a.a[1].val {
				return a
			}
			if _, h := ar.rng(a); h <= b.val|((uint64(1)<<(a.a[1].val&63))-1) && (b.val>>a.a[1].val)&((b.val>>a.a[1].val)+1) == 0 {
				return a
			}
		}
		if _, h := ar.rng(a); h != 0 {
			n := bits.Len64(h)
			hm := mask(64)
			if n < 64 {
				hm = uint64(1)<<n - 1
			}
			if b.val&hm == 0 {
				return ar.BV(0, a.sort)
			}
		}
		if a.op == OZExt {
			w := a.a[0].sort
			return ar.ZExt(ar.BAnd(a.a[0], ar.BV(b.val, w)), a.sort)
		}
	}
	return ar.mk(OBAnd, a.sort, 0, "", a, b)
}

func (ar *Arena) BOr(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(OBOr, a.sort, 0, "", a, b)
	}
	a, b = commut(a, b)
	if a == b {
		return a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.sort) {
			return b
		}
		if a.op == OBOr && a.a[1].op == OConst {
			return ar.BOr(a.a[0], ar.BV(a.a[1].val|b.val, a.sort))
		}
	} else {
		if a.op == OBOr && a.a[1].op == OConst {
			return ar.BOr(ar.BOr(a.a[0], b), a.a[1])
		}
		if b.op == OBOr && b.a[1].op == OConst {
			return ar.BOr(ar.BOr(a, b.a[0]), b.a[1])
		}
	}
	return ar.mk(OBOr, a.sort, 0, "", a, b)
}

func (ar *Arena) BXor(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(OBXor, a.sort, 0, "", a, b)
	}
	if a == b {
		return ar.BV(0, a.sort)
	}
	a, b = commut(a, b)
	if b.op == OConst && b.val == 0 {
		return a
	}
	if b.op == OConst && b.val == mask(a.sort) {
		return ar.BNot(a)
	}
	return ar.mk(OBXor, a.sort, 0, "", a, b)
}

func (ar *Arena) BNot(a *Term) *Term {
	if a.op == OConst {
		return ar.BV(^a.val, a.sort)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return ar.mk(OBNot, a.sort, 0, "", a)
}

func (ar *Arena) Shl(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(OShl, a.sort, 0, "", a, b)
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.sort) {
			return ar.BV(0, a.sort)
		}
		if a.op == OShl && a.a[1].op == OConst {
			return ar.Shl(a.a[0], ar.BV(min(64, a.a[1].val+b.val), a.sort))
		}
	}
	return ar.mk(OShl, a.sort, 0, "", a, b)
}

func (ar *Arena) LShr(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(OLShr, a.sort, 0, "", a, b)
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.sort) {
			return ar.BV(0, a.sort)
		}
		if _, h := ar.rng(a); h>>b.val == 0 {
			return ar.BV(0, a.sort)
		}
		switch a.op {
		case OLShr:
			if a.a[1].op == OConst {
				return ar.LShr(a.a[0], ar.BV(min(64, a.a[1].val+b.val), a.sort))
			}
		case OShl:
			if a.a[1].op == OConst {
				x, k := a.a[0], a.a[1].val
				if _, h := ar.rng(x); k < 64 && h <= mask(a.sort)>>k {
					if k >= b.val {
						return ar.Shl(x, ar.BV(k-b.val, a.sort))
					}
					return ar.LShr(x, ar.BV(b.val-k, a.sort))
				}
			}
		case OBOr:
			return ar.BOr(ar.LShr(a.a[0], b), ar.LShr(a.a[1], b))
		case OZExt:
			if b.val < uint64(a.a[0].sort) {
				return ar.ZExt(ar.LShr(a.a[0], ar.BV(b.val, a.a[0].sort)), a.sort)
			}
		}
	}
	return ar.mk(OLShr, a.sort, 0, "", a, b)
}

func (ar *Arena) AShr(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(OAShr, a.sort, 0, "", a, b)
	}
	if b.op == OConst && b.val == 0 {
		return a
	}
	if ar.nonneg(a) {
		return ar.LShr(a, b)
	}
	return ar.mk(OAShr, a.sort, 0, "", a, b)
}

func (ar *Arena) ULt(a, b *Term) *Term {
	if a == b {
		return ar.fals
	}
	alo, ahi := ar.rng(a)
	blo, bhi := ar.rng(b)
	if ahi < blo {
		return ar.true_
	}
	if alo >= bhi {
		return ar.fals
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].sort == b.a[0].sort {
		return ar.ULt(a.a[0], b.a[0])
	}
	if a.op == OZExt && b.op == OConst {
		return ar.ULt(a.a[0], ar.BV(b.val, a.a[0].sort))
	}
	if b.op == OZExt && a.op == OConst {
		return ar.ULt(ar.BV(a.val, b.a[0].sort), b.a[0])
	}
	if b.op == OConst && b.val == 1 {
		return ar.Eq(a, ar.BV(0, a.sort))
	}
	if x, y, ok := ar.shiftCmp(a, b); ok {
		return ar.ULt(x, y)
	}
	if a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
		return ar.Ite(a.a[0], ar.ULt(a.a[1], b), ar.ULt(a.a[2], b))
	}
	if b.op == OIte && b.a[1].op == OConst && b.a[2].op == OConst {
		return ar.Ite(b.a[0], ar.ULt(a, b.a[1]), ar.ULt(a, b.a[2]))
	}
	return ar.mk(OULt, SBool, 0, "", a, b)
}

func (ar *Arena) ULe(a, b *Term) *Term {
	if a == b {
		return ar.true_
	}
	alo, ahi := ar.rng(a)
	blo, bhi := ar.rng(b)
	if ahi <= blo {
		return ar.true_
	}
	if alo > bhi {
		return ar.fals
	}
	if a.op == OConst && a.val > 0 {
		return ar.ULt(ar.BV(a.val-1, a.sort), b)
	}
	if b.op == OConst && b.val < mask(b.sort) {
		return ar.ULt(a, ar.BV(b.val+1, b.sort))
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].sort == b.a[0].sort {
		return ar.ULe(a.a[0], b.a[0])
	}
	if x, y, ok := ar.shiftCmp(a, b); ok {
		return ar.ULe(x, y)
	}
	return ar.mk(OULe, SBool, 0, "", a, b)
}

// shiftCmp removes a constant that both sides of an unsigned comparison share.
func (ar *Arena) shiftCmp(a, b *Term) (*Term, *Term, bool) {
	split := func(t *Term) (*Term, uint64) {
		if t.op == OAdd && t.a[1].op == OConst {
			_, h := ar.rng(t.a[0])
			if s, c := bits.Add64(h, t.a[1].val, 0); c == 0 && s <= mask(t.sort) {
				return t.a[0], t.a[1].val
			}
		}
		return t, 0
	}
	x, c := split(a)
	y, d := split(b)
	switch {
	case c == 0 && d == 0:
		return nil, nil, false
	case c > 0 && d > 0:
		if c < d {
			return x, ar.Add(y, ar.BV(d-c, a.sort)), true
		}
		return ar.Add(x, ar.BV(c-d, a.sort)), y, true
	case c > 0 && b.op == OConst && b.val >= c:
		return x, ar.BV(b.val-c, a.sort), true
	case d > 0 && a.op == OConst && a.val >= d:
		return ar.BV(a.val-d, a.sort), y, true
	}
	return nil, nil, false
}

func (ar *Arena) SLt(a, b *Term) *Term {
	if a == b {
		return ar.fals
	}
	if ar.foldable(a, b) {
		return ar.fold(OSLt, SBool, 0, "", a, b)
	}
	alo, ahi := ar.srng(a)
	blo, bhi := ar.srng(b)
	if ahi < blo {
		return ar.true_
	}
	if alo >= bhi {
		return ar.fals
	}
	na, nb := ar.nonneg(a), ar.nonneg(b)
	if na && nb {
		return ar.ULt(a, b)
	}
	if na && b.op == OConst && sext(b.val, b.sort) < 0 {
		return ar.fals
	}
	if nb && a.op == OConst && sext(a.val, a.sort) < 0 {
		return ar.true_
	}
	if a.op == OSExt && b.op == OConst {
		n := ar.BV(b.val, a.a[0].sort)
		if sext(n.val, n.sort) == sext(b.val, b.sort) {
			return ar.SLt(a.a[0], n)
		}
	}
	if a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
		return ar.Ite(a.a[0], ar.SLt(a.a[1], b), ar.SLt(a.a[2], b))
	}
	if b.op == OIte && b.a[1].op == OConst && b.a[2].op == OConst {
		return ar.Ite(b.a[0], ar.SLt(a, b.a[1]), ar.SLt(a, b.a[2]))
	}
	return ar.mk(OSLt, SBool, 0, "", a, b)
}

func (ar *Arena) SLe(a, b *Term) *Term {
	if a == b {
		return ar.true_
	}
	if ar.foldable(a, b) {
		return ar.fold(OSLe, SBool, 0, "", a, b)
	}
	alo, ahi := ar.srng(a)
	blo, bhi := ar.srng(b)
	if ahi <= blo {
		return ar.true_
	}
	if alo > bhi {
		return ar.fals
	}
	if ar.nonneg(a) && ar.nonneg(b) {
		return ar.ULe(a, b)
	}
	if a.op == OConst && sext(a.val, a.sort) > math.MinInt64>>(64-a.sort) {
		return ar.SLt(ar.BV(a.val-1, a.sort), b)
	}
	if b.op == OConst && b.val != mask(b.sort)>>1 {
		return ar.SLt(a, ar.BV(b.val+1, b.sort))
	}
	return ar.mk(OSLe, SBool, 0, "", a, b)
}

func (ar *Arena) Extract(a *Term, hi, lo int) *Term {
	w := Sort(hi - lo + 1)
	if w == a.sort {
		return a
	}
	if a.op == OConst {
		return ar.BV(a.val>>uint(lo), w)
	}
	switch a.op {
	case OZExt, OSExt:
		iw := int(a.a[0].sort)
		if hi < iw {
			return ar.Extract(a.a[0], hi, lo)
		}
		if lo == 0 {
			if a.op == OZExt {
				return ar.ZExt(a.a[0], w)
			}
			return ar.SExt(a.a[0], w)
		}
		if a.op == OZExt && lo >= iw {
			return ar.BV(0, w)
		}
	case OExtract:
		l0 := int(a.val & 255)
		return ar.Extract(a.a[0], hi+l0, lo+l0)
	case OConcat:
		lw := int(a.a[1].sort)
		if hi < lw {
			return ar.Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return ar.Extract(a.a[0], hi-lw, lo-lw)
		}
	case OIte:
		if a.a[1].op == OConst || a.a[2].op == OConst {
			return ar.Ite(a.a[0], ar.Extract(a.a[1], hi, lo), ar.Extract(a.a[2], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			x, y := ar.Extract(a.a[0], hi, 0), ar.Extract(a.a[1], hi, 0)
			switch a.op {
			case OAdd:
				return ar.Add(x, y)
			case OSub:
				return ar.Sub(x, y)
			default:
				return ar.Mul(x, y)
			}
		}
	case ONeg:
		if lo == 0 {
			return ar.Neg(ar.Extract(a.a[0], hi, 0))
		}
	case OBAnd:
		return ar.BAnd(ar.Extract(a.a[0], hi, lo), ar.Extract(a.a[1], hi, lo))
	case OBOr:
		return ar.BOr(ar.Extract(a.a[0], hi, lo), ar.Extract(a.a[1], hi, lo))
	}
	return ar.mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}

func (ar *Arena) ZExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == OConst {
		return ar.BV(a.val, w)
	}
	if a.op == OZExt {
		return ar.ZExt(a.a[0], w)
	}
	if a.op == OIte && (a.a[1].op == OConst && a.a[2].op == OConst) {
		return ar.Ite(a.a[0], ar.ZExt(a.a[1], w), ar.ZExt(a.a[2], w))
	}
	// zext(extract(x,hi,0)) where x fits
	if a.op == OExtract && a.val&255 == 0 && a.a[0].sort == w {
		if _, h := ar.rng(a.a[0]); h <= mask(a.sort) {
			return a.a[0]
		}
	}
	return ar.mk(OZExt, w, 0, "", a)
}

func (ar *Arena) SExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == OConst {
		return ar.BV(uint64(sext(a.val, a.sort)), w)
	}
	if ar.nonneg(a) {
		return ar.ZExt(a, w)
	}
	if a.op == OSExt {
		return ar.SExt(a.a[0], w)
	}
	return ar.mk(OSExt, w, 0, "", a)
}

func (ar *Arena) Concat(a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.BV(a.val<<b.sort|b.val, a.sort+b.sort)
	}
	return ar.mk(OConcat, a.sort+b.sort, 0, "", a, b)
}

// ---- floating point ----

func (ar *Arena) FP(op Op, a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(op, a.sort, 0, "", a, b)
	}
	if (op == OFAdd || op == OFMul) && a.id > b.id {
		a, b = b, a
	}
	if op == OFAdd {
		// x + 0 is x unless x is the negative zero
		for i, t := range [2]*Term{a, b} {
			o := [2]*Term{b, a}[i]
			if t.op == OConst && t.val == 0 && neverNegZero(o) {
				return o
			}
		}
	}
	if op == OFMul || op == OFDiv {
		if b.op == OConst && fval(b.sort, b.val) == 1 {
			return a
		}
		if op == OFMul && a.op == OConst && fval(a.sort, a.val) == 1 {
			return b
		}
	}
	return ar.mk(op, a.sort, 0, "", a, b)
}

func (ar *Arena) FCmp(op Op, a, b *Term) *Term {
	if ar.foldable(a, b) {
		return ar.fold(op, SBool, 0, "", a, b)
	}
	if a == b {
		switch op {
		case OFEq, OFLe:
			return ar.Not(ar.FIsNaN(a))
		case OFLt:
			return ar.fals
		}
	}
	if x, y := ar.anyZero(a, 0), ar.anyZero(b, 0); x != a || y != b {
		return ar.FCmp(op, x, y) // comparisons ignore the sign of zero
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return ar.mk(op, SBool, 0, "", a, b)
}

// anyZero drops additions of zero from a. The result differs from a at most in the sign of a zero.
func (ar *Arena) anyZero(a *Term, depth int) *Term {
	if depth > 30 {
		return a
	}
	switch a.op {
	case OFAdd, OFSub, OFMul:
		x, y := ar.anyZero(a.a[0], depth+1), ar.anyZero(a.a[1], depth+1)
		isZero := func(t *Term) bool { return t.op == OConst && fval(t.sort, t.val) == 0 }
		switch {
		case a.op == OFAdd && isZero(x):
			return y
		case a.op != OFMul && isZero(y):
			return x
		case x != a.a[0] || y != a.a[1]:
			return ar.FP(a.op, x, y)
		}
	case OFNeg, OFAbs:
		if x := ar.anyZero(a.a[0], depth+1); x != a.a[0] {
			return ar.F1(a.op, a.sort, x)
		}
	case OFDiv:
		// the sign of a zero divisor matters
		if x := ar.anyZero(a.a[0], depth+1); x != a.a[0] {
			return ar.FP(a.op, x, a.a[1])
		}
	}
	return a
}

// FMinMax is math.Max or math.Min.
func (ar *Arena) FMinMax(x, y *Term, max bool) *Term {
	if ar.foldable(x, y) {
		f := math.Min
		if max {
			f = math.Max
		}
		return ar.Const(fbits(x.sort, f(fval(x.sort, x.val), fval(y.sort, y.val))), x.sort)
	}
	lt := ar.FCmp(OFLt, y, x) // y < x
	zero := ar.Const(fbits(x.sort, 0), x.sort)
	eq := x
	pz := func(t *Term) bool { return t == zero }
	if max && (pz(x) || pz(y)) {
		// of equal zeros the positive one is the maximum
	} else if !neverNegZero(x) || !neverNegZero(y) {
		if max {
			eq = ar.Ite(ar.FCmp(OFEq, x, zero), ar.FP(OFAdd, x, y), x)
		} else {
			eq = ar.Ite(ar.FCmp(OFEq, x, zero), ar.F1(OFNeg, x.sort, ar.FP(OFAdd, ar.F1(OFNeg, x.sort, x), ar.F1(OFNeg, x.sort, y))), x)
		}
	}
	hi, lo := x, y
	if !max {
		hi, lo = y, x
	}
	var r *Term
	if eq == x { // x if not below y
		if max && pz(x) {
			r = ar.Ite(ar.FCmp(OFLt, x, y), y, x)
		} else if max {
			r = ar.Ite(lt, x, y)
		} else {
			r = ar.Ite(lt, y, x)
		}
	} else {
		r = ar.Ite(lt, hi, ar.Ite(ar.FCmp(OFLt, x, y), lo, eq))
	}
	if !ar.neverNaN(x) || !ar.neverNaN(y) {
		nan := ar.Const(fbits(x.sort, math.NaN()), x.sort)
		r = ar.Ite(ar.Or(ar.FIsNaN(x), ar.FIsNaN(y)), nan, r)
	}
	return r
}

func neverNegZero(t *Term) bool {
	switch t.op {
	case OConst:
		return !(fval(t.sort, t.val) == 0 && math.Signbit(fval(t.sort, t.val)))
	case OFFromS, OFFromU, OFAbs:
		return true
	case OFMul:
		return t.a[0] == t.a[1]
	case OFDiv:
		// a converted integer is zero or at least one
		c := t.a[1]
		return (t.a[0].op == OFFromS || t.a[0].op == OFFromU) && c.op == OConst && fval(c.sort, c.val) > 0 && fval(c.sort, c.val) < 1e30
	case OFAdd:
		return neverNegZero(t.a[0]) || neverNegZero(t.a[1])
	case OIte:
		return neverNegZero(t.a[1]) && neverNegZero(t.a[2])
	}
	return false
}

func (ar *Arena) neverNaN(a *Term) bool {
	if ar.finite(a) {
		return true
	}
	switch a.op {
	case OFFromS, OFFromU:
		return true
	case OConst:
		return !math.IsNaN(fval(a.sort, a.val))
	case OFNeg, OFAbs:
		return ar.neverNaN(a.a[0])
	case OFMul:
		return a.a[0] == a.a[1] && ar.neverNaN(a.a[0])
	case OFSqrt:
		return ar.nonnegF(a.a[0])
	case OFDiv:
		return ar.finite(a.a[0]) && a.a[1].op == OConst && ar.neverNaN(a.a[1]) && fval(a.sort, a.a[1].val) != 0
	case OIte:
		return ar.neverNaN(a.a[1]) && ar.neverNaN(a.a[2])
	}
	return false
}

// mag bounds the magnitude of a: the result is finite only if a can be neither NaN nor infinite.
func (ar *Arena) mag(a *Term) float64 {
	if !a.sort.isFP() {
		return math.Inf(1)
	}
	if m, ok := ar.mags[a]; ok {
		return m
	}
	m := math.Inf(1)
	up := func(x float64) float64 {
		if math.IsNaN(x) {
			return math.Inf(1)
		}
		x *= 1 + 1e-6
		if a.sort == SFP32 && x > 3e38 {
			return math.Inf(1)
		}
		return x
	}
	switch a.op {
	case OFFromS, OFFromU:
		m = up(math.Ldexp(1, int(a.a[0].sort)))
	case OConst:
		if f := math.Abs(fval(a.sort, a.val)); !math.IsNaN(f) {
			m = f
		}
	case OFromBits:
		if l, ok := ar.lims[a.a[0]]; ok && a.sort == SFP64 {
			m = l
		}
	case OFNeg, OFAbs:
		m = ar.mag(a.a[0])
	case OFAdd, OFSub:
		m = up(ar.mag(a.a[0]) + ar.mag(a.a[1]))
	case OFMul:
		x, y := ar.mag(a.a[0]), ar.mag(a.a[1])
		if !math.IsInf(x, 0) && !math.IsInf(y, 0) {
			m = up(x*y + 1e-300)
		}
	case OFDiv:
		if v := ar.magLo(a.a[1]); v > 0 && ar.finite(a.a[1]) {
			m = up(ar.mag(a.a[0])/v + 1e-300)
		}
	case OFToF:
		m = up(ar.mag(a.a[0]))
	case OFSqrt:
		if x := ar.mag(a.a[0]); ar.nonnegF(a.a[0]) && !math.IsInf(x, 0) {
			m = math.Sqrt(x)*(1+1e-6) + 1e-300
		}
	case OIte:
		m = math.Max(ar.mag(a.a[1]), ar.mag(a.a[2]))
	}
	if ar.mags == nil {
		ar.mags = map[*Term]float64{}
	}
	ar.mags[a] = m
	return m
}

// nonnegF tells that a is neither negative nor NaN (it may be a negative zero).
func (ar *Arena) nonnegF(a *Term) bool {
	switch a.op {
	case OConst:
		return fval(a.sort, a.val) >= 0
	case OFFromU:
		return true
	case OFAbs, OFSqrt:
		return ar.neverNaN(a)
	case OFMul:
		return (a.a[0] == a.a[1] || ar.nonnegF(a.a[0]) && ar.nonnegF(a.a[1])) && ar.neverNaN(a)
	case OFAdd, OFDiv:
		return ar.nonnegF(a.a[0]) && ar.nonnegF(a.a[1]) && ar.neverNaN(a)
	case OIte:
		c := a.a[0]
		pos := c.op == OFLt && c.a[0].op == OConst && fval(c.a[0].sort, c.a[0].val) >= 0 && c.a[1] == a.a[1]
		return (pos || ar.nonnegF(a.a[1])) && ar.nonnegF(a.a[2])
	}
	return false
}

// magLo is a lower bound of the magnitude of a.
func (ar *Arena) magLo(a *Term) float64 {
	switch a.op {
	case OConst:
		if f := math.Abs(fval(a.sort, a.val)); !math.IsNaN(f) {
			return f
		}
	case OFFromS:
		if lo, hi := ar.srng(a.a[0]); lo > 0 {
			return float64(lo) * (1 - 1e-6)
		} else if hi < 0 {
			return -float64(hi) * (1 - 1e-6)
		}
	case OFFromU:
		if lo, _ := ar.rng(a.a[0]); lo > 0 {
			return float64(lo) * (1 - 1e-6)
		}
	case OFMul:
		if ar.finite(a) {
			if x := ar.magLo(a.a[0]) * ar.magLo(a.a[1]) * (1 - 1e-6); x > 1e-280 {
				return x
			}
		}
	case OFNeg, OFAbs:
		return ar.magLo(a.a[0])
	case OIte:
		return math.Min(ar.magLo(a.a[1]), ar.magLo(a.a[2]))
	}
	return 0
}

func (ar *Arena) finite(a *Term) bool { return !math.IsInf(ar.mag(a), 0) }

func (ar *Arena) FIsNaN(a *Term) *Term {
	if ar.neverNaN(a) {
		return ar.fals
	}
	if a.op == OConst {
		return ar.true_
	}
	return ar.mk(OFIsNaN, SBool, 0, "", a)
}

func (ar *Arena) F1(op Op, s Sort, a *Term) *Term {
	if a.op == OConst {
		return ar.fold(op, s, 0, "", a)
	}
	switch op {
	case OFNeg:
		if a.op == OFNeg {
			return a.a[0]
		}
	case OFToF:
		if a.sort == s {
			return a
		}
	case OFFromS:
		if ar.nonneg(a) {
			return ar.F1(OFFromU, s, a)
		}
		if a.op == OSExt {
			return ar.F1(OFFromS, s, a.a[0])
		}
	case OFFromU:
		if a.op == OZExt {
			return ar.F1(OFFromU, s, a.a[0])
		}
	case OFromBits:
		if a.op == OFBits {
			return a.a[0]
		}
	case OFBits:
		if a.op == OFromBits {
			return a.a[0]
		}
	}
	return ar.mk(op, s, 0, "", a)
}

func (ar *Arena) Dec(t *Term, k int) *Term {
	if t.op == OConst {
		return ar.BV('0'+(t.val/pow10[k])%10, 8)
	}
	return ar.mk(ODec, 8, uint64(k), "", t)
}

func (ar *Arena) UF(name string, s Sort, idx uint64, args ...*Term) *Term {
	if ufConc[name] != nil && ar.foldable(args...) {
		return ar.fold(OUF, s, idx, name, args...)
	}
	return ar.mk(OUF, s, idx, name, args...)
}

// ---- printing ----

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN"}

func fpParams(s Sort) (int, int) {
	if s == SFP32 {
		return 8, 24
	}
	return 11, 53
}

func constSMT(v uint64, s Sort) string {
	switch {
	case s == SBool:
		if v == 1 {
			return "true"
		}
		return "false"
	case s == SFP64:
		if math.IsNaN(f64(v)) {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", v>>63, v>>52&0x7ff, v&(1<<52-1))
	case s == SFP32:
		if math.IsNaN(float64(f32(v))) {
			return "(_ NaN 8 24)"
		}
		return fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", v>>31&1, v>>23&0xff, v&(1<<23-1))
	}
	if s%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(s/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(s), v)
}

// refSMT is how a term is mentioned: constants inline, others by their defined name.
func (t *Term) refSMT() string {
	switch t.op {
	case OConst:
		return constSMT(t.val, t.sort)
	case OVar:
		if t.val != 0 {
			return "|" + t.name + "!" + strconv.FormatUint(t.val, 10) + "|"
		}
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// bodySMT gives the definition of a non-leaf term.
func (t *Term) bodySMT() string {
	var sb strings.Builder
	args := func() {
		for i := 0; i < int(t.n); i++ {
			sb.WriteByte(' ')
			sb.WriteString(t.a[i].refSMT())
		}
	}
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d)", t.val>>8, t.val&255)
	case OZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d)", t.sort-t.a[0].sort)
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d)", t.sort-t.a[0].sort)
	case OFromBits:
		e, m := fpParams(t.sort)
		fmt.Fprintf(&sb, "((_ to_fp %d %d)", e, m)
	case OFFromS:
		e, m := fpParams(t.sort)
		fmt.Fprintf(&sb, "((_ to_fp %d %d) RNE", e, m)
	case OFFromU:
		e, m := fpParams(t.sort)
		fmt.Fprintf(&sb, "((_ to_fp_unsigned %d %d) RNE", e, m)
	case OFToF:
		e, m := fpParams(t.sort)
		fmt.Fprintf(&sb, "((_ to_fp %d %d) RNE", e, m)
	case OFToS, OFToU:
		w := int(t.sort)
		a := t.a[0].refSMT()
		var lo, hi float64
		conv := "fp.to_sbv"
		if t.op == OFToS {
			lo, hi = -math.Ldexp(1, w-1), math.Ldexp(1, w-1)
		} else {
			lo, hi = 0, math.Ldexp(1, w)
			conv = "fp.to_ubv"
		}
		fs := t.a[0].sort
		tr := fmt.Sprintf("(fp.roundToIntegral RTZ %s)", a)
		return fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ %s %d) RTZ %s) %s)",
			constSMT(fbits(fs, lo), fs), tr, tr, constSMT(fbits(fs, hi), fs), conv, w, a, constSMT(uint64(1)<<(w-1), t.sort))
	case ODec:
		w := t.a[0].sort
		return fmt.Sprintf("(bvadd #x30 ((_ extract 7 0) (bvurem (bvudiv %s %s) %s)))", t.a[0].refSMT(), constSMT(pow10[t.val]&mask(w), w), constSMT(10, w))
	case OFlt:
		fmt.Fprintf(&sb, "(|%s|", t.ufName())
	case OUF:
		fmt.Fprintf(&sb, "(|%s|", t.ufName())
	default:
		sb.WriteByte('(')
		sb.WriteString(opName[t.op])
	}
	args()
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) ufName() string {
	if t.op == OFlt {
		return fmt.Sprintf("flt_%x", t.val)
	}
	n := fmt.Sprintf("uf_%s_%d", t.name, t.val)
	for i := 0; i < int(t.n); i++ {
		n += fmt.Sprintf("_%d", t.a[i].sort)
	}
	return n
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t.op == OConst {
		if t.sort == SBool {
			return fmt.Sprint(t.val == 1)
		}
		if t.sort.isFP() {
			return fmt.Sprint(fval(t.sort, t.val))
		}
		return fmt.Sprintf("%d:%d", t.val, t.sort)
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := opName[t.op]
	if s == "" {
		s = fmt.Sprintf("op%d[%d]%s", t.op, t.val, t.name)
	}
	s = "(" + s
	for i := 0; i < int(t.n); i++ {
		s += " " + t.a[i].str(d-1)
	}
	return s + ")"
}
