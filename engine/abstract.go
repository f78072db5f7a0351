package main

import (
	"fmt"
	"math"
	"math/rand"
)

// Queries over floating-point arithmetic are expensive. Before the solver gets
// the exact query it gets one in which results of arithmetic are unknown values
// within their computed magnitude. If that has no solution the exact query has
// none; if the values it finds for the inputs satisfy the exact query, these are
// a solution.

func hardOp(o Op) bool {
	switch o {
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt:
		return true
	}
	return false
}

// hard reports whether t contains floating-point arithmetic.
func (ar *Arena) hard(t *Term) bool {
	if t.n == 0 {
		return false
	}
	if r, ok := ar.hards[t]; ok {
		return r
	}
	r := hardOp(t.op)
	for i := 0; i < int(t.n) && !r; i++ {
		r = ar.hard(t.a[i])
	}
	if ar.hards == nil {
		ar.hards = map[*Term]bool{}
	}
	ar.hards[t] = r
	return r
}

// abstract gives the weaker form of t; facts about the unknown values go to side.
func (ar *Arena) abstract(t *Term, side map[*Term]bool) *Term {
	if !ar.hard(t) {
		return t
	}
	if hardOp(t.op) {
		v := ar.Var(fmt.Sprintf("abs.%d", t.id), 64, 0)
		if t.sort != SFP64 {
			v = ar.Var(fmt.Sprintf("abs.%d", t.id), 32, 0)
		}
		f := ar.F1(OFromBits, t.sort, v)
		if m := ar.mag(t); !math.IsInf(m, 0) && t.sort == SFP64 {
			side[ar.ULe(ar.BAnd(v, ar.BV(1<<63-1, 64)), ar.BV(math.Float64bits(m), 64))] = true
		} else if ar.neverNaN(t) {
			side[ar.Not(ar.mk(OFIsNaN, SBool, 0, "", f))] = true
		}
		if t.op == OFMul && t.a[0] == t.a[1] && t.sort == SFP64 && ar.neverNaN(t) {
			side[ar.ULe(v, ar.BV(math.Float64bits(math.Inf(1)), 64))] = true // squares are not negative
		}
		if t.op == OFSqrt && t.sort == SFP64 {
			x := ar.abstract(t.a[0], side)
			zero := ar.Const(0, SFP64)
			lim := math.Inf(1)
			if m := ar.mag(t.a[0]); !math.IsInf(m, 0) {
				lim = math.Sqrt(m) * (1 + 1e-6)
			}
			ok := ar.ULe(v, ar.BV(math.Float64bits(lim), 64)) // from 0 to lim
			side[ar.Or(ar.Not(ar.mk(OFLe, SBool, 0, "", zero, x)), ok)] = true
		}
		return f
	}
	if r, ok := ar.absd[t]; ok {
		for _, s := range r.side {
			side[s] = true
		}
		return r.t
	}
	mine := map[*Term]bool{}
	x := t
	y := *x
	for i := 0; i < int(t.n); i++ {
		y.a[i] = ar.abstract(t.a[i], mine)
	}
	n := ar.mk(t.op, t.sort, t.val, t.name, y.a[:t.n]...)
	if ar.absd == nil {
		ar.absd = map[*Term]absTerm{}
	}
	a := absTerm{t: n}
	for s := range mine {
		a.side = append(a.side, s)
		side[s] = true
	}
	ar.absd[t] = a
	return n
}

type absTerm struct {
	t    *Term
	side []*Term
}

// holds evaluates all of pc and extra under m.
func (w *Worker) holds(m Model, extra *Term) bool {
	w.ar.newGen()
	defer w.ar.newGen()
	if extra != nil && w.ar.eval(extra, m) == 0 {
		return false
	}
	for _, t := range w.pc {
		if w.ar.eval(t, m) == 0 {
			return false
		}
	}
	return true
}

// approx tries to decide pc ∧ extra without exact arithmetic.
func (w *Worker) approx(extra *Term) (SatRes, Model) {
	ar := w.ar
	hard := extra != nil && ar.hard(extra)
	for _, t := range w.pc {
		hard = hard || ar.hard(t)
	}
	if !hard {
		return Unknown, nil
	}
	side := map[*Term]bool{}
	var pc []*Term
	for _, t := range w.pc {
		mine := map[*Term]bool{}
		t = ar.abstract(t, mine)
		for _, s := range sorted(mine) {
			if !side[s] {
				side[s] = true
				pc = append(pc, s)
			}
		}
		if t.isFalse() {
			return Unsat, nil
		}
		if !t.isTrue() {
			pc = append(pc, t)
		}
	}
	var ex *Term
	if extra != nil {
		mine := map[*Term]bool{}
		ex = ar.abstract(extra, mine)
		for _, s := range sorted(mine) {
			if !side[s] {
				ex = ar.And(ex, s)
			}
		}
		if ex.isFalse() {
			return Unsat, nil
		}
	}
	r, m := w.sol.Check(pc, ex, w.vars)
	if r != Sat {
		return r, nil
	}
	if w.holds(m, extra) {
		return Sat, m
	}
	// vary the values of the inputs
	rnd := rand.New(rand.NewSource(int64(len(w.pc))))
	for i := 0; i < 300; i++ {
		t := Model{}
		base := m
		if i%2 == 1 {
			base = w.model
		}
		for _, v := range w.vars {
			x := base[v.name]
			if rnd.Intn(3) != 0 {
				t[v.name] = x
				continue
			}
			if v.sort == 64 && rnd.Intn(3) == 0 {
				x = math.Float64bits(math.Ldexp(rnd.Float64(), rnd.Intn(300)-20))
			} else if v.sort == 64 && rnd.Intn(2) == 0 {
				x = math.Float64bits(float64(rnd.Intn(2001)-1000) / 8)
			} else if v.sort == 64 && rnd.Intn(2) == 0 {
				x = uint64(int64(rnd.Intn(2000001)-1000000) * 1000000)
			} else {
				x = rnd.Uint64() >> uint(rnd.Intn(64))
			}
			if v.sort == SBool {
				x &= 1
			} else {
				x &= mask(v.sort)
			}
			t[v.name] = x
		}
		if w.holds(t, extra) {
			return Sat, t
		}
	}
	return Unknown, nil
}

func sorted(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		i := len(r)
		for i > 0 && r[i-1].id > t.id {
			i--
		}
		r = append(r, nil)
		copy(r[i+1:], r[i:])
		r[i] = t
	}
	return r
}
