package main

import (
	"fmt"
	"go/types"
)

func (w *Worker) mapTI(m *MapV) *TInfo { return tinfo(m.kt) }

// find returns the entry index of key k, or -1; may fork on symbolic keys.
func (w *Worker) mapFind(m *MapV, kt *TInfo, k Value) int {
	if kt.k == KIface {
		if i, _ := k.P.(*Iface); i != nil && !types.Comparable(i.T) {
			w.rtPanic("hash of unhashable type " + typeString(i.T))
		}
	}
	hk, ok := hashKey(kt, k)
	if ok {
		if i, hit := m.idx[hk]; hit {
			// NaN keys never match; they are not indexed
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	var cand []int
	var guards []*Term
	none := w.ar.true_
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead || ok && !e.sym {
			continue
		}
		t := w.eqTerm(kt, e.k, k)
		if t.isFalse() {
			continue
		}
		if t.isTrue() {
			return i
		}
		if d, known := w.decided(t); known {
			if d {
				return i
			}
			continue
		}
		cand = append(cand, i)
		guards = append(guards, t)
		none = w.ar.And(none, w.ar.Not(t))
	}
	if len(cand) == 0 {
		return -1
	}
	guards = append(guards, none)
	c := w.choose(guards)
	if c == len(cand) {
		return -1
	}
	return cand[c]
}

func (w *Worker) mapLookup(g *G, mv Value, kt *TInfo, k Value) (Value, bool) {
	m, _ := mv.P.(*MapV)
	if m == nil {
		if mv.P != nil {
			panic(unsupported(fmt.Sprintf("map value %T", mv.P)))
		}
		return Value{}, false
	}
	if w.races {
		w.raceMap(g, m, false)
	}
	i := w.mapFind(m, kt, k)
	if i < 0 {
		return Value{}, false
	}
	return m.ents[i].v, true
}

func (w *Worker) mapUpdate(g *G, mv Value, kt *TInfo, k, v Value) {
	m, _ := mv.P.(*MapV)
	if m == nil {
		if mv.P != nil {
			panic(unsupported(fmt.Sprintf("map value %T", mv.P)))
		}
		w.rtPanicPlain("assignment to entry in nil map")
	}
	if w.races {
		w.raceMap(g, m, true)
	}
	w.mapSet(m, kt, k, v)
}

func (w *Worker) rtPanicPlain(msg string) { w.rtPanicRaw(msg) }

func (w *Worker) mapSet(m *MapV, kt *TInfo, k, v Value) {
	i := w.mapFind(m, kt, k)
	if i >= 0 {
		old := m.ents[i].v
		m.ents[i].v = v
		w.onUndo(func() { m.ents[i].v = old })
		return
	}
	hk, ok := hashKey(kt, k)
	n := len(m.ents)
	m.ents = append(m.ents, mapEnt{k: k, v: v, sym: !ok})
	m.live++
	if ok {
		m.idx[hk] = n
	} else {
		m.nsym++
	}
	w.onUndo(func() {
		m.ents = m.ents[:n]
		m.live--
		if ok {
			delete(m.idx, hk)
		} else {
			m.nsym--
		}
	})
}

func (w *Worker) mapDelete(g *G, m *MapV, k Value) {
	if w.races {
		w.raceMap(g, m, true)
	}
	kt := tinfo(m.kt)
	i := w.mapFind(m, kt, k)
	if i < 0 {
		return
	}
	w.mapDel(m, i)
}

func (w *Worker) mapDel(m *MapV, i int) {
	e := m.ents[i]
	kt := tinfo(m.kt)
	m.ents[i].dead = true
	m.live--
	hk, ok := hashKey(kt, e.k)
	if ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	w.onUndo(func() {
		m.ents[i].dead = false
		m.live++
		if ok {
			m.idx[hk] = i
		} else {
			m.nsym++
		}
	})
}

func (w *Worker) mapClear(g *G, m *MapV) {
	if w.races {
		w.raceMap(g, m, true)
	}
	for i := range m.ents {
		if !m.ents[i].dead {
			w.mapDel(m, i)
		}
	}
}

// ---- range ----

type mapIter struct {
	m    *MapV
	pos  int
	seen []bool
	n0   int
}
type strIter struct {
	s   Value
	pos int
}

func (w *Worker) rangeIter(g *G, ti *TInfo, x Value) Value {
	if ti.k == KString {
		return Value{P: &strIter{s: x}}
	}
	m, _ := x.P.(*MapV)
	if m != nil && w.races {
		w.raceMap(g, m, false)
	}
	it := &mapIter{m: m}
	if m != nil {
		it.n0 = len(m.ents)
	}
	return Value{P: it}
}

func (w *Worker) next(in *instr, x Value) Value {
	switch it := x.P.(type) {
	case *strIter:
		n := strLen(it.s)
		if it.pos >= n {
			return Value{P: Tuple{mkBool(false), Value{}, Value{}}}
		}
		r, k := w.decodeRune(it.s, it.pos)
		i := it.pos
		it.pos += k
		return Value{P: Tuple{mkBool(true), mkInt(i), r}}
	case *mapIter:
		if it.m == nil {
			return Value{P: Tuple{mkBool(false), in.ti.zero(), in.ti2.zero()}}
		}
		m := it.m
		if !w.mapOrder {
			for it.pos < len(m.ents) {
				e := &m.ents[it.pos]
				it.pos++
				if e.dead {
					continue
				}
				return Value{P: Tuple{mkBool(true), e.k, e.v}}
			}
			return Value{P: Tuple{mkBool(false), in.ti.zero(), in.ti2.zero()}}
		}
		// any order: choose among the remaining entries
		for len(it.seen) < len(m.ents) {
			it.seen = append(it.seen, false)
		}
		var rem []int
		for i := range m.ents {
			if !m.ents[i].dead && !it.seen[i] {
				rem = append(rem, i)
			}
		}
		if len(rem) == 0 {
			return Value{P: Tuple{mkBool(false), in.ti.zero(), in.ti2.zero()}}
		}
		k := 0
		if len(rem) > 1 {
			k = w.freeChoice(len(rem), "map order")
		}
		it.seen[rem[k]] = true
		e := &m.ents[rem[k]]
		return Value{P: Tuple{mkBool(true), e.k, e.v}}
	}
	panic(unsupported(fmt.Sprintf("next on %T", x.P)))
}
