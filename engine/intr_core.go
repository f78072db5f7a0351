package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

const zzPath = "github.com/gocraft/health/zzverif/zz"

var intrinsics = map[string]Intrinsic{}

func reg(f Intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func nop(w *Worker, g *G, a []Value) Value { return Value{} }

// pkgIntrinsic covers whole classes of functions.
func pkgIntrinsic(fn *ssa.Function) Intrinsic {
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		p := fn.Pkg
		return func(w *Worker, g *G, a []Value) Value {
			// initialisers of imports run when first needed
			_ = p
			return Value{}
		}
	}
	switch fn.Pkg.Pkg.Path() {
	case "internal/race", "internal/msan", "internal/asan":
		res := fn.Signature.Results()
		if res.Len() == 0 {
			return nop
		}
	case "internal/godebug":
		switch fn.Name() {
		case "New", "Value", "String", "Name", "IncNonDefault", "Undocumented":
			if fn.Name() == "New" {
				return func(w *Worker, g *G, a []Value) Value { return Value{P: new(Value)} }
			}
			return nop
		}
	case "internal/testlog":
		return nop
	}
	return nil
}

func (w *Worker) errValue(g *G, msg string) Value {
	p := w.sh.prog.ImportedPackage("errors")
	return w.call(g, w.code(p.Func("New")), []Value{mkString(msg)}, nil)
}

func cellOf(v Value) *Value {
	c, _ := v.P.(*Value)
	return c
}

func (w *Worker) bytesValue(b []Value) Value {
	f := make([]Value, len(b))
	copy(f, b)
	return Value{P: &SliceV{A: &Agg{f}, len: len(f), cap: len(f)}}
}

func sliceVals(v Value) []Value {
	s, _ := v.P.(*SliceV)
	if s == nil {
		return nil
	}
	return s.A.F[s.off : s.off+s.len]
}

func (w *Worker) str(v Value) string {
	if s, ok := strConc(v); ok {
		return s
	}
	panic(unsupported("symbolic string where a concrete one is needed"))
}

// concStr makes a string concrete by forking.
func (w *Worker) concStr(v Value) string {
	if s, ok := strConc(v); ok {
		return s
	}
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		out[i] = byte(w.conc(b[i], 8))
	}
	return string(out)
}

type mutexState struct {
	locked  bool
	readers int
	vc      vclock
	rvc     vclock
	q       []*G
	wwait   int
}

func (w *Worker) mutex(c *Value) *mutexState {
	if c == nil {
		w.nilDeref()
	}
	m, _ := w.nat[c].(*mutexState)
	if m == nil {
		m = &mutexState{}
		w.nat[c] = m
	}
	return m
}

func (m *mutexState) wakeAll(w *Worker) {
	q := m.q
	m.q = nil
	for _, g := range q {
		w.ready(g)
	}
}

type wgState struct {
	n  int64
	q  []*G
	vc vclock
}

type poolState struct{ items []Value }

type condState struct{ q []*selWaitG }
type selWaitG struct {
	g    *G
	done bool
}

func (w *Worker) fatal(msg string) {
	panic(&pathEnd{"panic", "fatal error: " + msg})
}

func init() {
	// ---- harness support ----
	z := func(n string, f Intrinsic) { reg(f, zzPath+"."+n) }
	z("Bool", func(w *Worker, g *G, a []Value) Value { return fromTerm(w.input(a[0], 0, 0)) })
	z("Byte", func(w *Worker, g *G, a []Value) Value { return fromTerm(w.input(a[0], 8, 0)) })
	z("Int64", func(w *Worker, g *G, a []Value) Value { return fromTerm(w.input(a[0], 64, 0)) })
	z("Uint64", func(w *Worker, g *G, a []Value) Value { return fromTerm(w.input(a[0], 64, 0)) })
	z("Float64", func(w *Worker, g *G, a []Value) Value {
		return fromTerm(w.ar.F1(OFromBits, SFP64, w.input(a[0], 64, 0)))
	})
	z("Float64In", func(w *Worker, g *G, a []Value) Value {
		lim := math.Float64frombits(a[1].U)
		v := w.input(a[0], 64, 0)
		if w.ar.lims == nil {
			w.ar.lims = map[*Term]float64{}
		}
		if l, ok := w.ar.lims[v]; ok && l != lim {
			panic(unsupported("different limits of one input"))
		}
		w.ar.lims[v] = lim
		w.addPC(w.ar.ULe(w.ar.BAnd(v, w.ar.BV(1<<63-1, 64)), w.ar.BV(math.Float64bits(lim), 64)), false)
		return fromTerm(w.ar.F1(OFromBits, SFP64, v))
	})
	z("IntN", func(w *Worker, g *G, a []Value) Value {
		lo, hi := int64(a[1].U), int64(a[2].U)
		n := uint64(hi - lo)
		if n == 0 {
			return Value{U: uint64(lo)}
		}
		wd := Sort(1)
		for wd < 64 && n>>wd != 0 {
			wd++
		}
		if n == mask(wd) {
			return fromTerm(w.ar.Add(w.ar.BV(uint64(lo), 64), w.ar.ZExt(w.input(a[0], wd, 0), 64)))
		}
		v := w.input(a[0], wd, n)
		// not simplified: the bound is also known to the simplifier
		w.assume(w.ar.mk(OULt, SBool, 0, "", v, w.ar.BV(n+1, wd)))
		return fromTerm(w.ar.Add(w.ar.BV(uint64(lo), 64), w.ar.ZExt(v, 64)))
	})
	z("String", func(w *Worker, g *G, a []Value) Value { return w.inputStr(a, 8) })
	z("ASCII", func(w *Worker, g *G, a []Value) Value { return w.inputStr(a, 7) })
	z("Choice", func(w *Worker, g *G, a []Value) Value { return mkInt(w.inputChoice(w.str(a[0]), int(a[1].U))) })
	z("Assume", func(w *Worker, g *G, a []Value) Value { w.assume(w.boolTerm(a[0])); return Value{} })
	z("Assert", func(w *Worker, g *G, a []Value) Value {
		w.assert_(w.boolTerm(a[0]), w.evalStr(a[1]))
		return Value{}
	})
	z("Reach", func(w *Worker, g *G, a []Value) Value {
		w.sh.mu.Lock()
		w.sh.reached[w.str(a[0])]++
		w.sh.mu.Unlock()
		return Value{}
	})
	z("Bound", func(w *Worker, g *G, a []Value) Value {
		w.sh.mu.Lock()
		w.sh.bounds[w.str(a[0])] = w.str(a[1])
		w.sh.mu.Unlock()
		return Value{}
	})
	z("Obs", func(w *Worker, g *G, a []Value) Value {
		i, _ := a[1].P.(*Iface)
		if i != nil {
			v := i.V
			if s, ok := v.P.(*SliceV); ok { // freeze
				v = w.bytesValue(s.A.F[s.off : s.off+s.len])
			}
			w.obsv = append(w.obsv, obs{w.str(a[0]), v, i.T})
		}
		return Value{}
	})
	z("Trace", func(w *Worker, g *G, a []Value) Value {
		w.trace = append(w.trace, w.evalStr(a[0]))
		return Value{}
	})
	z("Quiesce", func(w *Worker, g *G, a []Value) Value { w.quiesce(g); return Value{} })
	z("Yield", func(w *Worker, g *G, a []Value) Value { w.schedPoint(g, "yield"); return Value{} })
	z("ExploreSchedules", func(w *Worker, g *G, a []Value) Value {
		w.exploreSched = true
		w.maxSwitch, w.maxPreempt = int(a[0].U), int(a[1].U)
		w.sh.mu.Lock()
		w.sh.bounds["scheduling"] = fmt.Sprintf("up to %d explored switches at blocking points and %d preemptions at synchronisation operations", w.maxSwitch, w.maxPreempt)
		w.sh.mu.Unlock()
		return Value{}
	})
	z("StopExploring", func(w *Worker, g *G, a []Value) Value { w.exploreSched = false; return Value{} })
	z("DetectRaces", func(w *Worker, g *G, a []Value) Value {
		w.races = true
		for _, x := range w.gs {
			if len(x.vc) == 0 {
				x.vc.tick(x.id)
			}
		}
		return Value{}
	})
	z("FirstReady", func(w *Worker, g *G, a []Value) Value { w.firstReady = a[0].U != 0; return Value{} })
	z("MapOrder", func(w *Worker, g *G, a []Value) Value { w.mapOrder = a[0].U != 0; return Value{} })
	z("Thorough", func(w *Worker, g *G, a []Value) Value { return mkBool(w.sh.thorough) })
	z("Symbolic", func(w *Worker, g *G, a []Value) Value { return mkBool(true) })
	z("FailUDP", func(w *Worker, g *G, a []Value) Value {
		w.nat["failudp"] = w.conc(a[0], 1) != 0
		return Value{}
	})
	z("UDPAddr", func(w *Worker, g *G, a []Value) Value { return mkString("127.0.0.1:4242") })
	z("Packets", func(w *Worker, g *G, a []Value) Value {
		ps, _ := w.nat["packets"].([]Value)
		f := append([]Value{}, ps...)
		w.nat["packets"] = []Value(nil)
		return Value{P: &SliceV{A: &Agg{f}, len: len(f), cap: len(f)}}
	})
	z("IsPoison", func(w *Worker, g *G, a []Value) Value { return Value{} })

	// ---- sync ----
	lock := func(w *Worker, g *G, a []Value) Value {
		w.guardInit0("mutex")
		c := cellOf(a[0])
		m := w.mutex(c)
		w.schedPoint(g, "lock")
		for m.locked || m.readers > 0 {
			m.wwait++
			m.q = append(m.q, g)
			w.block(g, "mutex lock")
			m.wwait--
		}
		m.locked = true
		if w.races {
			g.vc.join(m.vc)
			g.vc.join(m.rvc)
		}
		return Value{}
	}
	unlock := func(w *Worker, g *G, a []Value) Value {
		w.guardInit0("mutex")
		m := w.mutex(cellOf(a[0]))
		if !m.locked {
			w.fatal("sync: unlock of unlocked mutex")
		}
		m.locked = false
		if w.races {
			m.vc = g.vc.clone()
			g.vc.tick(g.id)
		}
		m.wakeAll(w)
		w.schedPoint(g, "unlock")
		return Value{}
	}
	trylock := func(w *Worker, g *G, a []Value) Value {
		m := w.mutex(cellOf(a[0]))
		w.schedPoint(g, "trylock")
		if m.locked || m.readers > 0 {
			return mkBool(false)
		}
		m.locked = true
		if w.races {
			g.vc.join(m.vc)
			g.vc.join(m.rvc)
		}
		return mkBool(true)
	}
	reg(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(trylock, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*internal/sync.Mutex).TryLock")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := w.mutex(cellOf(a[0]))
		w.schedPoint(g, "rlock")
		for m.locked || m.wwait > 0 && m.readers > 0 && false {
			m.q = append(m.q, g)
			w.block(g, "rwmutex rlock")
		}
		m.readers++
		if w.races {
			g.vc.join(m.vc)
		}
		return Value{}
	}, "(*sync.RWMutex).RLock")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := w.mutex(cellOf(a[0]))
		if m.readers <= 0 {
			w.fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		if w.races {
			m.rvc.join(g.vc)
			g.vc.tick(g.id)
		}
		m.wakeAll(w)
		w.schedPoint(g, "runlock")
		return Value{}
	}, "(*sync.RWMutex).RUnlock")
	wgOf := func(w *Worker, v Value) *wgState {
		c := cellOf(v)
		if c == nil {
			w.nilDeref()
		}
		s, _ := w.nat[c].(*wgState)
		if s == nil {
			s = &wgState{}
			w.nat[c] = s
		}
		return s
	}
	wgAdd := func(w *Worker, g *G, v Value, d int64) {
		s := wgOf(w, v)
		w.schedPoint(g, "waitgroup")
		s.n += d
		if w.races {
			s.vc.join(g.vc)
			g.vc.tick(g.id)
		}
		if s.n < 0 {
			panic(simPanic{v: Value{P: &Iface{T: types.Typ[types.String], V: mkString("sync: negative WaitGroup counter")}}})
		}
		if s.n == 0 {
			q := s.q
			s.q = nil
			for _, x := range q {
				w.ready(x)
			}
		}
	}
	reg(func(w *Worker, g *G, a []Value) Value {
		wgAdd(w, g, a[0], int64(w.conc(a[1], 64)))
		return Value{}
	}, "(*sync.WaitGroup).Add")
	reg(func(w *Worker, g *G, a []Value) Value { wgAdd(w, g, a[0], -1); return Value{} }, "(*sync.WaitGroup).Done")
	reg(func(w *Worker, g *G, a []Value) Value {
		s := wgOf(w, a[0])
		w.schedPoint(g, "wait")
		for s.n > 0 {
			s.q = append(s.q, g)
			w.block(g, "waitgroup wait")
		}
		if w.races {
			g.vc.join(s.vc)
		}
		return Value{}
	}, "(*sync.WaitGroup).Wait")
	reg(func(w *Worker, g *G, a []Value) Value {
		wgAdd(w, g, a[0], 1)
		f := a[1]
		w.spawn(g, nil, nil, nil, func(w *Worker, g2 *G, _ []Value) Value {
			w.callValue(g2, f, nil)
			wgAdd(w, g2, a[0], -1)
			return Value{}
		})
		return Value{}
	}, "(*sync.WaitGroup).Go")
	reg(func(w *Worker, g *G, a []Value) Value {
		c := cellOf(a[0])
		s, _ := w.nat[c].(*poolState)
		if s != nil && len(s.items) > 0 {
			v := s.items[len(s.items)-1]
			s.items = s.items[:len(s.items)-1]
			return v
		}
		ag := c.P.(*Agg)
		nf := ag.F[len(ag.F)-1]
		if nf.P == nil {
			return Value{}
		}
		return w.callValue(g, nf, nil)
	}, "(*sync.Pool).Get")
	reg(func(w *Worker, g *G, a []Value) Value {
		if w.inInit > 0 {
			return Value{}
		}
		c := cellOf(a[0])
		s, _ := w.nat[c].(*poolState)
		if s == nil {
			s = &poolState{}
			w.nat[c] = s
		}
		s.items = append(s.items, a[1])
		return Value{}
	}, "(*sync.Pool).Put")
	condOf := func(w *Worker, v Value) *condState {
		c := cellOf(v)
		s, _ := w.nat[c].(*condState)
		if s == nil {
			s = &condState{}
			w.nat[c] = s
		}
		return s
	}
	condL := func(w *Worker, g *G, v Value, name string) {
		ag := cellOf(v).P.(*Agg)
		for i := range ag.F {
			if ifc, ok := ag.F[i].P.(*Iface); ok && ifc != nil {
				f := w.findMethod(ifc.T, name)
				w.call(g, w.code(f), []Value{ifc.V}, nil)
				return
			}
		}
		w.nilDeref()
	}
	reg(func(w *Worker, g *G, a []Value) Value {
		s := condOf(w, a[0])
		x := &selWaitG{g: g}
		s.q = append(s.q, x)
		condL(w, g, a[0], "Unlock")
		for !x.done {
			w.block(g, "cond wait")
		}
		condL(w, g, a[0], "Lock")
		return Value{}
	}, "(*sync.Cond).Wait")
	reg(func(w *Worker, g *G, a []Value) Value {
		s := condOf(w, a[0])
		if len(s.q) > 0 {
			x := s.q[0]
			s.q = s.q[1:]
			x.done = true
			w.ready(x.g)
		}
		return Value{}
	}, "(*sync.Cond).Signal")
	reg(func(w *Worker, g *G, a []Value) Value {
		s := condOf(w, a[0])
		for _, x := range s.q {
			x.done = true
			w.ready(x.g)
		}
		s.q = nil
		return Value{}
	}, "(*sync.Cond).Broadcast")
	// sync.Map: an ordinary map of interface keys, plus happens-before edges
	anyT := types.Universe.Lookup("any").Type()
	smap := func(w *Worker, g *G, v Value) *MapV {
		c := cellOf(v)
		if c == nil {
			w.nilDeref()
		}
		w.schedPoint(g, "sync.Map")
		w.raceSync(g, c)
		m, _ := w.nat[c].(*MapV)
		if m == nil {
			m = &MapV{kt: anyT, vt: anyT, idx: map[any]int{}}
			w.nat[c] = m
		}
		return m
	}
	ak := tinfo(anyT)
	reg(func(w *Worker, g *G, a []Value) Value {
		m := smap(w, g, a[0])
		if i := w.mapFind(m, ak, a[1]); i >= 0 {
			return Value{P: Tuple{m.ents[i].v, mkBool(true)}}
		}
		return Value{P: Tuple{Value{}, mkBool(false)}}
	}, "(*sync.Map).Load")
	reg(func(w *Worker, g *G, a []Value) Value {
		w.mapSet(smap(w, g, a[0]), ak, a[1], a[2])
		return Value{}
	}, "(*sync.Map).Store")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := smap(w, g, a[0])
		if i := w.mapFind(m, ak, a[1]); i >= 0 {
			return Value{P: Tuple{m.ents[i].v, mkBool(true)}}
		}
		w.mapSet(m, ak, a[1], a[2])
		return Value{P: Tuple{a[2], mkBool(false)}}
	}, "(*sync.Map).LoadOrStore")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := smap(w, g, a[0])
		if i := w.mapFind(m, ak, a[1]); i >= 0 {
			v := m.ents[i].v
			w.mapDel(m, i)
			return Value{P: Tuple{v, mkBool(true)}}
		}
		return Value{P: Tuple{Value{}, mkBool(false)}}
	}, "(*sync.Map).LoadAndDelete")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := smap(w, g, a[0])
		if i := w.mapFind(m, ak, a[1]); i >= 0 {
			w.mapDel(m, i)
		}
		return Value{}
	}, "(*sync.Map).Delete")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := smap(w, g, a[0])
		r := Tuple{Value{}, mkBool(false)}
		if i := w.mapFind(m, ak, a[1]); i >= 0 {
			r = Tuple{m.ents[i].v, mkBool(true)}
		}
		w.mapSet(m, ak, a[1], a[2])
		return Value{P: r}
	}, "(*sync.Map).Swap")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := smap(w, g, a[0])
		i := w.mapFind(m, ak, a[1])
		if i < 0 || !w.branch(w.eqTerm(ak, m.ents[i].v, a[2])) {
			return mkBool(false)
		}
		w.mapSet(m, ak, a[1], a[3])
		return mkBool(true)
	}, "(*sync.Map).CompareAndSwap")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := smap(w, g, a[0])
		i := w.mapFind(m, ak, a[1])
		if i < 0 || !w.branch(w.eqTerm(ak, m.ents[i].v, a[2])) {
			return mkBool(false)
		}
		w.mapDel(m, i)
		return mkBool(true)
	}, "(*sync.Map).CompareAndDelete")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := smap(w, g, a[0])
		for i := range m.ents {
			if !m.ents[i].dead {
				w.mapDel(m, i)
			}
		}
		return Value{}
	}, "(*sync.Map).Clear")
	reg(func(w *Worker, g *G, a []Value) Value {
		m := smap(w, g, a[0])
		for i := 0; i < len(m.ents); i++ {
			if m.ents[i].dead {
				continue
			}
			if r := w.callValue(g, a[1], []Value{m.ents[i].k, m.ents[i].v}); !w.branch(w.boolTerm(r)) {
				break
			}
		}
		return Value{}
	}, "(*sync.Map).Range")

	// ---- atomics ----
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, t := range []struct {
			n string
			s Sort
		}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
			s := t.s
			reg(func(w *Worker, g *G, a []Value) Value {
				w.atomicPt(g, a[0])
				c := cellOf(a[0])
				r := fromTerm(w.ar.Add(w.term(*c, s), w.term(a[1], s)))
				w.setCell(c, r)
				return r
			}, pk+".Add"+t.n)
			reg(func(w *Worker, g *G, a []Value) Value {
				w.atomicPt(g, a[0])
				c := cellOf(a[0])
				o := *c
				w.setCell(c, fromTerm(w.ar.BAnd(w.term(*c, s), w.term(a[1], s))))
				return o
			}, pk+".And"+t.n)
			reg(func(w *Worker, g *G, a []Value) Value {
				w.atomicPt(g, a[0])
				c := cellOf(a[0])
				o := *c
				w.setCell(c, fromTerm(w.ar.BOr(w.term(*c, s), w.term(a[1], s))))
				return o
			}, pk+".Or"+t.n)
		}
		for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			n := n
			reg(func(w *Worker, g *G, a []Value) Value {
				w.atomicPt(g, a[0])
				return *cellOf(a[0])
			}, pk+".Load"+n)
			reg(func(w *Worker, g *G, a []Value) Value {
				w.atomicPt(g, a[0])
				w.setCell(cellOf(a[0]), a[1])
				return Value{}
			}, pk+".Store"+n)
			reg(func(w *Worker, g *G, a []Value) Value {
				w.atomicPt(g, a[0])
				c := cellOf(a[0])
				o := *c
				w.setCell(c, a[1])
				return o
			}, pk+".Swap"+n)
			s := Sort(64)
			if strings.HasSuffix(n, "32") {
				s = 32
			}
			reg(func(w *Worker, g *G, a []Value) Value {
				w.atomicPt(g, a[0])
				c := cellOf(a[0])
				eq := false
				if n == "Pointer" {
					eq = refEq(*c, a[1])
				} else {
					eq = w.branch(w.ar.Eq(w.term(*c, s), w.term(a[1], s)))
				}
				if eq {
					w.setCell(c, a[2])
				}
				return mkBool(eq)
			}, pk+".CompareAndSwap"+n)
		}
	}
	reg(func(w *Worker, g *G, a []Value) Value {
		w.atomicPt(g, a[0])
		return cellOf(a[0]).P.(*Agg).F[0]
	}, "(*sync/atomic.Value).Load")
	reg(func(w *Worker, g *G, a []Value) Value {
		w.atomicPt(g, a[0])
		w.setCell(&cellOf(a[0]).P.(*Agg).F[0], a[1])
		return Value{}
	}, "(*sync/atomic.Value).Store")
	reg(func(w *Worker, g *G, a []Value) Value {
		w.atomicPt(g, a[0])
		c := &cellOf(a[0]).P.(*Agg).F[0]
		o := *c
		w.setCell(c, a[1])
		return o
	}, "(*sync/atomic.Value).Swap")
	reg(func(w *Worker, g *G, a []Value) Value {
		w.atomicPt(g, a[0])
		c := &cellOf(a[0]).P.(*Agg).F[0]
		if !w.branch(w.eqTerm(ak, *c, a[1])) {
			return mkBool(false)
		}
		w.setCell(c, a[2])
		return mkBool(true)
	}, "(*sync/atomic.Value).CompareAndSwap")

	// ---- time ----
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.timeNow()
	}, "time.now", "time.runtimeNow")
	reg(func(w *Worker, g *G, a []Value) Value {
		return fromTerm(w.ar.Sub(w.i64(w.now), w.ar.BV(clockEpoch-1, 64)))
	}, "time.runtimeNano", "runtime.nanotime", "internal/runtime/sys.Nanotime")
	reg(nop, "time.initLocal")
	reg(func(w *Worker, g *G, a []Value) Value { w.sleep(g, a[0]); return Value{} }, "time.Sleep")
	reg(func(w *Worker, g *G, a []Value) Value { return w.newTimer(g, a[0], Value{}, Value{}, "Timer") }, "time.NewTimer")
	reg(func(w *Worker, g *G, a []Value) Value {
		t := w.newTimer(g, a[0], Value{}, Value{}, "Timer")
		return cellOf(t).P.(*Agg).F[0]
	}, "time.After")
	reg(func(w *Worker, g *G, a []Value) Value { return w.newTimer(g, a[0], Value{}, a[1], "Timer") }, "time.AfterFunc")
	reg(func(w *Worker, g *G, a []Value) Value {
		if w.branch(w.ar.SLe(w.i64(a[0]), w.ar.BV(0, 64))) {
			panic(simPanic{v: Value{P: &Iface{T: types.Typ[types.String], V: mkString("non-positive interval for NewTicker")}}})
		}
		return w.newTimer(g, a[0], a[0], Value{}, "Ticker")
	}, "time.NewTicker")
	reg(func(w *Worker, g *G, a []Value) Value {
		if w.branch(w.ar.SLe(w.i64(a[0]), w.ar.BV(0, 64))) {
			return Value{}
		}
		t := w.newTimer(g, a[0], a[0], Value{}, "Ticker")
		return cellOf(t).P.(*Agg).F[0]
	}, "time.Tick")
	reg(func(w *Worker, g *G, a []Value) Value {
		st := w.timerOf(a[0])
		r := w.delTimer(st.t)
		if st.ch != nil {
			st.ch.buf, st.ch.bufvc = nil, nil
		}
		return mkBool(r)
	}, "(*time.Timer).Stop", "(*time.Ticker).Stop")
	reg(func(w *Worker, g *G, a []Value) Value {
		st := w.timerOf(a[0])
		r := w.delTimer(st.t)
		if st.ch != nil {
			st.ch.buf, st.ch.bufvc = nil, nil
		}
		p := Value{}
		if st.ticker {
			p = a[1]
		}
		st.t = w.addTimer(w.addI64(w.now, a[1]), p, st.t.fn)
		return mkBool(r)
	}, "(*time.Timer).Reset", "(*time.Ticker).Reset")

	// ---- runtime ----
	reg(func(w *Worker, g *G, a []Value) Value { w.gosched(g); return Value{} }, "runtime.Gosched")
	reg(nop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime/debug.FreeOSMemory")
	reg(func(w *Worker, g *G, a []Value) Value { panic(simPanic{exit: true}) }, "runtime.Goexit")
	reg(func(w *Worker, g *G, a []Value) Value { return mkInt(8) }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(func(w *Worker, g *G, a []Value) Value { return mkString("go1.27") }, "runtime.Version")
	reg(func(w *Worker, g *G, a []Value) Value {
		b := []byte("goroutine 1 [running]:\nmain.main()\n")
		f := sliceVals(a[0])
		n := min(len(f), len(b))
		for i := 0; i < n; i++ {
			w.setCell(&f[i], Value{U: uint64(b[i])})
		}
		return mkInt(n)
	}, "runtime.Stack")
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.bytesValue(strBytes(mkString("goroutine 1 [running]:\nmain.main()\n")))
	}, "runtime/debug.Stack")
	reg(func(w *Worker, g *G, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "internal/abi.Escape", "internal/bytealg.MakeNoZero0")
	reg(func(w *Worker, g *G, a []Value) Value {
		n := int(int64(w.conc(a[0], 64)))
		return w.makeSlice(tinfo(types.Typ[types.Byte]), n, n)
	}, "internal/bytealg.MakeNoZero")
	reg(nop, "(*strings.Builder).copyCheck")
	reg(func(w *Worker, g *G, a []Value) Value { return mkInt(4242) }, "os.Getpid", "syscall.Getpid")
	reg(func(w *Worker, g *G, a []Value) Value { return Value{P: Tuple{mkString("vhost"), Value{}}} }, "os.Hostname")
	vars := func(w *Worker) map[string]Value {
		m, _ := w.nat["osenv"].(map[string]Value)
		if m == nil {
			m = map[string]Value{}
			w.nat["osenv"] = m
		}
		return m
	}
	reg(func(w *Worker, g *G, a []Value) Value { return vars(w)[w.str(a[0])] }, "os.Getenv")
	reg(func(w *Worker, g *G, a []Value) Value {
		v, ok := vars(w)[w.str(a[0])]
		return Value{P: Tuple{v, mkBool(ok)}}
	}, "os.LookupEnv", "syscall.Getenv")
	reg(func(w *Worker, g *G, a []Value) Value {
		w.guardInit0("Setenv")
		vars(w)[w.str(a[0])] = a[1]
		return Value{}
	}, "os.Setenv")
	reg(func(w *Worker, g *G, a []Value) Value {
		w.guardInit0("Unsetenv")
		delete(vars(w), w.str(a[0]))
		return Value{}
	}, "os.Unsetenv")
	// harnesses of commands note the end of the process and the servers started
	zzCall := func(name string) Intrinsic {
		return func(w *Worker, g *G, a []Value) Value {
			return w.call(g, w.code(w.sh.prog.ImportedPackage(zzPath).Func(name)), a, nil)
		}
	}
	reg(zzCall("ListenAndServe"), "net/http.ListenAndServe")
	reg(func(w *Worker, g *G, a []Value) Value {
		st := cellOf(a[0])
		t := w.sh.prog.ImportedPackage("net/http").Type("Server").Type()
		addr, h := w.getField(*st, t, "Addr"), w.getField(*st, t, "Handler")
		return zzCall("ListenAndServe")(w, g, []Value{addr, h})
	}, "(*net/http.Server).ListenAndServe")
	reg(func(w *Worker, g *G, a []Value) Value {
		if w.nat["catchExit"] == nil {
			w.fatal("os.Exit")
		}
		return zzCall("Exit")(w, g, a)
	}, "os.Exit")
	reg(func(w *Worker, g *G, a []Value) Value { w.nat["catchExit"] = true; return Value{} }, zzPath+".CatchExit")
	reg(func(w *Worker, g *G, a []Value) Value {
		return Value{P: Tuple{mkInt(len(sliceVals(a[1]))), Value{}}}
	}, "(*os.File).Write")
	reg(func(w *Worker, g *G, a []Value) Value {
		return Value{P: Tuple{mkInt(strLen(a[1])), Value{}}}
	}, "(*os.File).WriteString")

	// ---- math ----
	f1 := func(name string, op Op, nat func(float64) float64) {
		reg(func(w *Worker, g *G, a []Value) Value {
			if a[0].P == nil && nat != nil {
				return Value{U: math.Float64bits(nat(f64(a[0].U)))}
			}
			return fromTerm(w.ar.F1(op, SFP64, w.term(a[0], SFP64)))
		}, name)
	}
	f1("math.Sqrt", OFSqrt, math.Sqrt)
	f1("math.sqrt", OFSqrt, math.Sqrt)
	f1("math.Abs", OFAbs, math.Abs)
	reg2 := func(max bool, nat func(float64, float64) float64, names ...string) {
		reg(func(w *Worker, g *G, a []Value) Value {
			if a[0].P == nil && a[1].P == nil {
				return Value{U: math.Float64bits(nat(f64(a[0].U), f64(a[1].U)))}
			}
			x, y := w.term(a[0], SFP64), w.term(a[1], SFP64)
			r := w.ar.FMinMax(x, y, max)
			if !w.ar.finite(x) && !w.ar.finite(y) { // an infinity wins even over NaN
				inf := w.ar.Const(math.Float64bits(math.Inf(map[bool]int{true: 1, false: -1}[max])), SFP64)
				r = w.ar.Ite(w.ar.Or(w.ar.FCmp(OFEq, x, inf), w.ar.FCmp(OFEq, y, inf)), inf, r)
			}
			return fromTerm(r)
		}, names...)
	}
	reg2(true, math.Max, "math.Max", "math.max")
	reg2(false, math.Min, "math.Min", "math.min")
	reg(func(w *Worker, g *G, a []Value) Value {
		if a[0].P == nil {
			return mkBool(math.Signbit(f64(a[0].U)))
		}
		x := w.term(a[0], SFP64)
		if x.op != OFromBits && neverNegZero(x) && w.ar.neverNaN(x) {
			return fromTerm(w.ar.FCmp(OFLt, x, w.ar.Const(0, SFP64)))
		}
		return fromTerm(w.ar.Eq(w.ar.Extract(w.floatBits(x), 63, 63), w.ar.BV(1, 1)))
	}, "math.Signbit")
	natf := func(name string, nat func(float64) float64) {
		reg(func(w *Worker, g *G, a []Value) Value {
			if a[0].P == nil {
				return Value{U: math.Float64bits(nat(f64(a[0].U)))}
			}
			panic(unsupported(name + " of a symbolic value"))
		}, name)
	}
	natf("math.Log", math.Log)
	natf("math.Exp", math.Exp)
	natf("math.Log10", math.Log10)
	natf("math.Log2", math.Log2)
	reg(func(w *Worker, g *G, a []Value) Value {
		if a[0].P == nil && a[1].P == nil {
			return Value{U: math.Float64bits(math.Pow(f64(a[0].U), f64(a[1].U)))}
		}
		x := w.term(a[0], SFP64)
		if a[1].P == nil {
			switch f64(a[1].U) {
			case 2: // exact: Pow(x, 2) multiplies mantissas, as x*x
				return fromTerm(w.ar.FP(OFMul, x, x))
			case 1:
				return a[0]
			case 0.5:
				return fromTerm(w.ar.F1(OFSqrt, SFP64, x))
			}
		}
		panic(unsupported("math.Pow of symbolic values"))
	}, "math.Pow")
	reg(func(w *Worker, g *G, a []Value) Value {
		if a[0].P == nil {
			return a[0]
		}
		return fromTerm(w.floatBits(a[0].P.(*Term)))
	}, "math.Float64bits", "math.Float32bits")
	reg(func(w *Worker, g *G, a []Value) Value {
		return fromTerm(w.ar.F1(OFromBits, SFP64, w.term(a[0], 64)))
	}, "math.Float64frombits")
	reg(func(w *Worker, g *G, a []Value) Value {
		return fromTerm(w.ar.F1(OFromBits, SFP32, w.term(a[0], 32)))
	}, "math.Float32frombits")
	reg(func(w *Worker, g *G, a []Value) Value {
		return fromTerm(w.ar.FIsNaN(w.term(a[0], SFP64)))
	}, "math.IsNaN")
	reg(func(w *Worker, g *G, a []Value) Value {
		x := w.term(a[0], SFP64)
		sg := int64(w.conc(a[1], 64))
		pos := w.ar.FCmp(OFEq, x, w.ar.Const(math.Float64bits(math.Inf(1)), SFP64))
		neg := w.ar.FCmp(OFEq, x, w.ar.Const(math.Float64bits(math.Inf(-1)), SFP64))
		switch {
		case sg > 0:
			return fromTerm(pos)
		case sg < 0:
			return fromTerm(neg)
		}
		return fromTerm(w.ar.Or(pos, neg))
	}, "math.IsInf")
	for _, n := range []string{"Floor", "Ceil", "Trunc"} {
		f := map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc}[n]
		natf("math."+n, f)
		natf("math."+strings.ToLower(n), f)
	}
}

func (w *Worker) guardInit0(what string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
}

// floatBits gives the bit pattern of a floating-point term.
func (w *Worker) floatBits(t *Term) *Term {
	if t.op == OFromBits {
		return t.a[0]
	}
	if t.op == OIte {
		return w.ar.Ite(t.a[0], w.floatBits(t.a[1]), w.floatBits(t.a[2]))
	}
	if t.op == OConst {
		if t.sort == SFP32 {
			return w.ar.BV(t.val, 32)
		}
		return w.ar.BV(t.val, 64)
	}
	panic(unsupported("bits of a computed symbolic float"))
}

type atomKey struct{ c *Value }

func (w *Worker) raceSync(g *G, c *Value) {
	if !w.races || g.id < 0 {
		return
	}
	k := atomKey{c}
	vc, _ := w.nat[k].(*vclock)
	if vc == nil {
		vc = &vclock{}
		w.nat[k] = vc
	}
	g.vc.join(*vc)
	vc.join(g.vc)
	g.vc.tick(g.id)
}

func (w *Worker) atomicPt(g *G, p Value) {
	c := cellOf(p)
	if c == nil {
		if p.P == nil {
			w.nilDeref()
		}
		panic(unsupported("atomic on symbolic pointer"))
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	w.schedPoint(g, "atomic")
	w.raceSync(g, c)
}

// input creates a fresh symbolic input of a harness.
func (w *Worker) input(name Value, s Sort, hi uint64) *Term {
	w.guardChoice("input")
	n := w.str(name)
	full := fmt.Sprintf("%s#%d", n, w.names[n])
	w.names[n]++
	v := w.ar.Var(full, s, hi)
	w.vars = append(w.vars, v)
	return v
}

func (w *Worker) inputChoice(name string, n int) int {
	full := fmt.Sprintf("%s#%d", name, w.names[name])
	w.names[name]++
	k := 0
	if n > 1 {
		k = w.freeChoice(n, "input")
	}
	w.choice[full] = uint64(k)
	return k
}

func (w *Worker) inputStr(a []Value, bits Sort) Value {
	name := w.str(a[0])
	lo, hi := int(a[1].U), int(a[2].U)
	n := lo + w.inputChoice(name+".len", hi-lo+1)
	if n == 0 {
		return Value{}
	}
	b := make([]Value, n)
	for i := range b {
		v := w.input(mkString(fmt.Sprintf("%s.%d", name, i)), bits, 0)
		b[i] = fromTerm(w.ar.ZExt(v, 8))
	}
	return Value{P: &SymStr{b}}
}

// ---- time ----

func (w *Worker) timeNow() Value {
	ar := w.ar
	now := w.i64(w.now)
	e9 := ar.BV(1e9, 64)
	sec := ar.SDiv(now, e9)
	ns := ar.SRem(now, e9)
	mono := ar.Sub(now, ar.BV(clockEpoch-1, 64))
	return Value{P: Tuple{fromTerm(sec), fromTerm(ar.Extract(ns, 31, 0)), fromTerm(mono)}}
}

type timerSt struct {
	t      *timerV
	ch     *ChanV
	ticker bool
}

func (w *Worker) timerOf(v Value) *timerSt {
	c := cellOf(v)
	if c == nil {
		w.nilDeref()
	}
	st, _ := w.nat[c].(*timerSt)
	if st == nil {
		panic(simPanic{v: Value{P: &Iface{T: types.Typ[types.String], V: mkString("time: Stop called on uninitialized Timer")}}})
	}
	return st
}

func (w *Worker) newTimer(g *G, d, period, fn Value, typ string) Value {
	w.guardInit("timer")
	p := w.sh.prog.ImportedPackage("time")
	ti := tinfo(p.Type(typ).Type())
	c := new(Value)
	*c = ti.zero()
	st := &timerSt{ticker: typ == "Ticker"}
	timeT := tinfo(p.Type("Time").Type())
	nowFn := p.Func("Now")
	if fn.P == nil {
		st.ch = w.newChan(1, timeT)
		c.P.(*Agg).F[0] = Value{P: st.ch}
	}
	st.t = w.addTimer(w.addI64(w.now, d), period, func(w *Worker) {
		pg := &G{id: 0, w: w, state: gRunning}
		if st.ch != nil {
			if st.ch.canSend() && !st.ch.closed {
				v := w.call(pg, w.code(nowFn), nil, nil)
				if w.races {
					pg.vc = vclock{}
				}
				w.trySend(pg, st.ch, v)
			}
			return
		}
		w.spawn(nil, nil, nil, nil, func(w *Worker, g2 *G, _ []Value) Value { return w.callValue(g2, fn, nil) })
	})
	w.nat[c] = st
	return Value{P: c}
}

// ---- decimal and float text ----

// decText gives the decimal text of a signed or unsigned 64-bit value, forking on its length.
func (w *Worker) decText(v Value, signed bool) []Value {
	if v.P == nil {
		if signed {
			return strBytes(mkString(strconv.FormatInt(int64(v.U), 10)))
		}
		return strBytes(mkString(strconv.FormatUint(v.U, 10)))
	}
	ar := w.ar
	t := v.P.(*Term)
	var out []Value
	if signed && w.branch(ar.SLt(t, ar.BV(0, 64))) {
		out = append(out, Value{U: '-'})
		t = ar.Neg(t)
	}
	lo, hi := ar.rng(t)
	minD, maxD := len(strconv.FormatUint(lo, 10)), len(strconv.FormatUint(hi, 10))
	n := minD
	if maxD > minD {
		var guards []*Term
		for d := minD; d <= maxD; d++ {
			gd := ar.true_
			if d > minD {
				gd = ar.And(gd, ar.ULe(ar.BV(pow10[d-1], 64), t))
			}
			if d < maxD {
				gd = ar.And(gd, ar.ULt(t, ar.BV(pow10[d], 64)))
			}
			guards = append(guards, gd)
		}
		n = minD + w.choose(guards)
	}
	if t.op == OConst {
		return append(out, strBytes(mkString(strconv.FormatUint(t.val, 10)))...)
	}
	for k := n - 1; k >= 0; k-- {
		out = append(out, fromTerm(ar.Dec(t, k)))
	}
	return out
}

// fltTokens gives the text of a float.
func (w *Worker) fltTokens(v Value, s Sort, f byte, prec int, size int) []Value {
	if v.P == nil {
		return strBytes(mkString(strconv.FormatFloat(fval(s, v.U), f, prec, size)))
	}
	t := v.P.(*Term)
	spec := uint64(f)<<32 | uint64(uint8(prec+1))<<16
	if s == SFP32 {
		spec |= 1 << 40
	} else if size == 32 {
		panic(unsupported("32-bit text of a 64-bit symbolic float"))
	}
	out := make([]Value, fltLen)
	for i := range out {
		out[i] = fromTerm(w.ar.mk(OFlt, 8, spec|uint64(i), "", t))
	}
	return out
}

func fltText(bitsv, spec uint64) string {
	prec := int(uint8(spec>>16)) - 1
	f := byte(spec >> 32)
	size := 64
	var fv float64
	if spec>>40&1 == 1 {
		size = 32
		fv = float64(f32(bitsv))
	} else {
		fv = f64(bitsv)
	}
	switch f {
	case 'J':
		return jsonFloat(fv, size)
	case 'V':
		if size == 32 {
			return fmt.Sprint(float32(fv))
		}
		return fmt.Sprint(fv)
	}
	return strconv.FormatFloat(fv, f, prec, size)
}

func jsonFloat(f float64, bits int) string {
	abs := math.Abs(f)
	fm := byte('f')
	if abs != 0 {
		if bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
			fm = 'e'
		}
	}
	b := strconv.AppendFloat(nil, f, fm, -1, bits)
	if fm == 'e' {
		n := len(b)
		if n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
			b[n-2] = b[n-1]
			b = b[:n-1]
		}
	}
	return string(b)
}

// asFloatToken recognises a float token at b[0]; returns its term.
func asFloatToken(b []Value) *Term {
	if len(b) < fltLen {
		return nil
	}
	t, ok := b[0].P.(*Term)
	if !ok || t.op != OFlt || t.val&0xffff != 0 {
		return nil
	}
	for i := 1; i < fltLen; i++ {
		x, ok := b[i].P.(*Term)
		if !ok || x.op != OFlt || x.a[0] != t.a[0] || x.val != t.val|uint64(i) {
			return nil
		}
	}
	return t
}

// asDecToken recognises decimal digits of one term at b[0]; returns the term and the number of digits.
func asDecToken(b []Value) (*Term, int) {
	if len(b) == 0 {
		return nil, 0
	}
	t, ok := b[0].P.(*Term)
	if !ok || t.op != ODec {
		return nil, 0
	}
	k := int(t.val)
	if len(b) < k+1 {
		return nil, 0
	}
	for i := 1; i <= k; i++ {
		x, ok := b[i].P.(*Term)
		if !ok || x.op != ODec || x.a[0] != t.a[0] || int(x.val) != k-i {
			return nil, 0
		}
	}
	return t.a[0], k + 1
}

var _ = atomic.AddInt64
