package main

import (
	"unsafe"

	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// signals used to unwind native stacks
type simPanic struct {
	v    Value
	rt   bool
	exit bool // Goexit
}
type pathEnd struct{ kind, msg string }
type killSig struct{}
type specAbort struct{}

func unsupported(msg string) *pathEnd { return &pathEnd{"unsupported", msg} }

type deferred struct {
	fn   *fnCode
	fv   []Value
	args []Value
	nat  func(w *Worker, g *G, args []Value) Value
	bi   *ssa.Builtin
	cc   *ssa.CallCommon
	next *deferred
}

type frame struct {
	code      *fnCode
	env       []Value
	caller    *frame
	g         *G
	b         *block
	pc        int
	defers    *deferred
	panicking bool
	pv        simPanic
	ret       Value
	phisDone  bool
	depth     int
}

func (fr *frame) get(o int32) Value {
	if o >= 0 {
		return fr.env[o]
	}
	return fr.code.consts[-o-1]
}

func (w *Worker) getEnv(n int) []Value {
	k := len(w.envPool)
	if k > 0 {
		e := w.envPool[k-1]
		if cap(e) >= n {
			w.envPool = w.envPool[:k-1]
			return e[:n]
		}
	}
	c := n
	if c < 32 {
		c = 32
	}
	return make([]Value, n, c)
}

func (w *Worker) putEnv(e []Value) {
	clear(e)
	if len(w.envPool) < 200 {
		w.envPool = append(w.envPool, e)
	}
}

func (w *Worker) callValue(g *G, fv Value, args []Value) Value {
	switch f := fv.P.(type) {
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *Closure:
		if f.native != nil {
			return f.native(w, g, args)
		}
		return w.call(g, w.code(f.fn), args, f.fv)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv.P)))
}

func (w *Worker) call(g *G, c *fnCode, args []Value, fv []Value) Value {
	if c.intr != nil {
		return c.intr(w, g, args)
	}
	if c.isRepo {
		w.noteFn(c)
	}
	fr := &frame{code: c, caller: g.fr, g: g}
	if fr.caller != nil {
		fr.depth = fr.caller.depth + 1
		if fr.depth > 3000 {
			panic(&pathEnd{"unsupported", "call depth bound reached in " + c.name})
		}
	}
	fr.env = w.getEnv(c.nslots)
	copy(fr.env, args)
	copy(fr.env[c.params:], fv)
	fr.b = c.blocks[0]
	g.fr = fr
	if c.hasDef {
		w.runWithDefers(fr)
	} else {
		w.run(fr)
	}
	g.fr = fr.caller
	r := fr.ret
	w.putEnv(fr.env)
	fr.env = nil
	return r
}

func (w *Worker) runWithDefers(fr *frame) {
	for {
		p, ok := w.runCatch(fr)
		if !ok {
			return
		}
		// a simulated panic reached this frame
		fr.g.fr = fr
		fr.panicking = true
		fr.pv = p
		w.runDefers(fr) // may re-panic with another value, handled by the callers' frames
		if fr.panicking {
			fr.g.fr = fr.caller
			panic(fr.pv)
		}
		// recovered
		if fr.code.recov == nil {
			fr.ret = Value{}
			if n := fr.code.nres; n == 1 {
				fr.ret = fr.code.resTI[0].zero()
			} else if n > 1 {
				t := make(Tuple, n)
				for i := range t {
					t[i] = fr.code.resTI[i].zero()
				}
				fr.ret = Value{P: t}
			}
			return
		}
		fr.b = fr.code.recov
		fr.pc = 0
		fr.phisDone = true
	}
}

func (w *Worker) runCatch(fr *frame) (p simPanic, caught bool) {
	defer func() {
		if r := recover(); r != nil {
			if sp, ok := r.(simPanic); ok {
				p, caught = sp, true
				return
			}
			panic(r)
		}
	}()
	w.run(fr)
	return
}

func (w *Worker) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		if fr.panicking {
			// a panic in the deferred call replaces the current one; the remaining defers still run
			if p, caught := w.callDeferredCatch(fr, d); caught {
				fr.g.fr = fr
				fr.panicking = true
				fr.pv = p
			}
		} else {
			w.callDeferred(fr, d)
		}
	}
}

func (w *Worker) callDeferredCatch(fr *frame, d *deferred) (p simPanic, caught bool) {
	defer func() {
		if r := recover(); r != nil {
			if sp, ok := r.(simPanic); ok {
				p, caught = sp, true
				return
			}
			panic(r)
		}
	}()
	w.callDeferred(fr, d)
	return
}

func (w *Worker) callDeferred(fr *frame, d *deferred) {
	switch {
	case d.bi != nil:
		w.builtin(fr, d.bi, d.cc, d.args)
	case d.nat != nil:
		d.nat(w, fr.g, d.args)
	default:
		w.call(fr.g, d.fn, d.args, d.fv)
	}
}

func (w *Worker) rtPanic(msg string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	panic(simPanic{v: w.rtError(msg), rt: true})
}

func (w *Worker) rtError(msg string) Value {
	if w.sh.rtErrT != nil {
		return Value{P: &Iface{T: w.sh.rtErrT, V: mkString(msg)}}
	}
	return Value{P: &Iface{T: types.Typ[types.String], V: mkString("runtime error: " + msg)}}
}

func (w *Worker) nilDeref() { w.rtPanic("invalid memory address or nil pointer dereference") }

// ---- memory ----

type undo struct {
	cell *Value
	old  Value
	fn   func()
}

func (w *Worker) setCell(c *Value, v Value) {
	if w.inInit == 0 {
		w.jn = append(w.jn, undo{cell: c, old: *c})
	}
	*c = v
}

func (w *Worker) undoTo(mark int) {
	for i := len(w.jn) - 1; i >= mark; i-- {
		u := &w.jn[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.cell = u.old
		}
		*u = undo{}
	}
	w.jn = w.jn[:mark]
}

func (w *Worker) onUndo(f func()) {
	if w.inInit == 0 {
		w.jn = append(w.jn, undo{fn: f})
	}
}

func (w *Worker) storeCell(c *Value, v Value) {
	if src, ok := v.P.(*Agg); ok {
		if dst, ok := c.P.(*Agg); ok {
			if src == dst {
				return
			}
			if len(src.F) != len(dst.F) {
				panic(unsupported("aggregate store of different shape"))
			}
			for i := range src.F {
				w.storeCell(&dst.F[i], src.F[i])
			}
			return
		}
		w.setCell(c, copyVal(v))
		return
	}
	w.setCell(c, v)
}

func (w *Worker) load(g *G, p Value) Value {
	switch c := p.P.(type) {
	case *Value:
		if w.races {
			w.raceRead(g, c)
		}
		if a, ok := c.P.(*Agg); ok {
			if w.races {
				w.raceAgg(g, a, false)
			}
			return Value{P: copyAgg(a)}
		}
		return *c
	case nil:
		w.nilDeref()
	case *SymPtr:
		return w.symLoad(c)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p.P)))
}

func (w *Worker) symLoad(c *SymPtr) Value {
	// all elements scalar: ite over runs of equal values
	s := c.esort
	var r *Term
	n := len(c.F)
	for i := n - 1; i >= 0; i-- {
		t := w.term(c.F[i], s)
		if r == nil {
			r = t
			continue
		}
		if t == r {
			continue
		}
		// find start of run of equal values ending at i
		j := i
		for j > 0 && c.F[j-1] == c.F[i] {
			j--
		}
		r = w.ar.Ite(w.ar.ULt(c.idx, w.ar.BV(uint64(i+1), 64)), t, r)
		i = j
	}
	return fromTerm(r)
}

func (w *Worker) store(g *G, p Value, v Value) {
	switch c := p.P.(type) {
	case *Value:
		if w.races {
			w.raceWrite(g, c)
			if a, ok := c.P.(*Agg); ok {
				w.raceAgg(g, a, true)
			}
		}
		w.storeCell(c, v)
		return
	case nil:
		w.nilDeref()
	case *SymPtr:
		t := w.term(v, c.esort)
		for i := range c.F {
			o := w.term(c.F[i], c.esort)
			w.setCell(&c.F[i], fromTerm(w.ar.Ite(w.ar.Eq(c.idx, w.ar.BV(uint64(i), 64)), t, o)))
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p.P)))
}

// ---- main loop ----

func (w *Worker) run(fr *frame) {
	g := fr.g
	code := fr.code
	for {
		b := fr.b
		ins := b.ins
		w.steps += int64(len(ins))
		if w.steps > w.maxSteps {
			panic(&pathEnd{"bound", "instruction bound reached in " + code.name})
		}
		if w.killed {
			panic(killSig{})
		}
		for pc := 0; pc < len(ins); pc++ {
			in := &ins[pc]
			fr.pc = pc
			switch in.op {
			case iJump:
				w.gotoBlock(fr, b, 0)
			case iIf:
				c := fr.get(in.a)
				if c.P == nil {
					if c.U != 0 {
						w.gotoBlock(fr, b, 0)
					} else {
						w.gotoBlock(fr, b, 1)
					}
				} else {
					t := c.P.(*Term)
					if k, ok := w.decided(t); ok {
						if k {
							w.gotoBlock(fr, b, 0)
						} else {
							w.gotoBlock(fr, b, 1)
						}
					} else if b.reg != nil && !w.races && w.tryRegion(fr, b, t) {
						if fr.b == nil { // merged return
							return
						}
					} else if w.branch(t) {
						w.gotoBlock(fr, b, 0)
					} else {
						w.gotoBlock(fr, b, 1)
					}
				}
			case iReturn:
				switch len(in.args) {
				case 0:
					fr.ret = Value{}
				case 1:
					fr.ret = fr.get(in.args[0])
				default:
					t := make(Tuple, len(in.args))
					for i, a := range in.args {
						t[i] = fr.get(a)
					}
					fr.ret = Value{P: t}
				}
				return
			default:
				w.exec1(fr, g, in)
			}
		}
	}
}

func (w *Worker) gotoBlock(fr *frame, from *block, si int) {
	to := from.succs[si]
	if n := len(to.phis); n > 0 {
		ix := from.predIx[si]
		if n == 1 {
			fr.env[to.phis[0].dst] = fr.get(to.phis[0].in[ix])
		} else {
			var tmp [16]Value
			t := tmp[:0]
			for i := range to.phis {
				t = append(t, fr.get(to.phis[i].in[ix]))
			}
			for i := range to.phis {
				fr.env[to.phis[i].dst] = t[i]
			}
		}
	}
	fr.b = to
}

// tryRegion evaluates the pure region below a symbolic branch under guards and merges it.
func (w *Worker) tryRegion(fr *frame, h *block, cond *Term) (ok bool) {
	mark := len(w.jn)
	type edge struct {
		from *block
		si   int
		g    *Term
	}
	ar := w.ar
	in := map[*block][]edge{}
	type exitT struct {
		to    *block // nil for return
		edges []edge
	}
	var exits []exitT
	add := func(to *block, e edge) {
		if e.g.isFalse() {
			return
		}
		if to != nil && h.reg.in[to] {
			in[to] = append(in[to], e)
			return
		}
		for i := range exits {
			if exits[i].to == to {
				exits[i].edges = append(exits[i].edges, e)
				return
			}
		}
		exits = append(exits, exitT{to, []edge{e}})
	}
	mergePhis := func(to *block, es []edge) {
		if len(to.phis) == 0 {
			return
		}
		var out []Value
		for i := range to.phis {
			p := &to.phis[i]
			v := fr.get(p.in[es[len(es)-1].from.predIx[es[len(es)-1].si]])
			for j := len(es) - 2; j >= 0; j-- {
				x := fr.get(p.in[es[j].from.predIx[es[j].si]])
				v = w.mergeVal(p.ti, es[j].g, x, v)
			}
			out = append(out, v)
		}
		for i := range to.phis {
			fr.env[to.phis[i].dst] = out[i]
		}
	}
	rets := map[*block]*instr{}
	w.spec++
	func() {
		defer func() {
			w.spec--
			if r := recover(); r != nil {
				switch x := r.(type) {
				case specAbort:
				case *pathEnd:
					if x.kind != "unsupported" {
						panic(r)
					}
				default:
					panic(r)
				}
				ok = false
			}
		}()
		add(h.succs[0], edge{h, 0, cond})
		add(h.succs[1], edge{h, 1, ar.Not(cond)})
		for _, b := range h.reg.order {
			es := in[b]
			if len(es) == 0 {
				continue
			}
			g := ar.fals
			for _, e := range es {
				g = ar.Or(g, e.g)
			}
			if g.isFalse() {
				continue
			}
			mergePhis(b, es)
			for i := range b.ins {
				x := &b.ins[i]
				switch x.op {
				case iJump:
					add(b.succs[0], edge{b, 0, g})
				case iIf:
					c := w.boolTerm(fr.get(x.a))
					if k, dec := w.decided(c); dec {
						c = ar.Bool(k)
					}
					add(b.succs[0], edge{b, 0, ar.And(g, c)})
					add(b.succs[1], edge{b, 1, ar.And(g, ar.Not(c))})
				case iReturn:
					rets[b] = x
					add(nil, edge{b, 0, g})
				case iStore:
					p, isC := fr.get(x.a).P.(*Value)
					if !isC {
						panic(specAbort{})
					}
					v := fr.get(x.b)
					if g.isTrue() {
						w.setCell(p, v)
					} else {
						if _, isT := p.P.(*Term); p.P != nil && !isT {
							panic(specAbort{})
						}
						w.setCell(p, w.mergeVal(x.ti, g, v, *p))
					}
				default:
					w.exec1(fr, fr.g, x)
				}
			}
		}
		ok = true
	}()
	if !ok {
		w.undoTo(mark)
		return false
	}
	if len(exits) == 0 {
		w.undoTo(mark)
		return false
	}
	// returns can only be merged if their values can
	var retVal Value
	w.spec++
	func() {
		defer func() {
			w.spec--
			if r := recover(); r != nil {
				if _, isA := r.(specAbort); isA {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for i := range exits {
			if exits[i].to != nil {
				continue
			}
			es := exits[i].edges
			n := fr.code.nres
			vals := make([]Value, n)
			for k := 0; k < n; k++ {
				v := fr.get(rets[es[len(es)-1].from].args[k])
				for j := len(es) - 2; j >= 0; j-- {
					v = w.mergeVal(fr.code.resTI[k], es[j].g, fr.get(rets[es[j].from].args[k]), v)
				}
				vals[k] = v
			}
			switch n {
			case 0:
			case 1:
				retVal = vals[0]
			default:
				retVal = Value{P: Tuple(vals)}
			}
		}
		// phis of exits must be mergeable too
		for i := range exits {
			if to := exits[i].to; to != nil {
				es := exits[i].edges
				for k := range to.phis {
					p := &to.phis[k]
					v := fr.get(p.in[es[len(es)-1].from.predIx[es[len(es)-1].si]])
					for j := len(es) - 2; j >= 0; j-- {
						v = w.mergeVal(p.ti, es[j].g, fr.get(p.in[es[j].from.predIx[es[j].si]]), v)
					}
				}
			}
		}
	}()
	if !ok {
		w.undoTo(mark)
		return false
	}
	guards := make([]*Term, len(exits))
	for i := range exits {
		guards[i] = ar.fals
		for _, e := range exits[i].edges {
			guards[i] = ar.Or(guards[i], e.g)
		}
	}
	k := 0
	if len(exits) > 1 {
		k = w.choose(guards)
	}
	w.merges++
	if exits[k].to == nil {
		fr.ret = retVal
		fr.b = nil
		return true
	}
	mergePhis(exits[k].to, exits[k].edges)
	fr.b = exits[k].to
	return true
}

// mergeVal is ite(g, x, y); raises specAbort if the values cannot be merged.
func (w *Worker) mergeVal(ti *TInfo, g *Term, x, y Value) Value {
	if ti.scalar() {
		if x == y {
			return x
		}
		s := ti.sort
		return fromTerm(w.ar.Ite(g, w.term(x, s), w.term(y, s)))
	}
	if x.P == y.P && x.U == y.U {
		if _, ok := x.P.(Tuple); !ok {
			return x
		}
	}
	if g.isTrue() {
		return x
	}
	if g.isFalse() {
		return y
	}
	if ti.k == KString && strLen(x) == strLen(y) && strLen(x) > 0 {
		a, b := strBytes(x), strBytes(y)
		r := make([]Value, len(a))
		for i := range a {
			r[i] = fromTerm(w.ar.Ite(g, w.term(a[i], 8), w.term(b[i], 8)))
		}
		return bytesToStr(r)
	}
	if ti.k == KIface {
		a, ok1 := x.P.(*Iface)
		b, ok2 := y.P.(*Iface)
		if ok1 && ok2 && a != nil && b != nil && tinfo(a.T) == tinfo(b.T) && tinfo(a.T).scalar() {
			return Value{P: &Iface{a.T, w.mergeVal(tinfo(a.T), g, a.V, b.V)}}
		}
	}
	panic(specAbort{})
}

func (w *Worker) exec1(fr *frame, g *G, in *instr) {
	switch in.op {
	case iAlloc:
		c := new(Value)
		*c = in.ti.zero()
		fr.env[in.dst] = Value{P: c}
	case iBin:
		fr.env[in.dst] = w.binop(in, fr.get(in.a), fr.get(in.b))
	case iUn:
		fr.env[in.dst] = w.unop(in, fr.get(in.a))
	case iLoad:
		fr.env[in.dst] = w.load(g, fr.get(in.a))
	case iStore:
		w.store(g, fr.get(in.a), fr.get(in.b))
	case iFieldAddr:
		p := fr.get(in.a)
		c, ok := p.P.(*Value)
		if !ok {
			if p.P == nil {
				w.nilDeref()
			}
			panic(unsupported(fmt.Sprintf("field of %T", p.P)))
		}
		a, ok := c.P.(*Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("field address in %T (%s)", c.P, in.src)))
		}
		fr.env[in.dst] = Value{P: &a.F[in.n]}
	case iField:
		fr.env[in.dst] = fr.get(in.a).P.(*Agg).F[in.n]
	case iIndexAddr:
		fr.env[in.dst] = w.indexAddr(in, fr.get(in.a), fr.get(in.b))
	case iIndex:
		fr.env[in.dst] = w.index(in, fr.get(in.a), fr.get(in.b))
	case iExtract:
		fr.env[in.dst] = fr.get(in.a).P.(Tuple)[in.n]
	case iCopy:
		fr.env[in.dst] = fr.get(in.a)
	case iConvert:
		fr.env[in.dst] = w.convert(in.ti, in.ti2, fr.get(in.a))
	case iMakeIface:
		fr.env[in.dst] = Value{P: &Iface{T: in.x.(types.Type), V: fr.get(in.a)}}
	case iMakeClosure:
		fv := make([]Value, len(in.args))
		for i, a := range in.args {
			fv[i] = fr.get(a)
		}
		fr.env[in.dst] = Value{P: &Closure{fn: in.x.(*ssa.Function), fv: fv}}
	case iMakeMap:
		tt := in.x.([2]types.Type)
		fr.env[in.dst] = Value{P: &MapV{kt: tt[0], vt: tt[1], idx: map[any]int{}}}
	case iMakeChan:
		n := int(int64(w.conc(fr.get(in.a), 64)))
		if n < 0 {
			w.rtPanic("makechan: size out of range")
		}
		fr.env[in.dst] = Value{P: w.newChan(n, in.ti)}
	case iMakeSlice:
		n := int(int64(w.conc(fr.get(in.a), 64)))
		c := int(int64(w.conc(fr.get(in.b), 64)))
		if n < 0 || n > 1<<26 {
			w.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			w.rtPanic("makeslice: cap out of range")
		}
		fr.env[in.dst] = w.makeSlice(in.ti, n, c)
	case iLookup:
		v, ok := w.mapLookup(g, fr.get(in.a), in.ti, fr.get(in.b))
		if !ok {
			v = in.ti2.zero()
		}
		if in.commaOk {
			fr.env[in.dst] = Value{P: Tuple{v, mkBool(ok)}}
		} else {
			fr.env[in.dst] = v
		}
	case iMapUpdate:
		w.mapUpdate(g, fr.get(in.a), in.ti, fr.get(in.b), fr.get(in.c))
	case iRange:
		fr.env[in.dst] = w.rangeIter(g, in.ti, fr.get(in.a))
	case iNext:
		fr.env[in.dst] = w.next(in, fr.get(in.a))
	case iSlice:
		fr.env[in.dst] = w.slice(in, fr)
	case iSliceToArr:
		p := fr.get(in.a)
		if p.P == nil {
			if in.ti.n > 0 {
				w.rtPanic("cannot convert slice with length 0 to array")
			}
			fr.env[in.dst] = Value{}
			return
		}
		s := p.P.(*SliceV)
		if s.len < in.ti.n {
			w.rtPanic("cannot convert slice to array: length too small")
		}
		if s.off == 0 && len(s.A.F) == in.ti.n {
			c := new(Value)
			c.P = s.A
			fr.env[in.dst] = Value{P: c}
			return
		}
		c := new(Value)
		c.P = &Agg{F: s.A.F[s.off : s.off+in.ti.n : s.off+in.ti.n]}
		fr.env[in.dst] = Value{P: c}
	case iTypeAssert:
		fr.env[in.dst] = w.typeAssert(in, fr.get(in.a))
	case iCall:
		fr.env[in.dst] = w.doCall(fr, g, in)
	case iGo:
		fn, fv, nat, args := w.resolve(fr, in)
		if nat != nil {
			w.spawn(g, nil, nil, args, nat)
		} else {
			w.spawn(g, fn, fv, args, nil)
		}
	case iDefer:
		d := &deferred{next: fr.defers}
		cc := in.x.(*ssa.CallCommon)
		if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
			d.bi, d.cc = b, cc
			for _, a := range in.args {
				d.args = append(d.args, fr.get(a))
			}
		} else {
			d.fn, d.fv, d.nat, d.args = w.resolve(fr, in)
		}
		fr.defers = d
	case iRunDefers:
		w.runDefers(fr)
	case iPanic:
		v := fr.get(in.a)
		if v.P == nil {
			panic(simPanic{v: w.nilPanic()})
		}
		panic(simPanic{v: v})
	case iSend:
		w.chanSend(g, fr.get(in.a), fr.get(in.b))
	case iRecv:
		v, ok := w.chanRecv(g, fr.get(in.a), in.ti)
		if in.commaOk {
			fr.env[in.dst] = Value{P: Tuple{v, mkBool(ok)}}
		} else {
			fr.env[in.dst] = v
		}
	case iSelect:
		fr.env[in.dst] = w.doSelect(fr, g, in)
	default:
		panic(unsupported(fmt.Sprintf("instruction %v", in.src)))
	}
}

func (w *Worker) nilPanic() Value {
	if w.sh.panicNilT != nil {
		c := new(Value)
		*c = tinfo(w.sh.panicNilT).zero()
		return Value{P: &Iface{T: types.NewPointer(w.sh.panicNilT), V: Value{P: c}}}
	}
	return w.rtError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
}

// resolve evaluates the callee and arguments of a call-like instruction (not builtins).
func (w *Worker) resolve(fr *frame, in *instr) (fn *fnCode, fv []Value, nat func(w *Worker, g *G, args []Value) Value, args []Value) {
	cc := in.x.(*ssa.CallCommon)
	if cc.IsInvoke() {
		r := fr.get(in.a)
		ifc, _ := r.P.(*Iface)
		if ifc == nil {
			if r.P != nil {
				panic(unsupported(fmt.Sprintf("invoke on %T", r.P)))
			}
			w.nilDeref()
		}
		fn = w.method(ifc.T, cc.Method)
		args = make([]Value, 0, len(in.args)+1)
		args = append(args, ifc.V)
		for _, a := range in.args {
			args = append(args, fr.get(a))
		}
		return
	}
	args = make([]Value, 0, len(in.args))
	for _, a := range in.args {
		args = append(args, fr.get(a))
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		return w.code(f), nil, nil, args
	}
	switch f := fr.get(in.a).P.(type) {
	case *Closure:
		if f.native != nil {
			return nil, nil, f.native, args
		}
		return w.code(f.fn), f.fv, nil, args
	case nil:
		w.nilDeref()
	default:
		panic(unsupported(fmt.Sprintf("call of %T", f)))
	}
	return
}

func (w *Worker) doCall(fr *frame, g *G, in *instr) Value {
	cc := in.x.(*ssa.CallCommon)
	if !cc.IsInvoke() {
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			var tmp [4]Value
			args := tmp[:0]
			for _, a := range in.args {
				args = append(args, fr.get(a))
			}
			return w.builtin(fr, b, cc, args)
		}
	}
	fn, fv, nat, args := w.resolve(fr, in)
	if nat != nil {
		return nat(w, g, args)
	}
	return w.call(g, fn, args, fv)
}

func (w *Worker) method(t types.Type, m *types.Func) *fnCode {
	k := methKey{tinfo(t), m}
	if c := w.meths[k]; c != nil {
		return c
	}
	f := w.sh.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.String()))
	}
	c := w.code(f)
	w.meths[k] = c
	return c
}

type methKey struct {
	t *TInfo
	m *types.Func
}

// findMethod looks a method up by name; nil if there is none.
func (w *Worker) findMethod(t types.Type, name string) *ssa.Function {
	ms := w.sh.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj(); f.Name() == name && f.Exported() {
			return w.sh.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (w *Worker) builtin(fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	g := fr.g
	switch b.Name() {
	case "len":
		return w.lenOf(tinfo(cc.Args[0].Type()), args[0])
	case "cap":
		switch x := args[0].P.(type) {
		case nil:
			return Value{}
		case *SliceV:
			return mkInt(x.cap)
		case *ChanV:
			return mkInt(x.cap)
		case *Agg:
			return mkInt(len(x.F))
		case *Value:
			return mkInt(len(x.P.(*Agg).F))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if tinfo(cc.Args[1].Type()).k == KString {
			return w.appendVals(g, tinfo(et), args[0], strBytes(args[1]))
		}
		s, _ := args[1].P.(*SliceV)
		if s == nil || s.len == 0 {
			return args[0]
		}
		if w.races {
			w.raceSlice(g, s, 0, s.len, false)
		}
		return w.appendVals(g, tinfo(et), args[0], s.A.F[s.off:s.off+s.len])
	case "copy":
		d, _ := args[0].P.(*SliceV)
		var src []Value
		if tinfo(cc.Args[1].Type()).k == KString {
			src = strBytes(args[1])
		} else if s, _ := args[1].P.(*SliceV); s != nil {
			src = s.A.F[s.off : s.off+s.len]
			if w.races {
				w.raceSlice(g, s, 0, s.len, false)
			}
		}
		if d == nil {
			return mkInt(0)
		}
		n := min(d.len, len(src))
		if w.races {
			w.raceSlice(g, d, 0, n, true)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.storeCell(&d.A.F[d.off+i], tmp[i])
		}
		return mkInt(n)
	case "delete":
		m, _ := args[0].P.(*MapV)
		if m == nil {
			return Value{}
		}
		w.mapDelete(g, m, args[1])
		return Value{}
	case "close":
		w.chanClose(g, args[0])
		return Value{}
	case "panic":
		panic(simPanic{v: args[0]})
	case "recover":
		return w.doRecover(fr)
	case "print", "println":
		return Value{}
	case "Sizeof":
		return mkInt(int(types.SizesFor("gc", "amd64").Sizeof(cc.Args[0].Type())))
	case "Alignof":
		return mkInt(int(types.SizesFor("gc", "amd64").Alignof(cc.Args[0].Type())))
	case "min", "max":
		ti := tinfo(cc.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			var c *Term
			switch ti.k {
			case KInt:
				x, y := w.term(a, ti.sort), w.term(r, ti.sort)
				if b.Name() == "max" {
					x, y = y, x
				}
				if ti.signed {
					c = w.ar.SLt(x, y)
				} else {
					c = w.ar.ULt(x, y)
				}
				r = fromTerm(w.ar.Ite(c, w.term(a, ti.sort), w.term(r, ti.sort)))
			case KFloat:
				if a.P != nil || r.P != nil {
					r = fromTerm(w.ar.FMinMax(w.term(r, ti.sort), w.term(a, ti.sort), b.Name() == "max"))
				} else if b.Name() == "max" {
					r.U = fbits(ti.sort, math.Max(fval(ti.sort, a.U), fval(ti.sort, r.U)))
				} else {
					r.U = fbits(ti.sort, math.Min(fval(ti.sort, a.U), fval(ti.sort, r.U)))
				}
			case KString:
				x, y := a, r
				if b.Name() == "max" {
					x, y = y, x
				}
				if w.branch(w.strLess(x, y)) {
					r = a
				}
			}
		}
		return r
	case "clear":
		switch x := args[0].P.(type) {
		case *MapV:
			w.mapClear(g, x)
		case *SliceV:
			ti := tinfo(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := 0; i < x.len; i++ {
				w.storeCell(&x.A.F[x.off+i], ti.zero())
			}
		}
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(int64(w.conc(args[1], 64)))
		if n == 0 {
			return Value{}
		}
		return bytesToStr(w.ptrRange(args[0], n))
	case "StringData":
		bs := strBytes(args[0])
		if len(bs) == 0 {
			return Value{}
		}
		cp := make([]Value, len(bs))
		copy(cp, bs)
		a := &Agg{cp}
		w.ptrOwner[&cp[0]] = ownerRef{a, 0}
		return Value{P: &cp[0]}
	case "SliceData":
		s, _ := args[0].P.(*SliceV)
		if s == nil {
			return Value{}
		}
		if s.cap == 0 {
			return Value{P: new(Value)}
		}
		p := &s.A.F[s.off]
		w.ptrOwner[p] = ownerRef{s.A, s.off}
		return Value{P: p}
	case "Slice":
		n := int(int64(w.conc(args[1], 64)))
		if args[0].P == nil {
			return Value{}
		}
		if p, ok := args[0].P.(*Value); ok {
			if o, ok := w.ptrOwner[p]; ok {
				return Value{P: &SliceV{A: o.a, off: o.off, len: n, cap: n}}
			}
			if a, ok := p.P.(*Agg); ok && len(a.F) >= n && n > 1 {
				return Value{P: &SliceV{A: a, len: n, cap: n}}
			}
			return Value{P: &SliceV{A: &Agg{unsafe.Slice(p, n)}, len: n, cap: n}}
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

type ownerRef struct {
	a   *Agg
	off int
}

func (w *Worker) ptrRange(p Value, n int) []Value {
	c, ok := p.P.(*Value)
	if !ok {
		panic(unsupported("unsafe.String pointer"))
	}
	if o, ok := w.ptrOwner[c]; ok {
		return o.a.F[o.off : o.off+n]
	}
	// the address of an element: the cells of an array lie next to each other
	return unsafe.Slice(c, n)
}

func (w *Worker) doRecover(fr *frame) Value {
	// fr is the deferred function; its caller is the frame running its defers
	c := fr.caller
	if c != nil && c.panicking && !fr.panicking {
		c.panicking = false
		v := c.pv.v
		return v
	}
	return Value{}
}

func (w *Worker) lenOf(ti *TInfo, v Value) Value {
	switch x := v.P.(type) {
	case nil:
		if ti.k == KPtr { // pointer to array
			return mkInt(int(ti.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
		return Value{}
	case string:
		return mkInt(len(x))
	case *SymStr:
		return mkInt(len(x.B))
	case *SliceV:
		return mkInt(x.len)
	case *MapV:
		return mkInt(x.live)
	case *ChanV:
		return mkInt(len(x.buf))
	case *Agg:
		return mkInt(len(x.F))
	case *Value:
		return mkInt(len(x.P.(*Agg).F))
	}
	panic(unsupported(fmt.Sprintf("len of %T", v.P)))
}

func (w *Worker) makeSlice(et *TInfo, n, c int) Value {
	f := make([]Value, c)
	if et.agg {
		for i := range f {
			f[i] = et.zero()
		}
	}
	return Value{P: &SliceV{A: &Agg{f}, len: n, cap: c}}
}

func (w *Worker) appendVals(g *G, et *TInfo, dst Value, src []Value) Value {
	d, _ := dst.P.(*SliceV)
	if d == nil {
		d = &SliceV{A: &Agg{}}
	}
	n := d.len + len(src)
	if n <= d.cap {
		if w.races {
			w.raceSlice(g, &SliceV{A: d.A, off: d.off, len: n, cap: d.cap}, d.len, n, true)
		}
		tmp := src
		if et.agg || len(src) > 0 && d.off+d.len < len(d.A.F) && &d.A.F[d.off+d.len] != &src[0] {
			tmp = make([]Value, len(src))
			for i := range src {
				tmp[i] = copyVal(src[i])
			}
		}
		for i := range tmp {
			w.storeCell(&d.A.F[d.off+d.len+i], tmp[i])
		}
		return Value{P: &SliceV{A: d.A, off: d.off, len: n, cap: d.cap}}
	}
	nc := growCap(d.cap, n, et)
	if w.races {
		w.raceSlice(g, d, 0, d.len, false)
	}
	f := make([]Value, nc)
	for i := 0; i < d.len; i++ {
		f[i] = copyVal(d.A.F[d.off+i])
	}
	for i := range src {
		f[d.len+i] = copyVal(src[i])
	}
	if et.agg {
		for i := n; i < nc; i++ {
			f[i] = et.zero()
		}
	}
	return Value{P: &SliceV{A: &Agg{f}, len: n, cap: nc}}
}

func growCap(old, n int, et *TInfo) int {
	nc := old
	if n > 2*old {
		nc = n
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < n {
			nc += (nc + 3*256) / 4
		}
	}
	if et.k == KInt && et.sort == 8 {
		for _, c := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048} {
			if nc <= c {
				return c
			}
		}
	}
	return nc
}

// ---- indexing ----

func (w *Worker) idxTerm(ti *TInfo, v Value) *Term {
	t := w.term(v, ti.sort)
	if ti.signed {
		return w.ar.SExt(t, 64)
	}
	return w.ar.ZExt(t, 64)
}

// checkIdx returns the index if concrete, else asserts bounds by branching.
func (w *Worker) checkIdx(ti *TInfo, v Value, n int) (int, *Term) {
	if v.P == nil {
		var i int64
		if ti.signed {
			i = sext(v.U, ti.sort)
		} else {
			i = int64(v.U)
		}
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := w.idxTerm(ti, v)
	in := w.ar.ULt(t, w.ar.BV(uint64(n), 64))
	if !w.branch(in) {
		w.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return -1, t
}

func (w *Worker) indexAddr(in *instr, x, i Value) Value {
	var f []Value
	switch a := x.P.(type) {
	case nil:
		if in.ti.k == KSlice {
			w.checkIdx(in.ti2, i, 0)
		}
		w.nilDeref()
	case *SliceV:
		f = a.A.F[a.off : a.off+a.len]
	case *Value:
		f = a.P.(*Agg).F
	default:
		panic(unsupported(fmt.Sprintf("index of %T", x.P)))
	}
	k, t := w.checkIdx(in.ti2, i, len(f))
	if t == nil {
		return Value{P: &f[k]}
	}
	et := in.x.(*TInfo)
	if et.scalar() && len(f) <= 512 {
		return Value{P: &SymPtr{F: f, idx: t, esort: et.sort}}
	}
	return Value{P: &f[w.concTerm(t)]}
}

func (w *Worker) index(in *instr, x, i Value) Value {
	if in.ti.k == KString {
		n := strLen(x)
		k, t := w.checkIdx(in.ti2, i, n)
		if t == nil {
			return strAt(x, k)
		}
		return w.symLoad(&SymPtr{F: strBytes(x), idx: t, esort: 8})
	}
	a := x.P.(*Agg)
	k, t := w.checkIdx(in.ti2, i, len(a.F))
	if t == nil {
		return a.F[k]
	}
	if in.ti.elem != nil && in.ti.elem.scalar() && len(a.F) <= 512 {
		return w.symLoad(&SymPtr{F: a.F, idx: t, esort: in.ti.elem.sort})
	}
	return a.F[w.concTerm(t)]
}

func (w *Worker) slice(in *instr, fr *frame) Value {
	x := fr.get(in.a)
	opt := func(o int32, def int) int {
		if o == math.MinInt32 {
			return def
		}
		v := fr.get(o)
		return int(int64(w.conc(v, 64)))
	}
	switch in.ti.k {
	case KString:
		n := strLen(x)
		lo := opt(in.b, 0)
		hi := opt(in.c, n)
		if hi < 0 || hi > n {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(x, lo, hi)
	}
	var a *Agg
	off, ln, cp := 0, 0, 0
	switch s := x.P.(type) {
	case nil:
		if in.ti.k == KPtr {
			w.nilDeref()
		}
	case *SliceV:
		a, off, ln, cp = s.A, s.off, s.len, s.cap
	case *Value:
		a = s.P.(*Agg)
		ln, cp = len(a.F), len(a.F)
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x.P)))
	}
	lo := opt(in.b, 0)
	hi := opt(in.c, ln)
	mx := opt(in.d, cp)
	if mx < 0 || mx > cp {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, cp))
	}
	if hi < 0 || hi > mx {
		if in.d == math.MinInt32 {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, cp))
		}
		w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d:%d]", hi, mx))
	}
	if lo < 0 || lo > hi {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if a == nil {
		return Value{}
	}
	return Value{P: &SliceV{A: a, off: off + lo, len: hi - lo, cap: mx - lo}}
}

// ---- operators ----

func (w *Worker) unop(in *instr, a Value) Value {
	switch in.tok {
	case token.NOT:
		if a.P == nil {
			return Value{U: a.U ^ 1}
		}
		return fromTerm(w.ar.Not(a.P.(*Term)))
	case token.SUB:
		if in.ti.k == KFloat {
			return fromTerm(w.ar.F1(OFNeg, in.ti.sort, w.term(a, in.ti.sort)))
		}
		if a.P == nil {
			return Value{U: -a.U & mask(in.ti.sort)}
		}
		return fromTerm(w.ar.Neg(a.P.(*Term)))
	case token.XOR:
		if a.P == nil {
			return Value{U: ^a.U & mask(in.ti.sort)}
		}
		return fromTerm(w.ar.BNot(a.P.(*Term)))
	}
	panic(unsupported("unary " + in.tok.String()))
}

func (w *Worker) binop(in *instr, a, b Value) Value {
	ti := in.ti
	if a.P == nil && b.P == nil {
		switch ti.k {
		case KInt:
			return w.binInt(in, a.U, b.U)
		case KFloat:
			return w.binFloat(in.tok, ti.sort, a.U, b.U)
		case KBool:
			switch in.tok {
			case token.EQL:
				return mkBool(a.U == b.U)
			case token.NEQ:
				return mkBool(a.U != b.U)
			case token.AND, token.LAND:
				return Value{U: a.U & b.U}
			case token.OR, token.LOR:
				return Value{U: a.U | b.U}
			}
		}
	}
	switch in.tok {
	case token.EQL, token.NEQ:
		t := w.eqMixed(in, a, b)
		if in.tok == token.NEQ {
			t = w.ar.Not(t)
		}
		return fromTerm(t)
	}
	ar := w.ar
	switch ti.k {
	case KBool:
		x, y := w.boolTerm(a), w.boolTerm(b)
		switch in.tok {
		case token.AND, token.LAND:
			return fromTerm(ar.And(x, y))
		case token.OR, token.LOR:
			return fromTerm(ar.Or(x, y))
		}
	case KString:
		switch in.tok {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return fromTerm(w.strLess(a, b))
		case token.GTR:
			return fromTerm(w.strLess(b, a))
		case token.LEQ:
			return fromTerm(ar.Not(w.strLess(b, a)))
		case token.GEQ:
			return fromTerm(ar.Not(w.strLess(a, b)))
		}
	case KFloat:
		x, y := w.term(a, ti.sort), w.term(b, ti.sort)
		switch in.tok {
		case token.ADD:
			return fromTerm(ar.FP(OFAdd, x, y))
		case token.SUB:
			return fromTerm(ar.FP(OFSub, x, y))
		case token.MUL:
			return fromTerm(ar.FP(OFMul, x, y))
		case token.QUO:
			return fromTerm(ar.FP(OFDiv, x, y))
		case token.LSS:
			return fromTerm(ar.FCmp(OFLt, x, y))
		case token.LEQ:
			return fromTerm(ar.FCmp(OFLe, x, y))
		case token.GTR:
			return fromTerm(ar.FCmp(OFLt, y, x))
		case token.GEQ:
			return fromTerm(ar.FCmp(OFLe, y, x))
		}
	case KInt:
		x := w.term(a, ti.sort)
		switch in.tok {
		case token.SHL, token.SHR:
			y := w.term(b, in.ti2.sort)
			if in.ti2.signed {
				if w.branch(ar.SLt(y, ar.BV(0, y.sort))) {
					w.rtPanic("negative shift amount")
				}
			}
			// bring the count to the operand width, saturating
			var cnt *Term
			if y.sort <= x.sort {
				cnt = ar.ZExt(y, x.sort)
			} else {
				big := ar.ULe(ar.BV(uint64(x.sort), y.sort), y)
				cnt = ar.Ite(big, ar.BV(uint64(x.sort), x.sort), ar.Extract(y, int(x.sort)-1, 0))
			}
			if in.tok == token.SHL {
				return fromTerm(ar.Shl(x, cnt))
			}
			if ti.signed {
				return fromTerm(ar.AShr(x, cnt))
			}
			return fromTerm(ar.LShr(x, cnt))
		}
		y := w.term(b, ti.sort)
		switch in.tok {
		case token.ADD:
			return fromTerm(ar.Add(x, y))
		case token.SUB:
			return fromTerm(ar.Sub(x, y))
		case token.MUL:
			return fromTerm(ar.Mul(x, y))
		case token.QUO, token.REM:
			if w.branch(ar.Eq(y, ar.BV(0, y.sort))) {
				w.rtPanic("integer divide by zero")
			}
			switch {
			case in.tok == token.QUO && ti.signed:
				return fromTerm(ar.SDiv(x, y))
			case in.tok == token.QUO:
				return fromTerm(ar.UDiv(x, y))
			case ti.signed:
				return fromTerm(ar.SRem(x, y))
			default:
				return fromTerm(ar.URem(x, y))
			}
		case token.AND:
			return fromTerm(ar.BAnd(x, y))
		case token.OR:
			return fromTerm(ar.BOr(x, y))
		case token.XOR:
			return fromTerm(ar.BXor(x, y))
		case token.AND_NOT:
			return fromTerm(ar.BAnd(x, ar.BNot(y)))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if in.tok == token.GTR || in.tok == token.GEQ {
				x, y = y, x
			}
			lt := in.tok == token.LSS || in.tok == token.GTR
			switch {
			case ti.signed && lt:
				return fromTerm(ar.SLt(x, y))
			case ti.signed:
				return fromTerm(ar.SLe(x, y))
			case lt:
				return fromTerm(ar.ULt(x, y))
			default:
				return fromTerm(ar.ULe(x, y))
			}
		}
	}
	panic(unsupported(fmt.Sprintf("binary %s on %s (%T,%T)", in.tok, ti.t, a.P, b.P)))
}

func (w *Worker) eqMixed(in *instr, a, b Value) *Term {
	t1, t2 := in.ti, in.ti2
	if t1.k == KIface && t2.k != KIface {
		x, _ := a.P.(*Iface)
		if x == nil || tinfo(x.T) != t2 {
			return w.ar.fals
		}
		return w.eqTerm(t2, x.V, b)
	}
	if t2.k == KIface && t1.k != KIface {
		y, _ := b.P.(*Iface)
		if y == nil || tinfo(y.T) != t1 {
			return w.ar.fals
		}
		return w.eqTerm(t1, a, y.V)
	}
	return w.eqTerm(t1, a, b)
}

func (w *Worker) binInt(in *instr, a, b uint64) Value {
	ti := in.ti
	s := ti.sort
	m := mask(s)
	switch in.tok {
	case token.ADD:
		return Value{U: (a + b) & m}
	case token.SUB:
		return Value{U: (a - b) & m}
	case token.MUL:
		return Value{U: (a * b) & m}
	case token.QUO, token.REM:
		if b == 0 {
			w.rtPanic("integer divide by zero")
		}
		if ti.signed {
			x, y := sext(a, s), sext(b, s)
			if y == -1 {
				if in.tok == token.QUO {
					return Value{U: uint64(-x) & m}
				}
				return Value{}
			}
			if in.tok == token.QUO {
				return Value{U: uint64(x/y) & m}
			}
			return Value{U: uint64(x%y) & m}
		}
		if in.tok == token.QUO {
			return Value{U: a / b}
		}
		return Value{U: a % b}
	case token.AND:
		return Value{U: a & b}
	case token.OR:
		return Value{U: a | b}
	case token.XOR:
		return Value{U: a ^ b}
	case token.AND_NOT:
		return Value{U: a &^ b}
	case token.SHL, token.SHR:
		if in.ti2.signed && sext(b, in.ti2.sort) < 0 {
			w.rtPanic("negative shift amount")
		}
		if in.tok == token.SHL {
			if b >= uint64(s) {
				return Value{}
			}
			return Value{U: (a << b) & m}
		}
		if ti.signed {
			if b >= uint64(s) {
				b = uint64(s) - 1
			}
			return Value{U: uint64(sext(a, s)>>b) & m}
		}
		if b >= uint64(s) {
			return Value{}
		}
		return Value{U: a >> b}
	case token.EQL:
		return mkBool(a == b)
	case token.NEQ:
		return mkBool(a != b)
	}
	if ti.signed {
		x, y := sext(a, s), sext(b, s)
		switch in.tok {
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
	}
	switch in.tok {
	case token.LSS:
		return mkBool(a < b)
	case token.LEQ:
		return mkBool(a <= b)
	case token.GTR:
		return mkBool(a > b)
	case token.GEQ:
		return mkBool(a >= b)
	}
	panic(unsupported("int op " + in.tok.String()))
}

func (w *Worker) binFloat(tok token.Token, s Sort, a, b uint64) Value {
	x, y := fval(s, a), fval(s, b)
	r := func(f float64) Value { return Value{U: fbits(s, f)} }
	if s == SFP32 {
		p, q := float32(x), float32(y)
		switch tok {
		case token.ADD:
			return r(float64(p + q))
		case token.SUB:
			return r(float64(p - q))
		case token.MUL:
			return r(float64(p * q))
		case token.QUO:
			return r(float64(p / q))
		}
	}
	switch tok {
	case token.ADD:
		return r(x + y)
	case token.SUB:
		return r(x - y)
	case token.MUL:
		return r(x * y)
	case token.QUO:
		return r(x / y)
	case token.EQL:
		return mkBool(x == y)
	case token.NEQ:
		return mkBool(x != y)
	case token.LSS:
		return mkBool(x < y)
	case token.LEQ:
		return mkBool(x <= y)
	case token.GTR:
		return mkBool(x > y)
	case token.GEQ:
		return mkBool(x >= y)
	}
	panic(unsupported("float op " + tok.String()))
}

func (w *Worker) convert(to, from *TInfo, v Value) Value {
	ar := w.ar
	switch {
	case to.k == KInt && from.k == KInt:
		if v.P == nil {
			if from.signed {
				return Value{U: uint64(sext(v.U, from.sort)) & mask(to.sort)}
			}
			return Value{U: v.U & mask(to.sort)}
		}
		t := v.P.(*Term)
		switch {
		case to.sort == from.sort:
			return v
		case to.sort < from.sort:
			return fromTerm(ar.Extract(t, int(to.sort)-1, 0))
		case from.signed:
			return fromTerm(ar.SExt(t, to.sort))
		default:
			return fromTerm(ar.ZExt(t, to.sort))
		}
	case to.k == KFloat && from.k == KInt:
		t := w.term(v, from.sort)
		if from.signed {
			return fromTerm(ar.F1(OFFromS, to.sort, t))
		}
		return fromTerm(ar.F1(OFFromU, to.sort, t))
	case to.k == KInt && from.k == KFloat:
		t := w.term(v, from.sort)
		op := OFToS
		if !to.signed {
			op = OFToU
		}
		if to.sort < 64 { // conversions go through a wider register
			x := ar.F1(OFToS, 64, t)
			return fromTerm(ar.Extract(x, int(to.sort)-1, 0))
		}
		return fromTerm(ar.F1(op, to.sort, t))
	case to.k == KFloat && from.k == KFloat:
		if to.sort == from.sort {
			return v
		}
		return fromTerm(ar.F1(OFToF, to.sort, w.term(v, from.sort)))
	case to.k == KString && from.k == KInt:
		if t, ok := v.P.(*Term); ok {
			if from.sort > 32 && w.branch(ar.ULt(ar.BV(utf8.MaxRune, from.sort), t)) {
				return mkString(string(utf8.RuneError))
			}
			switch {
			case from.sort > 32:
				t = ar.Extract(t, 31, 0)
			case from.signed:
				t = ar.SExt(t, 32)
			default:
				t = ar.ZExt(t, 32)
			}
			return bytesToStr(w.encodeRune(fromTerm(t)))
		}
		var r rune = utf8.RuneError
		u := w.conc(v, from.sort)
		x := int64(u)
		if from.signed {
			x = sext(u, from.sort)
		}
		if x >= 0 && x <= utf8.MaxRune {
			r = rune(x)
		}
		return mkString(string(r))
	case to.k == KString && from.k == KSlice:
		s, _ := v.P.(*SliceV)
		if s == nil {
			return Value{}
		}
		et := tinfo(from.t.Underlying().(*types.Slice).Elem())
		if et.sort == 8 {
			return bytesToStr(s.A.F[s.off : s.off+s.len])
		}
		var out []Value
		for i := 0; i < s.len; i++ {
			out = append(out, w.encodeRune(s.A.F[s.off+i])...)
		}
		return bytesToStr(out)
	case to.k == KSlice && from.k == KString:
		et := tinfo(to.t.Underlying().(*types.Slice).Elem())
		if et.sort == 8 {
			b := strBytes(v)
			f := make([]Value, len(b), len(b))
			copy(f, b)
			return Value{P: &SliceV{A: &Agg{f}, len: len(f), cap: len(f)}}
		}
		var f []Value
		for i := 0; i < strLen(v); {
			r, n := w.decodeRune(v, i)
			f = append(f, r)
			i += n
		}
		return Value{P: &SliceV{A: &Agg{f}, len: len(f), cap: len(f)}}
	case to.k == KPtr && from.k == KUnsafe, to.k == KUnsafe && from.k == KPtr, to.k == KUnsafe && from.k == KUnsafe:
		return v
	case to.k == KUnsafe && from.k == KInt, to.k == KInt && from.k == KUnsafe:
		if v.P == nil {
			return v
		}
		if to.k == KInt { // address of an object: any non-zero number
			return Value{U: 0xc000000000, P: nil}
		}
		panic(unsupported("unsafe pointer conversion"))
	case to.k == from.k && (to.k == KString || to.k == KSlice || to.k == KPtr || to.k == KBool || to.k == KMap || to.k == KChan || to.k == KFunc || to.k == KStruct || to.k == KArray):
		return v
	case to.k == KArray && from.k == KSlice:
		s, _ := v.P.(*SliceV)
		n := 0
		if s != nil {
			n = s.len
		}
		if n < to.n {
			w.rtPanic("cannot convert slice to array: length too small")
		}
		f := make([]Value, to.n)
		for i := range f {
			f[i] = copyVal(s.A.F[s.off+i])
		}
		return Value{P: &Agg{f}}
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", from.t, to.t)))
}

// encodeRune gives the UTF-8 bytes of a rune.
func (w *Worker) encodeRune(r Value) []Value {
	if r.P == nil {
		var out []Value
		for _, b := range []byte(string(rune(int32(uint32(r.U))))) {
			out = append(out, Value{U: uint64(b)})
		}
		return out
	}
	ar := w.ar
	t := r.P.(*Term)
	if w.branch(ar.ULt(t, ar.BV(0x80, 32))) {
		return []Value{fromTerm(ar.Extract(t, 7, 0))}
	}
	if w.branch(ar.ULt(t, ar.BV(0x800, 32))) {
		return []Value{
			fromTerm(ar.BOr(ar.BV(0xC0, 8), ar.Extract(ar.LShr(t, ar.BV(6, 32)), 7, 0))),
			fromTerm(ar.BOr(ar.BV(0x80, 8), ar.BAnd(ar.Extract(t, 7, 0), ar.BV(0x3f, 8))))}
	}
	// the others, and the replacement character for what is no character
	bt := func(lead uint64, sh uint64, m uint64) Value {
		return fromTerm(ar.BOr(ar.BV(lead, 8), ar.BAnd(ar.Extract(ar.LShr(t, ar.BV(sh, 32)), 7, 0), ar.BV(m, 8))))
	}
	if w.branch(ar.And(ar.ULe(ar.BV(0x10000, 32), t), ar.ULe(t, ar.BV(0x10FFFF, 32)))) {
		return []Value{bt(0xF0, 18, 0x07), bt(0x80, 12, 0x3f), bt(0x80, 6, 0x3f), bt(0x80, 0, 0x3f)}
	}
	if w.branch(ar.Or(ar.ULt(t, ar.BV(0xD800, 32)), ar.And(ar.ULt(ar.BV(0xDFFF, 32), t), ar.ULt(t, ar.BV(0x10000, 32))))) {
		return []Value{bt(0xE0, 12, 0x0f), bt(0x80, 6, 0x3f), bt(0x80, 0, 0x3f)}
	}
	return []Value{{U: 0xEF}, {U: 0xBF}, {U: 0xBD}}
}

// decodeRune decodes one rune of a string at i.
func (w *Worker) decodeRune(s Value, i int) (Value, int) {
	if c, ok := strConc(s); ok {
		r, n := utf8.DecodeRuneInString(c[i:])
		return Value{U: uint64(uint32(r))}, n
	}
	b := strBytes(s)
	if b[i].P == nil {
		if b[i].U < 0x80 {
			return Value{U: b[i].U}, 1
		}
	} else {
		t := b[i].P.(*Term)
		if w.branch(w.ar.ULt(t, w.ar.BV(0x80, 8))) {
			return fromTerm(w.ar.ZExt(t, 32)), 1
		}
	}
	// multi-byte
	ar := w.ar
	at := func(j int) *Term { return w.term(b[j], 8) }
	in := func(j int, lo, hi uint64) bool {
		return j < len(b) && w.branch(ar.And(ar.ULe(ar.BV(lo, 8), at(j)), ar.ULe(at(j), ar.BV(hi, 8))))
	}
	bad := Value{U: 0xfffd}
	bits := func(j int, n uint64) *Term { return ar.ZExt(ar.BAnd(at(j), ar.BV(n, 8)), 32) }
	join := func(t *Term, j int) *Term { return ar.BOr(ar.Shl(t, ar.BV(6, 32)), bits(j, 0x3f)) }
	if !in(i, 0xc2, 0xf4) {
		return bad, 1
	}
	if in(i, 0xc2, 0xdf) {
		if !in(i+1, 0x80, 0xbf) {
			return bad, 1
		}
		return fromTerm(join(bits(i, 0x1f), i+1)), 2
	}
	if in(i, 0xe0, 0xef) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(i, 0xe0, 0xe0) {
			lo = 0xa0
		} else if in(i, 0xed, 0xed) {
			hi = 0x9f
		}
		if !in(i+1, lo, hi) || !in(i+2, 0x80, 0xbf) {
			return bad, 1
		}
		return fromTerm(join(join(bits(i, 0x0f), i+1), i+2)), 3
	}
	lo, hi := uint64(0x80), uint64(0xbf)
	if in(i, 0xf0, 0xf0) {
		lo = 0x90
	} else if in(i, 0xf4, 0xf4) {
		hi = 0x8f
	}
	if !in(i+1, lo, hi) || !in(i+2, 0x80, 0xbf) || !in(i+3, 0x80, 0xbf) {
		return bad, 1
	}
	return fromTerm(join(join(join(bits(i, 0x07), i+1), i+2), i+3)), 4
}

// ---- interfaces ----

func (w *Worker) typeAssert(in *instr, x Value) Value {
	ifc, _ := x.P.(*Iface)
	if x.P != nil && ifc == nil {
		panic(unsupported(fmt.Sprintf("type assertion on %T", x.P)))
	}
	ok := false
	var v Value
	if ifc != nil {
		if in.ti.k == KIface {
			if w.implements(ifc.T, in.ti.t) {
				ok, v = true, x
			}
		} else if tinfo(ifc.T) == in.ti {
			ok, v = true, ifc.V
		}
	}
	if in.commaOk {
		if !ok {
			v = in.ti.zero()
		}
		return Value{P: Tuple{v, mkBool(ok)}}
	}
	if !ok {
		have := "nil"
		if ifc != nil {
			have = typeString(ifc.T)
		}
		w.typeAssertPanic(in, have)
	}
	return v
}

func (w *Worker) typeAssertPanic(in *instr, have string) {
	w.rtPanicRaw(fmt.Sprintf("interface conversion: %s is %s, not %s", typeString(in.x.(types.Type)), have, typeString(in.ti.t)))
}

// rtPanicRaw panics with a runtime error whose text has no "runtime error: " prefix.
func (w *Worker) rtPanicRaw(msg string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.sh.plainErrT != nil {
		panic(simPanic{v: Value{P: &Iface{T: w.sh.plainErrT, V: mkString(msg)}}, rt: true})
	}
	panic(simPanic{v: w.rtError(msg), rt: true})
}

type implKey struct {
	t *TInfo
	i *TInfo
}

func (w *Worker) implements(t types.Type, iface types.Type) bool {
	k := implKey{tinfo(t), tinfo(iface)}
	if r, ok := w.impl[k]; ok {
		return r
	}
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	w.impl[k] = r
	return r
}

// conc makes a scalar concrete, forking over its feasible values.
func (w *Worker) conc(v Value, s Sort) uint64 {
	if v.P == nil {
		return v.U
	}
	t, ok := v.P.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("scalar expected, have %T", v.P)))
	}
	return w.concTerm(t)
}

func internalErr(r any) *pathEnd {
	return &pathEnd{"unsupported", fmt.Sprintf("internal: %v\n%s", r, debug.Stack())}
}
