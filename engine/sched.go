package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gQuiesce
	gDone
)

// G is one simulated goroutine; it runs on its own native goroutine, one at a time.
type G struct {
	id      int
	wake    chan struct{}
	state   gstate
	fr      *frame
	w       *Worker
	why     string
	sel     *selWait
	started bool
	fn      *fnCode
	fv      []Value
	args    []Value
	nat     func(w *Worker, g *G, args []Value) Value
	vc      vclock
	main    bool
	exit    bool
}

type waiter struct {
	g    *G
	sel  *selWait
	idx  int   // select case
	val  Value // value to send
	send bool
}

// selWait is shared by all waiters of one blocking operation.
type selWait struct {
	done bool
	idx  int
	val  Value
	ok   bool
	vc   vclock
}

type ChanV struct {
	id     int
	cap    int
	buf    []Value
	bufvc  []vclock
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	et     *TInfo
	vc     vclock // closing
	rvc    []vclock
}

func (w *Worker) newChan(n int, et *TInfo) *ChanV {
	w.chanIds++
	return &ChanV{id: w.chanIds, cap: n, et: et}
}

func (w *Worker) spawn(g *G, fn *fnCode, fv, args []Value, nat func(w *Worker, g *G, args []Value) Value) *G {
	if w.inInit > 0 {
		panic(unsupported("go statement in package initialisation"))
	}
	n := &G{id: len(w.gs), w: w, fn: fn, fv: fv, args: append([]Value{}, args...), nat: nat, wake: make(chan struct{}, 1), state: gRunnable}
	if w.races && g != nil {
		n.vc = g.vc.clone()
		n.vc.tick(n.id)
		g.vc.tick(g.id)
	}
	w.gs = append(w.gs, n)
	w.runq = append(w.runq, n)
	if len(w.gs) > 1500 {
		panic(&pathEnd{"bound", "goroutine bound reached"})
	}
	w.schedPoint(g, "go")
	return n
}

func (w *Worker) startG(g *G) {
	g.started = true
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		<-g.wake
		defer func() {
			r := recover()
			g.state = gDone
			switch x := r.(type) {
			case nil:
			case killSig:
				return
			case *pathEnd:
				w.setEnd(x)
				w.wakeMain()
				return
			case simPanic:
				if x.exit {
					break
				}
				w.setEnd(w.uncaught(g, x))
				w.wakeMain()
				return
			default:
				w.setEnd(internalErr(r))
				w.wakeMain()
				return
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pe, ok := r.(*pathEnd); ok {
							w.setEnd(pe)
						} else if _, ok := r.(killSig); ok {
							return
						} else {
							w.setEnd(internalErr(r))
						}
						w.wakeMain()
					}
				}()
				if w.killed {
					return
				}
				n := w.pick()
				w.resume(n)
			}()
		}()
		if w.killed {
			panic(killSig{})
		}
		if g.nat != nil {
			g.nat(w, g, g.args)
		} else {
			w.call(g, g.fn, g.args, g.fv)
		}
	}()
}

func (w *Worker) setEnd(p *pathEnd) {
	if w.end == nil {
		w.end = p
	}
}

func (w *Worker) wakeMain() {
	w.killed = true
	select {
	case w.mainG.wake <- struct{}{}:
	default:
	}
}

func (w *Worker) resume(n *G) {
	n.state = gRunning
	w.cur = n
	if !n.started {
		w.startG(n)
	}
	n.wake <- struct{}{}
}

// block suspends g until somebody made it runnable and it was picked.
func (w *Worker) block(g *G, why string) {
	if w.inInit > 0 {
		panic(unsupported("blocking in package initialisation: " + why))
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	g.state = gBlocked
	g.why = why
	w.switchFrom(g)
}

func (w *Worker) switchFrom(g *G) {
	n := w.pick()
	if n == g {
		g.state = gRunning
		w.cur = g
		return
	}
	fr := g.fr
	w.resume(n)
	<-g.wake
	if w.killed {
		if g.main && w.end != nil {
			panic(w.end)
		}
		panic(killSig{})
	}
	g.fr = fr
}

func (w *Worker) ready(g *G) {
	if g.state == gBlocked || g.state == gQuiesce {
		g.state = gRunnable
		w.runq = append(w.runq, g)
	}
}

// pick chooses the next goroutine to run.
func (w *Worker) pick() *G {
	for {
		if n := len(w.runq); n > 0 {
			k := 0
			if n > 1 && w.exploreSched && w.switches < w.maxSwitch {
				w.switches++
				k = w.freeChoice(n, "schedule")
			}
			g := w.runq[k]
			w.runq = append(w.runq[:k:k], w.runq[k+1:]...)
			return g
		}
		// idle: timers that are due
		if t := w.nextTimer(); t != nil {
			due := w.timerDue(t)
			if due || w.quiescing == nil {
				w.fire(t)
				if w.exploreSched && w.now.P == nil {
					// all that are due at the same instant compete
					for t := w.nextTimer(); t != nil && t.when.P == nil && int64(t.when.U) <= int64(w.now.U); t = w.nextTimer() {
						w.fire(t)
					}
				}
				continue
			}
		}
		if w.quiescing != nil {
			g := w.quiescing
			w.quiescing = nil
			return g
		}
		panic(&pathEnd{"deadlock", w.blockedDump()})
	}
}

func (w *Worker) blockedDump() string {
	s := "all goroutines are blocked:"
	for _, g := range w.gs {
		if g.state == gBlocked {
			s += fmt.Sprintf(" g%d(%s%s)", g.id, g.why, w.where(g))
		}
	}
	return s
}

func (w *Worker) where(g *G) string {
	for fr := g.fr; fr != nil; fr = fr.caller {
		if fr.code != nil && fr.code.isRepo {
			return " in " + fr.code.name
		}
	}
	return ""
}

// quiesce lets everything else run until blocked without advancing the clock.
func (w *Worker) quiesce(g *G) {
	if w.quiescing != nil {
		panic(unsupported("two goroutines quiescing"))
	}
	w.quiescing = g
	g.state = gQuiesce
	g.why = "quiesce"
	w.switchFrom(g)
	g.state = gRunning
	if w.races {
		// as synctest.Wait, this synchronises with what all others did
		for _, x := range w.gs {
			if x != g && x.id >= 0 {
				g.vc.join(x.vc)
				x.vc.tick(x.id)
			}
		}
	}
}

// schedPoint is a possible preemption point before a synchronisation operation.
func (w *Worker) schedPoint(g *G, what string) {
	if !w.exploreSched || g == nil || w.inInit > 0 || w.spec > 0 || w.preempts >= w.maxPreempt || len(w.runq) == 0 {
		return
	}
	k := w.freeChoice(len(w.runq)+1, "preempt")
	if k == 0 {
		return
	}
	w.preempts++
	n := w.runq[k-1]
	w.runq = append(w.runq[:k-1:k-1], w.runq[k:]...)
	g.state = gRunnable
	w.runq = append(w.runq, g)
	fr := g.fr
	w.resume(n)
	<-g.wake
	if w.killed {
		if g.main && w.end != nil {
			panic(w.end)
		}
		panic(killSig{})
	}
	g.fr = fr
}

func (w *Worker) gosched(g *G) {
	if len(w.runq) == 0 {
		return
	}
	g.state = gRunnable
	w.runq = append(w.runq, g)
	w.switchFrom(g)
}

// ---- channels ----

func (w *Worker) chanOf(v Value) *ChanV {
	if v.P == nil {
		return nil
	}
	c, ok := v.P.(*ChanV)
	if !ok {
		panic(unsupported(fmt.Sprintf("channel value %T", v.P)))
	}
	return c
}

func pruneq(q []*waiter) []*waiter {
	for len(q) > 0 && q[0].sel.done {
		q = q[1:]
	}
	return q
}

// trySend attempts a send without blocking.
func (w *Worker) trySend(g *G, c *ChanV, v Value) bool {
	if c.closed {
		w.rtPanicPlain("send on closed channel")
	}
	c.recvq = pruneq(c.recvq)
	if len(c.recvq) > 0 {
		r := c.recvq[0]
		c.recvq = c.recvq[1:]
		r.sel.done, r.sel.idx, r.sel.val, r.sel.ok = true, r.idx, v, true
		if w.races {
			r.sel.vc = g.vc.clone()
			r.g.vc.join(g.vc)
			g.vc.join(r.g.vc) // unbuffered rendezvous
			g.vc.tick(g.id)
			r.g.vc.tick(r.g.id)
		}
		w.ready(r.g)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		if w.races {
			if len(c.rvc) > 0 && c.cap > 0 && len(c.buf) == c.cap {
				g.vc.join(c.rvc[len(c.rvc)-1])
			}
			c.bufvc = append(c.bufvc, g.vc.clone())
			g.vc.tick(g.id)
		}
		return true
	}
	return false
}

func (w *Worker) tryRecv(g *G, c *ChanV) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if w.races {
			if len(c.bufvc) > len(c.buf) { // else sent before race detection began
				g.vc.join(c.bufvc[0])
				c.bufvc = c.bufvc[1:]
			}
			c.rvc = append(c.rvc, g.vc.clone())
			g.vc.tick(g.id)
		}
		c.sendq = pruneq(c.sendq)
		if len(c.sendq) > 0 {
			s := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, s.val)
			s.sel.done, s.sel.idx = true, s.idx
			if w.races {
				s.g.vc.join(g.vc)
				c.bufvc = append(c.bufvc, s.g.vc.clone())
				s.g.vc.tick(s.g.id)
			}
			w.ready(s.g)
		}
		return v, true, true
	}
	c.sendq = pruneq(c.sendq)
	if len(c.sendq) > 0 {
		s := c.sendq[0]
		c.sendq = c.sendq[1:]
		s.sel.done, s.sel.idx = true, s.idx
		if w.races {
			g.vc.join(s.g.vc)
			s.g.vc.join(g.vc)
			g.vc.tick(g.id)
			s.g.vc.tick(s.g.id)
		}
		w.ready(s.g)
		return s.val, true, true
	}
	if c.closed {
		if w.races {
			g.vc.join(c.vc)
		}
		return c.et.zero(), false, true
	}
	return Value{}, false, false
}

func (w *Worker) guardInit(what string) {
	if w.inInit > 0 {
		panic(unsupported(what + " in package initialisation"))
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
}

func (w *Worker) chanSend(g *G, cv, v Value) {
	w.guardInit0("channel send")
	c := w.chanOf(cv)
	w.schedPoint(g, "send")
	if c == nil {
		for {
			w.block(g, "send on nil channel")
		}
	}
	if w.trySend(g, c, v) {
		return
	}
	sel := &selWait{}
	c.sendq = append(c.sendq, &waiter{g: g, sel: sel, val: v, send: true})
	for !sel.done {
		w.block(g, "chan send")
	}
	if sel.idx == -2 {
		w.rtPanicPlain("send on closed channel")
	}
}

func (w *Worker) chanRecv(g *G, cv Value, et *TInfo) (Value, bool) {
	w.guardInit0("channel receive")
	c := w.chanOf(cv)
	w.schedPoint(g, "recv")
	if c == nil {
		for {
			w.block(g, "receive on nil channel")
		}
	}
	if v, ok, done := w.tryRecv(g, c); done {
		return v, ok
	}
	sel := &selWait{}
	c.recvq = append(c.recvq, &waiter{g: g, sel: sel})
	for !sel.done {
		w.block(g, "chan receive")
	}
	if w.races && sel.vc != nil {
		g.vc.join(sel.vc)
	}
	return sel.val, sel.ok
}

func (w *Worker) chanClose(g *G, cv Value) {
	w.guardInit0("close")
	c := w.chanOf(cv)
	if c == nil {
		w.rtPanicPlain("close of nil channel")
	}
	w.schedPoint(g, "close")
	if c.closed {
		w.rtPanicPlain("close of closed channel")
	}
	c.closed = true
	if w.races {
		c.vc = g.vc.clone()
		g.vc.tick(g.id)
	}
	for _, r := range c.recvq {
		if !r.sel.done {
			r.sel.done, r.sel.idx, r.sel.val, r.sel.ok = true, r.idx, c.et.zero(), false
			r.sel.vc = c.vc
			w.ready(r.g)
		}
	}
	c.recvq = nil
	for _, s := range c.sendq {
		if !s.sel.done {
			s.sel.done, s.sel.idx = true, -2
			w.ready(s.g)
		}
	}
	c.sendq = nil
}

func (c *ChanV) canRecv() bool {
	c.sendq = pruneq(c.sendq)
	return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
}

func (c *ChanV) canSend() bool {
	c.recvq = pruneq(c.recvq)
	return c.closed || len(c.buf) < c.cap || len(c.recvq) > 0
}

func (w *Worker) doSelect(fr *frame, g *G, in *instr) Value {
	w.guardInit("select")
	s := in.x.(*ssa.Select)
	w.schedPoint(g, "select")
	n := len(s.States)
	chans := make([]*ChanV, n)
	var ready []int
	for i := range s.States {
		chans[i] = w.chanOf(fr.get(in.args[2*i]))
		if chans[i] == nil {
			continue
		}
		if s.States[i].Dir == types.SendOnly {
			if chans[i].canSend() {
				ready = append(ready, i)
			}
		} else if chans[i].canRecv() {
			ready = append(ready, i)
		}
	}
	nrecv := 0
	for i := range s.States {
		if s.States[i].Dir == types.RecvOnly {
			nrecv++
		}
	}
	result := func(idx int, val Value, ok bool) Value {
		t := Tuple{mkInt(idx), mkBool(ok)}
		for i := range s.States {
			if s.States[i].Dir == types.RecvOnly {
				if i == idx {
					t = append(t, val)
				} else {
					t = append(t, tinfo(s.States[i].Chan.Type().Underlying().(*types.Chan).Elem()).zero())
				}
			}
		}
		return Value{P: t}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && !w.firstReady {
			k = w.freeChoice(len(ready), "select")
		}
		i := ready[k]
		if s.States[i].Dir == types.SendOnly {
			if !w.trySend(g, chans[i], fr.get(in.args[2*i+1])) {
				panic(unsupported("select send raced"))
			}
			return result(i, Value{}, false)
		}
		v, ok, _ := w.tryRecv(g, chans[i])
		return result(i, v, ok)
	}
	if !s.Blocking {
		return result(-1, Value{}, false)
	}
	sel := &selWait{}
	for i := range s.States {
		if chans[i] == nil {
			continue
		}
		if s.States[i].Dir == types.SendOnly {
			chans[i].sendq = append(chans[i].sendq, &waiter{g: g, sel: sel, idx: i, val: fr.get(in.args[2*i+1]), send: true})
		} else {
			chans[i].recvq = append(chans[i].recvq, &waiter{g: g, sel: sel, idx: i})
		}
	}
	for !sel.done {
		w.block(g, "select")
	}
	if sel.idx == -2 {
		w.rtPanicPlain("send on closed channel")
	}
	if w.races && sel.vc != nil {
		g.vc.join(sel.vc)
	}
	return result(sel.idx, sel.val, sel.ok)
}

// ---- virtual time ----

type timerV struct {
	id     int
	when   Value // int64 ns since the Unix epoch
	period Value // 0: one-shot
	fn     func(w *Worker)
	active bool
}

func (w *Worker) i64(v Value) *Term { return w.term(v, 64) }

func (w *Worker) addTimer(when Value, period Value, fn func(w *Worker)) *timerV {
	w.timerIds++
	t := &timerV{id: w.timerIds, when: when, period: period, fn: fn, active: true}
	w.timers = append(w.timers, t)
	return t
}

func (w *Worker) delTimer(t *timerV) bool {
	if !t.active {
		return false
	}
	t.active = false
	for i, x := range w.timers {
		if x == t {
			w.timers = append(w.timers[:i:i], w.timers[i+1:]...)
			break
		}
	}
	return true
}

func (w *Worker) nextTimer() *timerV {
	if len(w.timers) == 0 {
		return nil
	}
	conc := true
	for _, t := range w.timers {
		if t.when.P != nil {
			conc = false
			break
		}
	}
	if conc {
		sort.SliceStable(w.timers, func(i, j int) bool { return int64(w.timers[i].when.U) < int64(w.timers[j].when.U) })
		return w.timers[0]
	}
	best := w.timers[0]
	for _, t := range w.timers[1:] {
		if w.branch(w.ar.SLt(w.i64(t.when), w.i64(best.when))) {
			best = t
		}
	}
	return best
}

func (w *Worker) timerDue(t *timerV) bool {
	if t.when.P == nil && w.now.P == nil {
		return int64(t.when.U) <= int64(w.now.U)
	}
	return w.branch(w.ar.SLe(w.i64(t.when), w.i64(w.now)))
}

func (w *Worker) addI64(a, b Value) Value {
	return fromTerm(w.ar.Add(w.i64(a), w.i64(b)))
}

func (w *Worker) fire(t *timerV) {
	w.fires++
	if w.fires > w.maxFires {
		panic(&pathEnd{"bound", "timer bound reached; " + w.blockedDump()})
	}
	if !w.timerDue(t) {
		w.now = t.when
	}
	if t.period.P != nil || t.period.U != 0 {
		t.when = w.addI64(t.when, t.period)
	} else {
		w.delTimer(t)
	}
	t.fn(w)
}

func (w *Worker) sleep(g *G, d Value) {
	w.guardInit("sleep")
	// d <= 0 returns at once
	if w.branch(w.ar.SLe(w.i64(d), w.ar.BV(0, 64))) {
		w.gosched(g)
		return
	}
	done := false
	w.addTimer(w.addI64(w.now, d), Value{}, func(w *Worker) { done = true; w.ready(g) })
	for !done {
		w.block(g, "sleep")
	}
}
