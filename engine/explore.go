package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Shared is the state of one harness exploration, common to all workers.
type Shared struct {
	prog      *ssa.Program
	rtErrT    types.Type
	plainErrT types.Type
	panicNilT types.Type
	pkgs      map[string]*ssa.Package
	eager     []*ssa.Package
	entry     *ssa.Function
	harness   string

	mu    sync.Mutex
	cond  *sync.Cond
	stack []*item
	busy  int
	stop  bool

	stats      SolverStats
	maxPaths   int64
	deadline   time.Time
	maxSteps   int64
	concLimit  int
	tmoMs      int
	thorough   bool
	paths      int64
	pruned     int64
	steps      int64
	decisions  int64
	merges     int64
	asserts    int64
	proved     int64
	trivial    int64
	incomplete map[string]int64
	reached    map[string]int64
	funcs      map[string]bool
	cands      map[string]int
	violation  *Cand
	unconf     []*Cand
	samples    []*Sample
	sampleSeen int64
	nSamples   int
	confirm    func(c *Cand) (bool, string)
	rnd        *rand.Rand
	bounds     map[string]string
	schedPaths int64
	maxGs      int
}

type item struct {
	prefix []uint64
	model  Model
}

// Cand is a possible violation found by the solver.
type Cand struct {
	Harness   string            `json:"harness"`
	Kind      string            `json:"kind"`
	Msg       string            `json:"msg"`
	Where     string            `json:"where,omitempty"`
	Inputs    map[string]uint64 `json:"inputs"`
	Choices   map[string]uint64 `json:"choices"`
	Decisions []uint64          `json:"decisions"`
	Sched     bool              `json:"schedule_dependent"`
	Trace     []string          `json:"trace,omitempty"`
	Native    string            `json:"native_output,omitempty"`
}

// Sample is one completed path with concrete inputs and what the harness observed.
type Sample struct {
	Inputs  map[string]uint64 `json:"inputs"`
	Choices map[string]uint64 `json:"choices"`
	Obs     []string          `json:"obs"`
	Sched   bool              `json:"sched"`
}

type obs struct {
	label string
	v     Value
	t     types.Type
}

type Worker struct {
	id   int
	sh   *Shared
	ar   *Arena
	sol  *Solver
	pc   []*Term
	pcs  map[*Term]bool
	base int

	prefix []uint64
	pos    int
	dec    []uint64
	model  Model
	vars   []*Term
	names  map[string]int
	choice map[string]uint64
	obsv   []obs
	free   bool // scheduling choices were made on this path

	codes   map[*ssa.Function]*fnCode
	meths   map[methKey]*fnCode
	impl    map[implKey]bool
	globals map[*ssa.Global]*Value
	fvals   map[*ssa.Function]*Closure
	inited  map[*ssa.Package]bool

	jn         []undo
	inInit     int
	spec       int
	races      bool
	raceTab    map[*Value]*raceState
	raceMaps   map[*MapV]*raceState
	mapOrder   bool
	firstReady bool

	exploreSched         bool
	maxSwitch, switches  int
	maxPreempt, preempts int
	steps, maxSteps      int64
	merges               int64
	killed               bool
	end                  *pathEnd
	mainG, cur           *G
	gs, runq             []*G
	wg                   sync.WaitGroup
	chanIds              int
	timers               []*timerV
	timerIds             int
	now                  Value
	fires, maxFires      int
	quiescing            *G
	ptrOwner             map[*Value]ownerRef
	envPool              [][]Value
	fnSeen               map[*fnCode]bool
	nat                  map[any]any // per-path native state of models
	trace                []string
	bodies               map[bodyKey]*fnCode
}

func newWorker(sh *Shared, id int) *Worker {
	w := &Worker{id: id, sh: sh, ar: NewArena()}
	w.sol = NewSolver(&sh.stats, sh.tmoMs)
	w.codes = map[*ssa.Function]*fnCode{}
	w.meths = map[methKey]*fnCode{}
	w.impl = map[implKey]bool{}
	w.globals = map[*ssa.Global]*Value{}
	w.fvals = map[*ssa.Function]*Closure{}
	w.inited = map[*ssa.Package]bool{}
	w.fnSeen = map[*fnCode]bool{}
	w.ptrOwner = map[*Value]ownerRef{}
	w.reset()
	for _, p := range sh.eager {
		w.initPkg(p)
	}
	return w
}

// epoch of the virtual clock: midnight UTC 2000-01-01, as in testing/synctest.
const clockEpoch = 946684800 * 1000000000

func (w *Worker) reset() {
	w.pc = w.pc[:0]
	w.pcs = map[*Term]bool{}
	w.pos = 0
	w.dec = nil
	w.vars = nil
	w.names = map[string]int{}
	w.choice = map[string]uint64{}
	w.obsv = nil
	w.free = false
	w.races, w.mapOrder, w.firstReady, w.exploreSched = false, false, false, false
	w.raceTab = map[*Value]*raceState{}
	w.raceMaps = map[*MapV]*raceState{}
	w.maxSwitch, w.switches, w.maxPreempt, w.preempts = 0, 0, 0, 0
	w.steps, w.maxSteps = 0, w.sh.maxSteps
	w.killed = false
	w.end = nil
	w.gs, w.runq = nil, nil
	w.chanIds = 0
	w.timers, w.timerIds = nil, 0
	w.now = Value{U: clockEpoch}
	w.fires, w.maxFires = 0, 5000
	w.quiescing = nil
	w.spec = 0
	w.nat = map[any]any{}
	w.trace = nil
	clear(w.ptrOwner)
}

// ---- work distribution ----

func (sh *Shared) push(it *item) {
	sh.mu.Lock()
	sh.stack = append(sh.stack, it)
	sh.mu.Unlock()
	sh.cond.Signal()
}

func (sh *Shared) pop() *item {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	for {
		if sh.stop {
			return nil
		}
		if n := len(sh.stack); n > 0 {
			it := sh.stack[n-1]
			sh.stack = sh.stack[:n-1]
			sh.busy++
			return it
		}
		if sh.busy == 0 {
			sh.cond.Broadcast()
			return nil
		}
		sh.cond.Wait()
	}
}

func (sh *Shared) done() {
	sh.mu.Lock()
	sh.busy--
	if sh.busy == 0 && len(sh.stack) == 0 {
		sh.cond.Broadcast()
	}
	sh.mu.Unlock()
}

func (sh *Shared) note(kind string) {
	sh.mu.Lock()
	sh.incomplete[kind]++
	sh.mu.Unlock()
}

func (sh *Shared) explore(nw int) {
	sh.cond = sync.NewCond(&sh.mu)
	sh.incomplete = map[string]int64{}
	sh.reached = map[string]int64{}
	sh.funcs = map[string]bool{}
	sh.cands = map[string]int{}
	sh.bounds = map[string]string{}
	sh.stack = []*item{{model: Model{}}}
	stopT := time.AfterFunc(time.Until(sh.deadline), func() {
		sh.mu.Lock()
		if !sh.stop && (len(sh.stack) > 0 || sh.busy > 0) {
			sh.incomplete["time budget reached"]++
			sh.stop = true
		}
		sh.mu.Unlock()
		sh.cond.Broadcast()
	})
	defer stopT.Stop()
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var w *Worker
			for {
				it := sh.pop()
				if it == nil {
					break
				}
				if w == nil {
					w = newWorker(sh, i)
				}
				w.runItem(it)
				sh.done()
				if len(w.ar.terms) > 1500000 {
					w.ar = NewArena()
					w.sol.Restart()
				}
			}
			if w != nil {
				w.sol.Close()
			}
		}(i)
	}
	wg.Wait()
}

func (w *Worker) runItem(it *item) {
	sh := w.sh
	w.reset()
	w.prefix, w.model = it.prefix, it.model
	w.ar.newGen()
	mark := len(w.jn)
	end := w.runPath()
	// stop the other goroutines
	w.killed = true
	for _, g := range w.gs {
		if g != w.mainG && g.started && g.state != gDone {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	w.wg.Wait()
	atomic.AddInt64(&sh.steps, w.steps)
	atomic.AddInt64(&sh.merges, w.merges)
	w.merges = 0
	atomic.AddInt64(&sh.decisions, int64(len(w.dec)-len(it.prefix)))
	switch {
	case end == nil:
		atomic.AddInt64(&sh.paths, 1)
		w.finish()
	case end.kind == "pruned":
		atomic.AddInt64(&sh.pruned, 1)
	case end.kind == "panic" || end.kind == "deadlock" || end.kind == "race":
		atomic.AddInt64(&sh.paths, 1)
		w.candidate(end.kind, end.msg, w.model)
	default:
		atomic.AddInt64(&sh.paths, 1)
		sh.note(end.kind + ": " + firstLine(end.msg))
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "END", end.kind, end.msg, w.modelStr(), strings.Join(w.trace, "\n"))
		}
	}
	w.undoTo(mark)
	if atomic.LoadInt64(&sh.paths) >= sh.maxPaths {
		sh.mu.Lock()
		if !sh.stop && len(sh.stack) > 0 {
			sh.incomplete["path budget reached"]++
		}
		sh.stop = true
		sh.mu.Unlock()
		sh.cond.Broadcast()
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 && os.Getenv("GOSYM_DEBUG") == "" {
		return s[:i]
	}
	return s
}

func (w *Worker) modelStr() string {
	b, _ := json.Marshal(w.inputs(w.model))
	c, _ := json.Marshal(w.choice)
	return string(b) + string(c)
}

func (w *Worker) runPath() (end *pathEnd) {
	g := &G{id: 0, w: w, wake: make(chan struct{}, 1), state: gRunning, main: true, started: true}
	w.mainG, w.cur = g, g
	w.gs = []*G{g}
	if w.races {
		g.vc.tick(0)
	}
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case *pathEnd:
			end = x
		case simPanic:
			end = w.uncaught(g, x)
		case killSig:
			end = w.end
			if end == nil {
				end = unsupported("killed")
			}
		default:
			end = internalErr(r)
		}
		if w.end != nil && end == nil {
			end = w.end
		}
	}()
	w.call(g, w.code(w.sh.entry), nil, nil)
	return nil
}

func (w *Worker) uncaught(g *G, p simPanic) *pathEnd {
	return &pathEnd{"panic", "uncaught panic: " + w.panicText(g, p.v)}
}

func (w *Worker) panicText(g *G, v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "(value)"
		}
	}()
	i, _ := v.P.(*Iface)
	if i == nil {
		return "nil"
	}
	ti := tinfo(i.T)
	if ti.k == KString {
		return typeString(i.T) + ": " + w.evalStr(i.V)
	}
	if f := w.findMethod(i.T, "Error"); f != nil {
		return w.evalStr(w.call(g, w.code(f), []Value{i.V}, nil))
	}
	return typeString(i.T)
}

// ---- decisions ----

func (w *Worker) addPC(t *Term, implied bool) {
	if t.isTrue() {
		return
	}
	if !implied {
		w.pc = append(w.pc, t)
	}
	w.learn(t)
}

func (w *Worker) learn(t *Term) {
	if w.pcs[t] {
		return
	}
	w.pcs[t] = true
	if t.op == OAnd {
		w.learn(t.a[0])
		w.learn(t.a[1])
	}
	if t.op == ONot && t.a[0].op == OOr {
		w.learn(w.ar.Not(t.a[0].a[0]))
		w.learn(w.ar.Not(t.a[0].a[1]))
	}
}

func (w *Worker) decided(t *Term) (bool, bool) {
	if t.op == OConst {
		return t.val != 0, true
	}
	if w.pcs[t] {
		return true, true
	}
	if w.pcs[w.ar.Not(t)] {
		return false, true
	}
	return false, false
}

func (w *Worker) branch(t *Term) bool {
	if k, ok := w.decided(t); ok {
		return k
	}
	return w.choose([]*Term{t, w.ar.Not(t)}) == 0
}

const impliedBit = uint64(1) << 63

func (w *Worker) guardChoice(what string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.inInit > 0 {
		panic(unsupported(what + " in package initialisation"))
	}
	if w.sh.stop {
		panic(&pathEnd{"pruned", "stopped"})
	}
}

func (w *Worker) query(extra *Term) (SatRes, Model) {
	if r, m := w.approx(extra); r != Unknown {
		return r, m
	}
	r, m := w.sol.Check(w.pc, extra, w.vars)
	if r == Unknown {
		w.sh.note("solver gave no answer in time")
	}
	return r, m
}

// choose picks one of the (exhaustive) guards.
func (w *Worker) choose(guards []*Term) int {
	w.guardChoice("symbolic branch")
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		k := int(d &^ impliedBit)
		w.addPC(guards[k], d&impliedBit != 0)
		return k
	}
	k := -1
	for i, g := range guards {
		if w.ar.eval(g, w.model) != 0 {
			k = i
			break
		}
	}
	if k < 0 { // the model comes from an abstraction of some function; ask again
		for i, g := range guards {
			if r, m := w.query(g); r == Sat {
				k = i
				w.setModel(m)
				break
			}
		}
		if k < 0 {
			panic(&pathEnd{"pruned", "no feasible branch"})
		}
	}
	alone := true
	for i := len(guards) - 1; i >= 0; i-- {
		if i == k || guards[i].isFalse() {
			continue
		}
		switch r, m := w.query(guards[i]); r {
		case Sat:
			alone = false
			w.fork(uint64(i), m)
		case Unknown:
			alone = false
		}
	}
	d := uint64(k)
	if alone {
		d |= impliedBit
	}
	w.dec = append(w.dec, d)
	w.pos++
	w.prefix = w.dec
	w.addPC(guards[k], alone)
	return k
}

func (w *Worker) fork(d uint64, m Model) {
	p := make([]uint64, len(w.dec)+1)
	copy(p, w.dec)
	p[len(w.dec)] = d
	w.sh.push(&item{prefix: p, model: m})
}

func (w *Worker) setModel(m Model) {
	w.model = m
	w.ar.newGen()
}

// freeChoice explores every alternative without a condition.
func (w *Worker) freeChoice(n int, why string) int {
	w.guardChoice("choice")
	if why != "input" && why != "map order" {
		w.free = true
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		return int(d)
	}
	for i := n - 1; i > 0; i-- {
		w.fork(uint64(i), w.model)
	}
	w.dec = append(w.dec, 0)
	w.pos++
	w.prefix = w.dec
	return 0
}

// concTerm forks over the feasible values of t.
func (w *Worker) concTerm(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	w.guardChoice("concretisation")
	ar := w.ar
	eq := func(v uint64) *Term { return ar.Eq(t, ar.Const(v, t.sort)) }
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		w.addPC(eq(d), false)
		return d
	}
	v0 := ar.eval(t, w.model)
	ne := ar.Not(eq(v0))
	lim := w.sh.concLimit
	for i := 0; ; i++ {
		if ne.isFalse() {
			break
		}
		r, m := w.query(ne)
		if r != Sat {
			break
		}
		if i >= lim {
			w.sh.note(fmt.Sprintf("more than %d values of a concretised term", lim))
			break
		}
		save := w.model
		w.setModel(m)
		v := ar.eval(t, m)
		w.setModel(save)
		w.fork(v, m)
		ne = ar.And(ne, ar.Not(eq(v)))
	}
	w.dec = append(w.dec, v0)
	w.pos++
	w.prefix = w.dec
	w.addPC(eq(v0), false)
	return v0
}

// assume restricts the path.
func (w *Worker) assume(t *Term) {
	if k, ok := w.decided(t); ok {
		if !k {
			panic(&pathEnd{"pruned", "assumption"})
		}
		return
	}
	w.guardChoice("assume")
	if w.pos >= len(w.prefix) && w.ar.eval(t, w.model) == 0 {
		r, m := w.query(t)
		if r != Sat {
			panic(&pathEnd{"pruned", "assumption"})
		}
		w.setModel(m)
	}
	w.addPC(t, false)
}

// assert_ checks that t holds on every input of this path.
func (w *Worker) assert_(t *Term, msg string) {
	w.guardChoice("assert")
	if w.pos < len(w.prefix) {
		if t.op == OConst {
			return
		}
		if _, ok := w.decided(t); ok {
			return
		}
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		w.addPC(t, d == 0)
		return
	}
	atomic.AddInt64(&w.sh.asserts, 1)
	if k, ok := w.decided(t); ok {
		if !k {
			w.candidate("assertion", msg, w.model)
			panic(&pathEnd{"pruned", "assertion fails on the whole path"})
		}
		atomic.AddInt64(&w.sh.trivial, 1)
		return
	}
	nt := w.ar.Not(t)
	if w.ar.eval(t, w.model) == 0 {
		w.candidate("assertion", msg, w.model)
	} else {
		switch r, m := w.query(nt); r {
		case Unsat:
			atomic.AddInt64(&w.sh.proved, 1)
			w.dec = append(w.dec, 0)
			w.pos++
			w.prefix = w.dec
			w.addPC(t, true)
			return
		case Sat:
			save := w.model
			w.setModel(m)
			w.candidate("assertion", msg, m)
			w.setModel(save)
		default:
		}
	}
	// continue where it holds
	if w.ar.eval(t, w.model) == 0 {
		r, m := w.query(t)
		if r != Sat {
			panic(&pathEnd{"pruned", "assertion fails on the whole path"})
		}
		w.setModel(m)
	}
	w.dec = append(w.dec, 1)
	w.pos++
	w.prefix = w.dec
	w.addPC(t, false)
}

func (w *Worker) inputs(m Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, v := range w.vars {
		r[v.name] = m[v.name]
	}
	return r
}

// candidate reports a possible violation; it is confirmed on the real code before it counts.
func (w *Worker) candidate(kind, msg string, m Model) {
	sh := w.sh
	key := kind + ":" + msg
	if kind == "panic" || kind == "deadlock" {
		key = kind
	}
	sh.mu.Lock()
	n := sh.cands[key]
	sh.cands[key]++
	if sh.violation != nil || n >= 12 {
		if n == 12 {
			sh.incomplete["further candidates dropped: "+key]++
		}
		sh.mu.Unlock()
		return
	}
	sh.mu.Unlock()
	c := &Cand{Harness: sh.harness, Kind: kind, Msg: msg, Inputs: w.inputs(m), Choices: map[string]uint64{}, Sched: w.free}
	for k, v := range w.choice {
		c.Choices[k] = v
	}
	c.Decisions = append(c.Decisions, w.dec...)
	c.Trace = append(c.Trace, w.trace...)
	ok, out := false, ""
	if sh.confirm != nil {
		ok, out = sh.confirm(c)
	}
	c.Native = out
	sh.mu.Lock()
	if ok {
		if sh.violation == nil {
			sh.violation = c
		}
		sh.stop = true
	} else {
		sh.unconf = append(sh.unconf, c)
	}
	sh.mu.Unlock()
	sh.cond.Broadcast()
}

// finish records a completed path as a sample for comparison with the real code.
func (w *Worker) finish() {
	sh := w.sh
	if len(w.gs) > sh.maxGs {
		sh.mu.Lock()
		sh.maxGs = max(sh.maxGs, len(w.gs))
		sh.mu.Unlock()
	}
	if w.free {
		atomic.AddInt64(&sh.schedPaths, 1)
	}
	n := atomic.AddInt64(&sh.sampleSeen, 1)
	sh.mu.Lock()
	slot := -1
	if len(sh.samples) < sh.nSamples {
		slot = len(sh.samples)
		sh.samples = append(sh.samples, nil)
	} else if sh.nSamples > 0 {
		if k := sh.rnd.Int63n(n); k < int64(sh.nSamples) {
			slot = int(k)
		}
	}
	sh.mu.Unlock()
	if slot < 0 {
		return
	}
	s := &Sample{Inputs: w.inputs(w.model), Choices: map[string]uint64{}, Sched: w.free}
	for k, v := range w.choice {
		s.Choices[k] = v
	}
	for _, o := range w.obsv {
		s.Obs = append(s.Obs, o.label+"="+w.evalObs(o.t, o.v))
	}
	sh.mu.Lock()
	sh.samples[slot] = s
	sh.mu.Unlock()
}

// evalStr gives the text of a string value under the current model.
func (w *Worker) evalStr(v Value) string {
	if s, ok := strConc(v); ok {
		return s
	}
	b := strBytes(v)
	return string(w.evalBytes(b))
}

func (w *Worker) evalBytes(b []Value) []byte {
	var out []byte
	for i := 0; i < len(b); i++ {
		t, ok := b[i].P.(*Term)
		if !ok {
			out = append(out, byte(b[i].U))
			continue
		}
		if t.op == OFlt && t.val&0xffff == 0 {
			out = append(out, fltText(w.ar.eval(t.a[0], w.model), t.val)...)
			i += fltLen - 1
			continue
		}
		out = append(out, byte(w.ar.eval(t, w.model)))
	}
	return out
}

func (w *Worker) evalObs(t types.Type, v Value) string {
	ti := tinfo(t)
	switch ti.k {
	case KBool:
		return fmt.Sprint(w.ar.eval(w.boolTerm(v), w.model) != 0)
	case KInt:
		u := w.ar.eval(w.term(v, ti.sort), w.model)
		if ti.signed {
			return fmt.Sprint(sext(u, ti.sort))
		}
		return fmt.Sprint(u)
	case KFloat:
		u := w.ar.eval(w.term(v, ti.sort), w.model)
		f := fval(ti.sort, u)
		if f != f {
			return "NaN"
		}
		return fmt.Sprintf("%x", f)
	case KString:
		return fmt.Sprintf("%q", w.evalStr(v))
	case KSlice:
		s, _ := v.P.(*SliceV)
		if s == nil {
			return fmt.Sprintf("%q", "")
		}
		return fmt.Sprintf("%q", w.evalBytes(s.A.F[s.off:s.off+s.len]))
	}
	return "?"
}

func (w *Worker) noteFn(c *fnCode) {
	if w.fnSeen[c] {
		return
	}
	w.fnSeen[c] = true
	w.sh.mu.Lock()
	w.sh.funcs[c.name] = true
	w.sh.mu.Unlock()
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- globals and package initialisation ----

func (w *Worker) global(x *ssa.Global) *Value {
	c := w.globals[x]
	if c == nil {
		c = new(Value)
		*c = tinfo(x.Type().Underlying().(*types.Pointer).Elem()).zero()
		w.globals[x] = c
	}
	if x.Pkg != nil && !w.inited[x.Pkg] {
		w.initPkg(x.Pkg)
	}
	return c
}

func (w *Worker) funcVal(x *ssa.Function) *Closure {
	c := w.fvals[x]
	if c == nil {
		c = &Closure{fn: x}
		w.fvals[x] = c
	}
	return c
}

var skipInit = map[string]bool{"runtime": true, "internal/cpu": true, "syscall": true, "os": false, "reflect": false, "internal/godebug": true, "internal/godebugs": false}

func (w *Worker) initPkg(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	if skipInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	w.inInit++
	saveSpec := w.spec
	w.spec = 0
	saveRaces := w.races
	w.races = false
	defer func() { w.inInit--; w.spec = saveSpec; w.races = saveRaces }()
	g := &G{id: -1, w: w, state: gRunning}
	w.runInit(g, f)
}

// runInit executes a package initialiser, leaving out what cannot be executed.
func (w *Worker) runInit(g *G, f *ssa.Function) {
	var c *fnCode
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "init compile", f, r)
				}
			}
		}()
		c = w.compileNoIntr(f)
		delete(w.codes, f)
	}()
	if c == nil || c.blocks == nil {
		return
	}
	fr := &frame{code: c, g: g, env: make([]Value, c.nslots), b: c.blocks[0]}
	for n := 0; n < 10000; n++ {
		b := fr.b
		for i := range b.ins {
			in := &b.ins[i]
			switch in.op {
			case iJump:
				w.gotoBlock(fr, b, 0)
			case iIf:
				v := fr.get(in.a)
				if v.P != nil {
					return
				}
				if v.U != 0 {
					w.gotoBlock(fr, b, 0)
				} else {
					w.gotoBlock(fr, b, 1)
				}
			case iReturn:
				return
			default:
				g.fr = fr
				if msg := w.tryExec(fr, g, in); msg != "" {
					if os.Getenv("GOSYM_INITDEBUG") != "" {
						fmt.Fprintln(os.Stderr, "init", f.Pkg.Pkg.Path(), in.src, msg)
					}
					if in.dst >= 0 {
						fr.env[in.dst] = Value{P: &Poison{msg}}
					}
					if in.op == iStore {
						if p, ok := fr.get(in.a).P.(*Value); ok {
							p.P = &Poison{msg}
						}
					}
				}
			}
		}
	}
}

func (w *Worker) tryExec(fr *frame, g *G, in *instr) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *pathEnd:
				msg = x.msg
			case simPanic:
				msg = "panic in init"
			case killSig:
				panic(r)
			default:
				msg = fmt.Sprint("internal: ", r)
			}
			w.steps = 0
		}
	}()
	w.exec1(fr, g, in)
	return ""
}

func isRepoFn(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && strings.HasPrefix(p.Path(), "github.com/gocraft/health") && !strings.Contains(p.Path(), "zzverif")
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}
