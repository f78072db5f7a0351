package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// deepRead records reads of DeepEqual.
func (w *Worker) deepRead(g *G, x, y *Value) {
	if w.races {
		w.raceRead(g, x)
		w.raceRead(g, y)
	}
}

// deepEq is reflect.DeepEqual on values of one type.
func (w *Worker) deepEq(g *G, ti *TInfo, a, b Value, depth int) *Term {
	ar := w.ar
	if depth > 60 {
		panic(unsupported("DeepEqual recursion"))
	}
	switch ti.k {
	case KBool, KInt, KFloat, KString:
		return w.eqTerm(ti, a, b)
	case KPtr:
		if refEq(a, b) {
			return ar.true_
		}
		if a.P == nil || b.P == nil {
			return ar.fals
		}
		x, ok1 := a.P.(*Value)
		y, ok2 := b.P.(*Value)
		if !ok1 || !ok2 {
			panic(unsupported("DeepEqual pointer"))
		}
		w.deepRead(g, x, y)
		return w.deepEq(g, tinfo(ti.t.Underlying().(*types.Pointer).Elem()), *x, *y, depth+1)
	case KIface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return ar.Bool(x == nil && y == nil)
		}
		if tinfo(x.T) != tinfo(y.T) {
			return ar.fals
		}
		return w.deepEq(g, tinfo(x.T), x.V, y.V, depth+1)
	case KStruct, KArray:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := ar.true_
		for i := range x.F {
			et := ti.elem
			if ti.k == KStruct {
				et = ti.fields[i]
			}
			w.deepRead(g, &x.F[i], &y.F[i])
			r = ar.And(r, w.deepEq(g, et, x.F[i], y.F[i], depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case KSlice:
		if (a.P == nil) != (b.P == nil) {
			return ar.fals
		}
		x, y := sliceVals(a), sliceVals(b)
		if len(x) != len(y) {
			return ar.fals
		}
		et := tinfoElem(ti)
		r := ar.true_
		for i := range x {
			w.deepRead(g, &x[i], &y[i])
			r = ar.And(r, w.deepEq(g, et, x[i], y[i], depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case KMap:
		x, _ := a.P.(*MapV)
		y, _ := b.P.(*MapV)
		if x == nil || y == nil {
			return ar.Bool(x == nil && y == nil)
		}
		if x.live != y.live {
			return ar.fals
		}
		r := ar.true_
		kt := tinfo(x.kt)
		for i := range x.ents {
			e := x.ents[i]
			if e.dead {
				continue
			}
			j := w.mapFind(y, kt, e.k)
			if j < 0 {
				return ar.fals
			}
			r = ar.And(r, w.deepEq(g, tinfo(x.vt), e.v, y.ents[j].v, depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case KFunc:
		return ar.Bool(a.P == nil && b.P == nil)
	}
	return ar.Bool(refEq(a, b))
}

func (w *Worker) unwrap(g *G, e *Iface) []Value {
	m := w.findMethod(e.T, "Unwrap")
	if m == nil || m.Signature.Params().Len() != 0 {
		return nil
	}
	r := w.call(g, w.code(m), []Value{e.V}, nil)
	if s, ok := r.P.(*SliceV); ok {
		return sliceVals(Value{P: s})
	}
	return []Value{r}
}

func (w *Worker) errorsIs(g *G, err, target Value) bool {
	e, _ := err.P.(*Iface)
	if e == nil {
		return false
	}
	t, _ := target.P.(*Iface)
	if t != nil && types.Comparable(t.T) && tinfo(t.T) == tinfo(e.T) && w.branch(w.eqTerm(tinfo(e.T), e.V, t.V)) {
		return true
	}
	if m := w.findMethod(e.T, "Is"); m != nil && m.Signature.Params().Len() == 1 {
		if w.branch(w.boolTerm(w.call(g, w.code(m), []Value{e.V, target}, nil))) {
			return true
		}
	}
	for _, u := range w.unwrap(g, e) {
		if w.errorsIs(g, u, target) {
			return true
		}
	}
	return false
}

func (w *Worker) errorsAs(g *G, err, target Value) bool {
	e, _ := err.P.(*Iface)
	if e == nil {
		return false
	}
	t, _ := target.P.(*Iface)
	if t == nil {
		w.rtPanicPlain("errors: target cannot be nil")
	}
	et := t.T.Underlying().(*types.Pointer).Elem()
	if types.IsInterface(et) {
		if w.implements(e.T, et) {
			w.storeCell(t.V.P.(*Value), err)
			return true
		}
	} else if tinfo(et) == tinfo(e.T) {
		w.storeCell(t.V.P.(*Value), e.V)
		return true
	}
	if m := w.findMethod(e.T, "As"); m != nil && m.Signature.Params().Len() == 1 {
		if w.branch(w.boolTerm(w.call(g, w.code(m), []Value{e.V, target}, nil))) {
			return true
		}
	}
	for _, u := range w.unwrap(g, e) {
		if w.errorsAs(g, u, target) {
			return true
		}
	}
	return false
}

func (w *Worker) newOf(pkg, name string) (Value, types.Type) {
	p := w.sh.prog.ImportedPackage(pkg)
	t := p.Type(name).Type()
	c := new(Value)
	*c = tinfo(t).zero()
	return Value{P: c}, tinfo(types.NewPointer(t)).canon
}

func (w *Worker) setField(p Value, t types.Type, name string, v Value) {
	st := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			w.setCell(&p.P.(*Value).P.(*Agg).F[i], v)
			return
		}
	}
	panic(unsupported("no field " + name))
}

func (w *Worker) getField(v Value, t types.Type, name string) Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v.P.(*Agg).F[i]
		}
	}
	panic(unsupported("no field " + name))
}

func (w *Worker) packet(b []Value) {
	ps, _ := w.nat["packets"].([]Value)
	w.nat["packets"] = append(ps, bytesToStr(b))
}

func (w *Worker) sortSlice(g *G, sv Value, less Value) {
	i, _ := sv.P.(*Iface)
	if i == nil {
		w.nilDeref()
	}
	f := sliceVals(i.V)
	for k := 1; k < len(f); k++ {
		for j := k; j > 0; j-- {
			r := w.callValue(g, less, []Value{mkInt(j), mkInt(j - 1)})
			if !w.branch(w.boolTerm(r)) {
				break
			}
			a, b := copyVal(f[j]), copyVal(f[j-1])
			w.storeCell(&f[j], b)
			w.storeCell(&f[j-1], a)
		}
	}
}

func init() {
	reg(func(w *Worker, g *G, a []Value) Value {
		return fromTerm(w.deepEq(g, tinfo(types.Universe.Lookup("any").Type()), a[0], a[1], 0))
	}, "reflect.DeepEqual")
	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		reg(func(w *Worker, g *G, a []Value) Value {
			i, _ := a[0].P.(*Iface)
			if i == nil {
				return Value{}
			}
			ti := tinfo(i.T)
			tiMu.Lock()
			if ti.rt == nil {
				ti.rt = &Value{P: ti}
			}
			tiMu.Unlock()
			p := w.sh.prog.ImportedPackage(pk)
			if pk == "reflect" {
				return Value{P: &Iface{T: tinfo(types.NewPointer(p.Type("rtype").Type())).canon, V: Value{P: ti.rt}}}
			}
			return Value{P: &Iface{T: tinfo(p.Type("rtype").Type()).canon, V: Value{P: ti.rt}}}
		}, pk+".TypeOf")
	}
	rtOf := func(v Value) *TInfo { return v.P.(*Value).P.(*TInfo) }
	reg(func(w *Worker, g *G, a []Value) Value {
		return mkBool(types.Comparable(rtOf(a[0]).t))
	}, "(*reflect.rtype).Comparable", "(internal/reflectlite.rtype).Comparable")
	reg(func(w *Worker, g *G, a []Value) Value {
		return mkString(typeString(rtOf(a[0]).t))
	}, "(*reflect.rtype).String", "(internal/reflectlite.rtype).String")
	reg(func(w *Worker, g *G, a []Value) Value {
		return mkInt(int(reflectKind(rtOf(a[0]).t)))
	}, "(*reflect.rtype).Kind", "(internal/reflectlite.rtype).Kind")
	reg(func(w *Worker, g *G, a []Value) Value {
		i := a[0].P.(*Iface)
		m, _ := i.V.P.(*MapV)
		if m == nil {
			return a[0]
		}
		if w.races {
			w.raceMap(g, m, false)
		}
		n := &MapV{kt: m.kt, vt: m.vt, idx: map[any]int{}, live: m.live, nsym: m.nsym}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			if hk, ok := hashKey(tinfo(m.kt), e.k); ok {
				n.idx[hk] = len(n.ents)
			}
			n.ents = append(n.ents, mapEnt{k: copyVal(e.k), v: copyVal(e.v), sym: e.sym})
		}
		return Value{P: &Iface{T: i.T, V: Value{P: n}}}
	}, "maps.clone")
	reg(func(w *Worker, g *G, a []Value) Value {
		n, _ := rtOf(a[0]).t.(*types.Named)
		if n == nil {
			return mkString("")
		}
		return mkString(n.Obj().Name())
	}, "(*reflect.rtype).Name")
	reg(func(w *Worker, g *G, a []Value) Value { return mkBool(w.errorsIs(g, a[0], a[1])) }, "errors.Is")
	reg(func(w *Worker, g *G, a []Value) Value { return mkBool(w.errorsAs(g, a[0], a[1])) }, "errors.As")
	reg(func(w *Worker, g *G, a []Value) Value { w.sortSlice(g, a[0], a[1]); return Value{} }, "sort.Slice", "sort.SliceStable")
	reg(func(w *Worker, g *G, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		f := sliceVals(i.V)
		return Value{P: &Closure{native: func(w *Worker, g *G, x []Value) Value {
			p, q := w.conc(x[0], 64), w.conc(x[1], 64)
			u, v := copyVal(f[p]), copyVal(f[q])
			w.storeCell(&f[p], v)
			w.storeCell(&f[q], u)
			return Value{}
		}}}
	}, "internal/reflectlite.Swapper", "reflect.Swapper")

	// ---- UDP ----
	newConn := func(w *Worker) Value {
		v, t := w.newOf("net", "UDPConn")
		n, _ := w.nat["udpconns"].(int)
		w.nat["udpconns"] = n + 1
		return Value{P: &Iface{T: t, V: v}}
	}
	reg(func(w *Worker, g *G, a []Value) Value { return w.tuple(newConn(w), Value{}) }, "net.ListenPacket", "net.Dial", "net.DialTimeout")
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.tuple(newConn(w).P.(*Iface).V, Value{})
	}, "net.ListenUDP", "net.DialUDP")
	reg(func(w *Worker, g *G, a []Value) Value {
		addr := w.str(a[1])
		i := strings.LastIndexByte(addr, ':')
		if i < 0 {
			return w.tuple(Value{}, w.errValue(g, "address "+addr+": missing port in address"))
		}
		v, t := w.newOf("net", "UDPAddr")
		port := 0
		fmt.Sscanf(addr[i+1:], "%d", &port)
		w.setField(v, t, "Port", mkInt(port))
		w.setField(v, t, "IP", w.bytesValue(strBytes(mkString("\x7f\x00\x00\x01"))))
		return w.tuple(v, Value{})
	}, "net.ResolveUDPAddr")
	wr := func(w *Worker, g *G, a []Value) Value {
		w.schedPoint(g, "udp write")
		b := sliceVals(a[1])
		if len(b) > 65507 {
			return w.tuple(mkInt(0), w.errValue(g, "message too long"))
		}
		if f, _ := w.nat["udpclosed"].(bool); f {
			return w.tuple(mkInt(0), w.errValue(g, "use of closed network connection"))
		}
		if f, _ := w.nat["failudp"].(bool); f {
			return w.tuple(mkInt(0), w.errValue(g, "sendto: no such device"))
		}
		w.packet(b)
		return w.tuple(mkInt(len(b)), Value{})
	}
	reg(wr, "(*net.UDPConn).WriteTo", "(*net.UDPConn).WriteToUDP", "(*net.conn).Write", "(*net.UDPConn).Write")
	reg(func(w *Worker, g *G, a []Value) Value { return Value{} }, "(*net.conn).SetWriteDeadline")
	reg(func(w *Worker, g *G, a []Value) Value {
		if f, _ := w.nat["udpclosed"].(bool); f {
			return w.errValue(g, "use of closed network connection")
		}
		// with several connections it is not followed which one this is
		if n, _ := w.nat["udpconns"].(int); n == 1 {
			w.nat["udpclosed"] = true
		}
		return Value{}
	}, "(*net.conn).Close", "(*net.UDPConn).Close")

	// ---- process state read by runtime_metrics ----
	reg(func(w *Worker, g *G, a []Value) Value {
		c := cellOf(a[0])
		p := w.sh.prog.ImportedPackage("runtime")
		st := p.Type("MemStats").Type().Underlying().(*types.Struct)
		ag := c.P.(*Agg)
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			ti := tinfo(st.Field(i).Type())
			switch {
			case ti.k == KInt || ti.k == KFloat:
				w.setCell(&ag.F[i], w.envInput("mem."+n, ti))
			}
		}
		// PauseNs and PauseEnd are left as they were
		return Value{}
	}, "runtime.ReadMemStats")
	reg(func(w *Worker, g *G, a []Value) Value {
		if d := w.str(a[0]); d != "/proc/self/fd" && d != "/proc/self/fd/" && d != "/dev/fd" {
			panic(unsupported("reading directory " + d))
		}
		k := w.inputChoice("env.fds", 4)
		m := w.env()
		m["fds"] = mkInt(k)
		if k == 3 {
			return w.tuple(Value{}, w.errValue(g, "permission denied"))
		}
		return w.tuple(w.bytesValue(make([]Value, k)), Value{})
	}, "io/ioutil.ReadDir", "os.ReadDir")
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.envInput("runtime.NumGoroutine", tinfo(types.Typ[types.Int]))
	}, "runtime.NumGoroutine")
	reg(func(w *Worker, g *G, a []Value) Value {
		return w.envInput("runtime.NumCgoCall", tinfo(types.Typ[types.Int64]))
	}, "runtime.NumCgoCall")
	reg(func(w *Worker, g *G, a []Value) Value {
		c := cellOf(a[0])
		p := w.sh.prog.ImportedPackage("runtime/debug")
		st := p.Type("GCStats").Type().Underlying().(*types.Struct)
		ag := c.P.(*Agg)
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			ti := tinfo(st.Field(i).Type())
			switch {
			case ti.k == KInt:
				w.setCell(&ag.F[i], w.envInput("gc."+n, ti))
			case n == "PauseQuantiles":
				f := sliceVals(ag.F[i])
				for j := range f {
					w.setCell(&f[j], w.envInput(fmt.Sprintf("gc.PauseQuantiles%d", j), tinfo(types.Typ[types.Int64])))
				}
			}
		}
		return Value{}
	}, "runtime/debug.ReadGCStats")
}

func reflectKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String {
			return reflect.String
		}
		if u.Kind() == types.UnsafePointer {
			return reflect.UnsafePointer
		}
		return reflect.Kind(u.Kind()) // Bool to Complex128 have the same numbers
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	}
	return reflect.Struct
}

// envInput is a symbolic value of the environment; harnesses read it back with zz.Env.
func (w *Worker) envInput(name string, ti *TInfo) Value {
	m := w.env()
	var v Value
	hi := uint64(0)
	if ti.k != KFloat && ti.signed {
		hi = mask(ti.sort) >> 1
	}
	t := w.input(mkString("env."+name), sortBits(ti.sort), hi)
	if ti.k == KFloat {
		v = fromTerm(w.ar.F1(OFromBits, ti.sort, t))
	} else {
		if ti.signed { // counts and times: not negative
			w.assume(w.ar.SLe(w.ar.BV(0, ti.sort), t))
		}
		v = fromTerm(t)
	}
	m[name] = v
	return v
}

func (w *Worker) env() map[string]Value {
	m, _ := w.nat["env"].(map[string]Value)
	if m == nil {
		m = map[string]Value{}
		w.nat["env"] = m
	}
	return m
}

func sortBits(s Sort) Sort {
	switch s {
	case SFP64:
		return 64
	case SFP32:
		return 32
	}
	return s
}

func init() {
	reg(func(w *Worker, g *G, a []Value) Value {
		m, _ := w.nat["env"].(map[string]Value)
		v, ok := m[w.str(a[0])]
		if !ok {
			return w.tuple(Value{}, mkBool(false))
		}
		if t, ok := v.P.(*Term); ok && t.sort.isBV() && t.sort < 64 {
			v = fromTerm(w.ar.ZExt(t, 64))
		}
		return w.tuple(v, mkBool(true))
	}, zzPath+".EnvInt", zzPath+".EnvFloat")
}

// The stand-in for gocraft/web uses reflection in two functions.
func init() {
	reg(func(w *Worker, g *G, a []Value) Value {
		i := a[0].P.(*Iface)
		c := new(Value)
		*c = tinfo(i.T).zero()
		return Value{P: &Iface{T: types.NewPointer(i.T), V: Value{P: c}}}
	}, "github.com/gocraft/web.newContext")
	reg(func(w *Worker, g *G, a []Value) Value {
		f := a[0].P.(*Iface)
		sig := f.T.Underlying().(*types.Signature)
		args := []Value{a[1].P.(*Iface).V, a[2], a[3]}
		if a[4].P != nil {
			args = append(args, a[4])
		}
		if sig.Params().Len() < len(args) {
			args = args[1:]
		}
		w.callValue(g, f.V, args)
		return Value{}
	}, "github.com/gocraft/web.invoke")
}
