package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Program counters are indices into a per-path table of functions and positions.

type pcInfo struct {
	name Value
	file Value
	line Value
	fnV  Value
}

const pcBase = 0x480000

const modelGOROOT = "/goroot/go"

// symName is the linker symbol of a function.
func symName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndexByte(n, '$'); i >= 0 {
			n = n[i+1:]
		}
		p := symName(fn.Parent())
		if fn.Parent().Parent() != nil {
			return p + "." + n
		}
		return p + ".func" + n
	}
	path := ""
	if p := fnPkg(fn); p != nil {
		path = p.Path()
		if p.Name() == "main" {
			path = "main"
		}
		i := strings.LastIndexByte(path, '/') + 1
		path = path[:i] + strings.ReplaceAll(path[i:], ".", "%2e")
	}
	n := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := false
		if p, ok := t.(*types.Pointer); ok {
			t, star = p.Elem(), true
		}
		if nt, ok := t.(*types.Named); ok {
			tn := nt.Obj().Name()
			if star {
				tn = "(*" + tn + ")"
			}
			n = tn + "." + n
		}
	}
	return path + "." + n
}

func (w *Worker) pcTab() *[]*pcInfo {
	t, _ := w.nat["pcs"].(*[]*pcInfo)
	if t == nil {
		t = new([]*pcInfo)
		w.nat["pcs"] = t
	}
	return t
}

func (w *Worker) addPCInfo(p *pcInfo) uint64 {
	t := w.pcTab()
	*t = append(*t, p)
	return pcBase + uint64(len(*t)-1)*64 + 9
}

// pcLookup accepts the program counter and the one before it.
func (w *Worker) pcLookup(v Value) *pcInfo {
	if v.P != nil {
		panic(unsupported("symbolic program counter"))
	}
	t := *w.pcTab()
	if v.U < pcBase {
		return nil
	}
	i := (v.U - pcBase) / 64
	if i >= uint64(len(t)) {
		return nil
	}
	return t[i]
}

func (w *Worker) funcPtr(p *pcInfo) Value {
	if p.fnV.P == nil {
		c := new(Value)
		w.nat[c] = p
		p.fnV = Value{P: c}
	}
	return p.fnV
}

func (w *Worker) frames(g *G) []uint64 {
	var r []uint64
	key := map[string]uint64{}
	if m, ok := w.nat["pcKeys"].(map[string]uint64); ok {
		key = m
	} else {
		w.nat["pcKeys"] = key
	}
	for fr := g.fr; fr != nil; fr = fr.caller {
		fn := fr.code.fn
		if fn == nil || fn.Synthetic != "" && fn.Parent() == nil && !strings.HasPrefix(fn.Synthetic, "instance") {
			continue
		}
		file, line := "", 0
		if fr.b != nil && fr.pc < len(fr.b.ins) && fr.b.ins[fr.pc].src != nil {
			p := w.sh.prog.Fset.Position(fr.b.ins[fr.pc].src.Pos())
			file, line = p.Filename, p.Line
		}
		k := fmt.Sprintf("%p:%d", fn, line)
		pc, ok := key[k]
		if !ok {
			pc = w.addPCInfo(&pcInfo{name: mkString(symName(fn)), file: mkString(file), line: mkInt(line)})
			key[k] = pc
		}
		r = append(r, pc)
	}
	return r
}

func init() {
	reg(func(w *Worker, g *G, a []Value) Value {
		skip := int(int64(w.conc(a[0], 64)))
		dst := sliceVals(a[1])
		fr := w.frames(g)
		// skip 0 is Callers itself
		if skip > 0 {
			skip--
		}
		n := 0
		for i := skip; i < len(fr) && n < len(dst); i++ {
			w.setCell(&dst[n], Value{U: fr[i]})
			n++
		}
		return mkInt(n)
	}, "runtime.Callers")
	reg(func(w *Worker, g *G, a []Value) Value {
		skip := int(int64(w.conc(a[0], 64)))
		fr := w.frames(g)
		if skip >= len(fr) {
			return w.tuple(Value{}, Value{}, Value{}, mkBool(false))
		}
		p := w.pcLookup(Value{U: fr[skip]})
		return w.tuple(Value{U: fr[skip]}, p.file, p.line, mkBool(true))
	}, "runtime.Caller")
	reg(func(w *Worker, g *G, a []Value) Value {
		dst := sliceVals(a[0])
		n := 0
		put := func(v Value) {
			for _, b := range strBytes(v) {
				if n < len(dst) {
					w.setCell(&dst[n], b)
					n++
				}
			}
		}
		put(mkString("goroutine 1 [running]:\n"))
		for _, pc := range w.frames(g) {
			p := w.pcLookup(Value{U: pc})
			put(p.name)
			put(mkString("()\n\t"))
			put(p.file)
			put(mkString("\n"))
		}
		return mkInt(n)
	}, "runtime.Stack")
	reg(func(w *Worker, g *G, a []Value) Value {
		p := w.pcLookup(a[0])
		if p == nil {
			return Value{}
		}
		return w.funcPtr(p)
	}, "runtime.FuncForPC")
	info := func(w *Worker, v Value) *pcInfo {
		c := cellOf(v)
		if c == nil {
			return nil
		}
		p, _ := w.nat[c].(*pcInfo)
		return p
	}
	reg(func(w *Worker, g *G, a []Value) Value {
		p := info(w, a[0])
		if p == nil {
			return Value{}
		}
		return p.name
	}, "(*runtime.Func).Name")
	reg(func(w *Worker, g *G, a []Value) Value {
		p := w.pcLookup(a[1])
		if info(w, a[0]) == nil {
			w.nilDeref()
		}
		if p == nil {
			return w.tuple(mkString("?"), mkInt(0))
		}
		return w.tuple(p.file, p.line)
	}, "(*runtime.Func).FileLine")
	reg(func(w *Worker, g *G, a []Value) Value {
		if info(w, a[0]) == nil {
			w.nilDeref()
		}
		return Value{U: pcBase}
	}, "(*runtime.Func).Entry")
	reg(func(w *Worker, g *G, a []Value) Value {
		pcs := append([]Value{}, sliceVals(a[0])...)
		c := new(Value)
		w.nat[c] = &pcs
		return Value{P: c}
	}, "runtime.CallersFrames")
	reg(func(w *Worker, g *G, a []Value) Value {
		pcs := w.nat[cellOf(a[0])].(*[]Value)
		ft := w.sh.prog.ImportedPackage("runtime").Type("Frame").Type()
		z := tinfo(ft).zero()
		if len(*pcs) == 0 {
			return w.tuple(z, mkBool(false))
		}
		pc := (*pcs)[0]
		*pcs = (*pcs)[1:]
		if p := w.pcLookup(pc); p != nil {
			st := ft.Underlying().(*types.Struct)
			ag := z.P.(*Agg)
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Name() {
				case "PC":
					ag.F[i] = Value{U: pc.U - 1}
				case "Func":
					ag.F[i] = w.funcPtr(p)
				case "Function":
					ag.F[i] = p.name
				case "File":
					ag.F[i] = p.file
				case "Line":
					ag.F[i] = p.line
				}
			}
		}
		return w.tuple(z, mkBool(len(*pcs) > 0))
	}, "(*runtime.Frames).Next")
	reg(func(w *Worker, g *G, a []Value) Value {
		return Value{U: w.addPCInfo(&pcInfo{name: a[0], file: a[1], line: a[2]})}
	}, zzPath+".FakePC")
	reg(func(w *Worker, g *G, a []Value) Value { return mkString(modelGOROOT) }, "runtime.GOROOT", zzPath+".GOROOT")
	reg(func(w *Worker, g *G, a []Value) Value { return mkBool(false) }, "time.runtimeIsBubbled")
}
