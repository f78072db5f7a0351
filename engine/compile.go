package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBin
	iUn
	iLoad
	iCall
	iChangeIface
	iCopy
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArr
	iStore
	iTypeAssert
	iRecv
	iUnsup
)

type instr struct {
	op      iop
	tok     token.Token
	commaOk bool
	dst     int32
	a, b, c int32
	d       int32
	n       int
	ti, ti2 *TInfo
	args    []int32
	x       any
	src     ssa.Instruction
}

type phi struct {
	dst int32
	in  []int32
	ti  *TInfo
}

type block struct {
	idx    int
	phis   []phi
	ins    []instr
	succs  []*block
	predIx []int // for each successor: index of this block among its predecessors
	preds  []*block
	reg    *region
	loop   bool
}

type region struct {
	order []*block // topologically, without the head
	in    map[*block]bool
}

type fnCode struct {
	fn     *ssa.Function
	nslots int
	blocks []*block
	consts []Value
	params int
	hasDef bool
	recov  *block
	intr   Intrinsic
	named  []int32 // result allocs for recover
	name   string
	isRepo bool
	nres   int
	synth  bool
	resTI  []*TInfo
}

type Intrinsic func(w *Worker, g *G, args []Value) Value

func (w *Worker) code(fn *ssa.Function) *fnCode {
	if c := w.codes[fn]; c != nil {
		return c
	}
	return w.compile(fn)
}

func (w *Worker) compile(fn *ssa.Function) *fnCode { return w.compile1(fn, false) }

// compileNoIntr compiles the real body even if the function has a model.
func (w *Worker) compileNoIntr(fn *ssa.Function) *fnCode { return w.compile1(fn, true) }

func (w *Worker) compile1(fn *ssa.Function, noIntr bool) *fnCode {
	c := &fnCode{fn: fn, name: fn.String(), params: len(fn.Params)}
	w.codes[fn] = c
	c.synth = fn.Synthetic != ""
	if noIntr {
		return w.compileBody(c, fn)
	}
	if o := fn.Origin(); o != nil {
		if in := intrinsics[o.String()]; in != nil {
			c.intr = in
			return c
		}
	}
	if in := intrinsics[c.name]; in != nil {
		c.intr = in
		return c
	}
	if fn.Pkg != nil {
		if in := pkgIntrinsic(fn); in != nil {
			c.intr = in
			return c
		}
	}
	if fn.Blocks == nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "math" && strings.HasPrefix(fn.Name(), "arch") {
		// the portable version of what is written in assembly
		n := fn.Name()[4:]
		if f := fn.Pkg.Func(strings.ToLower(n[:1]) + n[1:]); f != nil && f.Blocks != nil {
			return w.compileBody(c, f)
		}
	}
	if to := linknames[c.name]; fn.Blocks == nil && to[0] != "" {
		if pk := w.sh.prog.ImportedPackage(to[0]); pk != nil {
			if f := pk.Func(to[1]); f != nil && f.Blocks != nil {
				return w.compileBody(c, f)
			}
		}
	}
	if fn.Blocks == nil {
		name := c.name
		c.intr = func(w *Worker, g *G, args []Value) Value {
			panic(unsupported("function without body: " + name))
		}
		return c
	}
	return w.compileBody(c, fn)
}

// linknames are library functions whose body is in another package.
var linknames = map[string][2]string{
	"net/http.readMIMEHeader": {"net/textproto", "readMIMEHeader"},
}

func (w *Worker) compileBody(c *fnCode, fn *ssa.Function) *fnCode {
	c.isRepo = isRepoFn(fn)
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.resTI = append(c.resTI, tinfo(res.At(i).Type()))
	}
	c.nres = res.Len()

	slots := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		slots[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		slots[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slots[v] = n
				n++
			}
		}
	}
	c.nslots = int(n)
	constIx := map[ssa.Value]int32{}
	addConst := func(v Value) int32 {
		c.consts = append(c.consts, v)
		return int32(-len(c.consts))
	}
	opnd := func(v ssa.Value) int32 {
		if v == nil {
			return math.MinInt32
		}
		if s, ok := slots[v]; ok {
			return s
		}
		if i, ok := constIx[v]; ok {
			return i
		}
		var val Value
		switch x := v.(type) {
		case *ssa.Const:
			val = constVal(x)
		case *ssa.Global:
			val = Value{P: w.global(x)}
		case *ssa.Function:
			val = Value{P: w.funcVal(x)}
		case *ssa.Builtin:
			val = Value{P: x}
		default:
			panic(unsupported(fmt.Sprintf("operand %T", v)))
		}
		i := addConst(val)
		constIx[v] = i
		return i
	}
	blocks := make([]*block, len(fn.Blocks))
	for i := range blocks {
		blocks[i] = &block{idx: i}
	}
	for i, b := range fn.Blocks {
		bl := blocks[i]
		for _, s := range b.Succs {
			bl.succs = append(bl.succs, blocks[s.Index])
		}
		for _, p := range b.Preds {
			bl.preds = append(bl.preds, blocks[p.Index])
		}
	}
	for i, b := range fn.Blocks {
		bl := blocks[i]
		seen := map[*ssa.BasicBlock]int{}
		for _, s := range b.Succs {
			// position among the successor's predecessors (handles double edges)
			k := seen[s]
			cnt := 0
			ix := -1
			for j, p := range s.Preds {
				if p == b {
					if cnt == k {
						ix = j
						break
					}
					cnt++
				}
			}
			seen[s]++
			bl.predIx = append(bl.predIx, ix)
		}
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := phi{dst: slots[p], ti: tinfo(p.Type())}
				for _, e := range p.Edges {
					ph.in = append(ph.in, opnd(e))
				}
				bl.phis = append(bl.phis, ph)
				continue
			}
			ci := w.compileInstr(c, in, slots, opnd)
			if ci.op == iNop {
				continue
			}
			if ci.op == iDefer {
				c.hasDef = true
			}
			bl.ins = append(bl.ins, ci)
		}
	}
	if fn.Recover != nil {
		c.recov = blocks[fn.Recover.Index]
	}
	c.blocks = blocks
	for _, b := range blocks {
		computeRegion(b)
	}
	return c
}

func constVal(x *ssa.Const) Value {
	ti := tinfo(x.Type())
	if x.Value == nil {
		return ti.zero()
	}
	switch ti.k {
	case KBool:
		return mkBool(constant.BoolVal(x.Value))
	case KInt:
		if v, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return Value{U: uint64(v) & mask(ti.sort)}
		}
		v, _ := constant.Uint64Val(constant.ToInt(x.Value))
		return Value{U: v & mask(ti.sort)}
	case KFloat:
		f, _ := constant.Float64Val(x.Value)
		if ti.sort == SFP32 {
			f32, _ := constant.Float32Val(x.Value)
			return Value{U: uint64(math.Float32bits(f32))}
		}
		return Value{U: math.Float64bits(f)}
	case KString:
		if x.Value.Kind() == constant.String {
			return mkString(constant.StringVal(x.Value))
		}
		i, _ := constant.Int64Val(x.Value)
		return mkString(string(rune(i)))
	case KComplex:
		return Value{P: &Poison{"complex constant"}}
	}
	return Value{P: &Poison{"constant " + x.String()}}
}

func (w *Worker) compileInstr(c *fnCode, in ssa.Instruction, slots map[ssa.Value]int32, opnd func(ssa.Value) int32) instr {
	r := instr{src: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		r.dst = slots[v]
	}
	callOps := func(cc *ssa.CallCommon) {
		r.a = opnd(cc.Value)
		for _, a := range cc.Args {
			r.args = append(r.args, opnd(a))
		}
		r.x = cc
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		r.op = iNop
	case *ssa.Alloc:
		r.op = iAlloc
		r.ti = tinfo(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		r.op, r.tok = iBin, x.Op
		r.a, r.b = opnd(x.X), opnd(x.Y)
		r.ti, r.ti2 = tinfo(x.X.Type()), tinfo(x.Y.Type())
		if r.ti.k == KPtr && isNilConst(x.X) {
			r.ti = r.ti2
		}
	case *ssa.UnOp:
		r.a, r.tok = opnd(x.X), x.Op
		r.ti = tinfo(x.Type())
		switch x.Op {
		case token.MUL:
			r.op = iLoad
		case token.ARROW:
			r.op = iRecv
			r.commaOk = x.CommaOk
			r.ti = tinfo(x.X.Type().Underlying().(*types.Chan).Elem())
		default:
			r.op = iUn
		}
	case *ssa.Call:
		r.op = iCall
		callOps(&x.Call)
	case *ssa.ChangeInterface:
		r.op, r.a = iCopy, opnd(x.X)
	case *ssa.ChangeType:
		r.op, r.a = iCopy, opnd(x.X)
	case *ssa.Convert:
		r.op, r.a = iConvert, opnd(x.X)
		r.ti, r.ti2 = tinfo(x.Type()), tinfo(x.X.Type())
	case *ssa.MultiConvert:
		r.op, r.a = iConvert, opnd(x.X)
		r.ti, r.ti2 = tinfo(x.Type()), tinfo(x.X.Type())
	case *ssa.Defer:
		r.op = iDefer
		callOps(&x.Call)
	case *ssa.Go:
		r.op = iGo
		callOps(&x.Call)
	case *ssa.Extract:
		r.op, r.a, r.n = iExtract, opnd(x.Tuple), x.Index
	case *ssa.Field:
		r.op, r.a, r.n = iField, opnd(x.X), x.Field
	case *ssa.FieldAddr:
		r.op, r.a, r.n = iFieldAddr, opnd(x.X), x.Field
	case *ssa.If:
		r.op, r.a = iIf, opnd(x.Cond)
	case *ssa.Index:
		r.op, r.a, r.b = iIndex, opnd(x.X), opnd(x.Index)
		r.ti, r.ti2 = tinfo(x.X.Type()), tinfo(x.Index.Type())
	case *ssa.IndexAddr:
		r.op, r.a, r.b = iIndexAddr, opnd(x.X), opnd(x.Index)
		r.ti, r.ti2 = tinfo(x.X.Type()), tinfo(x.Index.Type())
		r.x = tinfo(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Jump:
		r.op = iJump
	case *ssa.Lookup:
		r.op, r.a, r.b = iLookup, opnd(x.X), opnd(x.Index)
		r.commaOk = x.CommaOk
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			r.ti, r.ti2 = tinfo(m.Key()), tinfo(m.Elem())
		} else {
			r.op = iIndex
			r.ti, r.ti2 = tinfo(x.X.Type()), tinfo(x.Index.Type())
		}
	case *ssa.MakeChan:
		r.op, r.a = iMakeChan, opnd(x.Size)
		r.ti = tinfo(x.Type().Underlying().(*types.Chan).Elem())
	case *ssa.MakeClosure:
		r.op = iMakeClosure
		r.x = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			r.args = append(r.args, opnd(b))
		}
	case *ssa.MakeInterface:
		r.op, r.a = iMakeIface, opnd(x.X)
		r.x = tinfo(x.X.Type()).canon
	case *ssa.MakeMap:
		r.op = iMakeMap
		m := x.Type().Underlying().(*types.Map)
		r.x = [2]types.Type{m.Key(), m.Elem()}
	case *ssa.MakeSlice:
		r.op, r.a, r.b = iMakeSlice, opnd(x.Len), opnd(x.Cap)
		r.ti = tinfo(x.Type().Underlying().(*types.Slice).Elem())
		r.ti2 = tinfo(x.Len.Type())
	case *ssa.MapUpdate:
		r.op, r.a, r.b, r.c = iMapUpdate, opnd(x.Map), opnd(x.Key), opnd(x.Value)
		m := x.Map.Type().Underlying().(*types.Map)
		r.ti = tinfo(m.Key())
	case *ssa.Next:
		r.op, r.a = iNext, opnd(x.Iter)
		r.commaOk = x.IsString
		tt := x.Type().(*types.Tuple)
		r.ti, r.ti2 = tinfo(tt.At(1).Type()), tinfo(tt.At(2).Type())
	case *ssa.Panic:
		r.op, r.a = iPanic, opnd(x.X)
	case *ssa.Range:
		r.op, r.a = iRange, opnd(x.X)
		r.ti = tinfo(x.X.Type())
	case *ssa.Return:
		r.op = iReturn
		for _, a := range x.Results {
			r.args = append(r.args, opnd(a))
		}
	case *ssa.RunDefers:
		r.op = iRunDefers
	case *ssa.Select:
		r.op = iSelect
		r.x = x
		r.commaOk = x.Blocking
		for _, s := range x.States {
			r.args = append(r.args, opnd(s.Chan), opnd(s.Send))
		}
	case *ssa.Send:
		r.op, r.a, r.b = iSend, opnd(x.Chan), opnd(x.X)
	case *ssa.Slice:
		r.op, r.a, r.b, r.c, r.d = iSlice, opnd(x.X), opnd(x.Low), opnd(x.High), opnd(x.Max)
		r.ti = tinfo(x.X.Type())
	case *ssa.SliceToArrayPointer:
		r.op, r.a = iSliceToArr, opnd(x.X)
		r.ti = tinfo(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Store:
		r.op, r.a, r.b = iStore, opnd(x.Addr), opnd(x.Val)
		r.ti = tinfo(x.Val.Type())
	case *ssa.TypeAssert:
		r.op, r.a = iTypeAssert, opnd(x.X)
		r.commaOk = x.CommaOk
		r.ti = tinfo(x.AssertedType)
		r.x = x.X.Type()
	default:
		r.op = iUnsup
		r.x = fmt.Sprintf("%T", in)
	}
	return r
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// pureInstr tells whether an instruction may be executed speculatively under a guard.
func pureInstr(in *instr) bool {
	switch in.op {
	case iBin:
		switch in.tok {
		case token.QUO, token.REM:
			return in.ti.k == KFloat
		}
		return true
	case iUn, iCopy, iField, iExtract, iIndex, iFieldAddr, iIndexAddr, iLoad, iMakeIface:
		return true
	case iConvert:
		return in.ti.scalar() && in.ti2.scalar()
	case iStore:
		return in.ti.scalar()
	case iCall:
		if b, ok := in.x.(*ssa.CallCommon).Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
		}
	}
	return false
}

const maxRegion = 24

func pureBlock(b *block) bool {
	if len(b.ins) > 40 {
		return false
	}
	for i := range b.ins {
		in := &b.ins[i]
		switch in.op {
		case iJump, iIf, iReturn:
			continue
		}
		if !pureInstr(in) {
			return false
		}
	}
	return true
}

// computeRegion finds, for a block ending in If, the acyclic pure blocks it dominates.
func computeRegion(h *block) {
	if len(h.ins) == 0 || h.ins[len(h.ins)-1].op != iIf {
		return
	}
	in := map[*block]bool{}
	var order []*block
	for changed := true; changed && len(order) < maxRegion; {
		changed = false
		cand := append([]*block{h}, order...)
		for _, b := range cand {
			for _, s := range b.succs {
				if s == h || in[s] || !pureBlock(s) {
					continue
				}
				ok := true
				for _, p := range s.preds {
					if p != h && !in[p] {
						ok = false
						break
					}
				}
				if ok && len(order) < maxRegion {
					in[s] = true
					order = append(order, s)
					changed = true
				}
			}
		}
	}
	if len(order) == 0 {
		return
	}
	h.reg = &region{order: order, in: in}
}
