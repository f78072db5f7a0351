package main

import (
	"math/rand"
	"testing"
)

// TestSimplify compares simplified terms with the plain meaning of the operations.
func TestSimplify(t *testing.T) {
	for seed := int64(0); seed < 60000; seed++ {
		r := rand.New(rand.NewSource(seed))
		ar := NewArena()
		ws := []Sort{8, 16, 32, 64, 30}
		type pair struct {
			t *Term
			v uint64
		}
		m := Model{}
		var bv []pair
		var bl []pair
		val := func(w Sort) uint64 {
			switch r.Intn(4) {
			case 0:
				return uint64(r.Intn(3)) & mask(w)
			case 1:
				return -uint64(r.Intn(3)) & mask(w)
			}
			return r.Uint64() & mask(w)
		}
		for i := 0; i < 3; i++ {
			w := ws[r.Intn(len(ws))]
			name := string(rune('a' + i))
			hi := uint64(0)
			v := val(w)
			if r.Intn(2) == 0 {
				hi = uint64(r.Intn(1<<uint(r.Intn(7)+1))) + 1
				v %= hi + 1
			}
			m[name] = v
			bv = append(bv, pair{ar.Var(name, w, hi), v})
		}
		bl = append(bl, pair{ar.true_, 1})
		pick := func(w Sort) pair {
			for k := 0; k < 8; k++ {
				if p := bv[r.Intn(len(bv))]; p.t.sort == w {
					return p
				}
			}
			v := val(w)
			if r.Intn(3) == 0 {
				v = []uint64{1000000000, 1, 2, 60, 1000, 1 << 31, 0x3fffffff}[r.Intn(7)] & mask(w)
			}
			return pair{ar.BV(v, w), v}
		}
		ar.newGen()
		chk := func(what string, x *Term, v uint64) {
			if g := ar.eval(x, m); g != v {
				t.Fatalf("seed %d %s: %s evaluates to %x, expected %x", seed, what, x, g, v)
			}
		}
		raw := func(op Op, s Sort, val uint64, x []uint64, args ...*Term) uint64 {
			tt := &Term{op: op, sort: s, val: val, n: uint8(len(args))}
			copy(tt.a[:], args)
			return evalOp(tt, x)
		}
		for i := 0; i < 14; i++ {
			a := bv[r.Intn(len(bv))]
			b := pick(a.t.sort)
			w := a.t.sort
			var x *Term
			var v uint64
			op := Op(0)
			bin := func(o Op, f func(a, b *Term) *Term) {
				if r.Intn(2) == 0 && (o == OSub || o == OSDiv || o == OUDiv) {
					a, b = b, a
				}
				op = o
				x = f(a.t, b.t)
				v = raw(o, w, 0, []uint64{a.v, b.v}, a.t, b.t)
			}
			cmp := func(o Op, f func(a, b *Term) *Term) {
				op = o
				x = f(a.t, b.t)
				v = raw(o, SBool, 0, []uint64{a.v, b.v}, a.t, b.t)
				chk("cmp", x, v)
				bl = append(bl, pair{x, v})
				x = nil
			}
			switch r.Intn(24) {
			case 0:
				bin(OAdd, ar.Add)
			case 1:
				bin(OSub, ar.Sub)
			case 2:
				bin(OMul, ar.Mul)
			case 3:
				if b.v != 0 {
					bin(OUDiv, func(x, y *Term) *Term { return ar.UDiv(x, y) })
				}
			case 4:
				if b.v != 0 {
					op = OURem
					x = ar.URem(a.t, b.t)
					v = a.v % b.v
				}
			case 5:
				if b.v != 0 {
					op = OSDiv
					x = ar.SDiv(a.t, b.t)
					v = raw(OSDiv, w, 0, []uint64{a.v, b.v}, a.t, b.t)
				}
			case 6:
				if b.v != 0 {
					op = OSRem
					x = ar.SRem(a.t, b.t)
					v = raw(OSRem, w, 0, []uint64{a.v, b.v}, a.t, b.t)
				}
			case 7:
				bin(OBAnd, ar.BAnd)
			case 8:
				bin(OBOr, ar.BOr)
			case 9:
				bin(OBXor, ar.BXor)
			case 10, 11, 12:
				k := uint64(r.Intn(int(w) + 2))
				if k > mask(w) {
					k = 1
				}
				c := ar.BV(k, w)
				o := []Op{OShl, OLShr, OAShr}[r.Intn(3)]
				v = raw(o, w, 0, []uint64{a.v, k}, a.t, c)
				switch o {
				case OShl:
					x = ar.Shl(a.t, c)
				case OLShr:
					x = ar.LShr(a.t, c)
				default:
					x = ar.AShr(a.t, c)
				}
				op = o
			case 13:
				x, v, op = ar.Neg(a.t), -a.v&mask(w), ONeg
			case 14:
				x, v, op = ar.BNot(a.t), ^a.v&mask(w), OBNot
			case 15:
				cmp(OULt, ar.ULt)
			case 16:
				cmp(OULe, ar.ULe)
			case 17:
				cmp(OSLt, ar.SLt)
			case 18:
				cmp(OSLe, ar.SLe)
			case 19:
				cmp(OEq, ar.Eq)
			case 20:
				w2 := ws[r.Intn(len(ws))]
				if w2 > w {
					x, v, op = ar.ZExt(a.t, w2), a.v, OZExt
				} else if w2 < w {
					lo := r.Intn(int(w-w2) + 1)
					x, v, op = ar.Extract(a.t, lo+int(w2)-1, lo), a.v>>lo&mask(w2), OExtract
				}
			case 21:
				w2 := ws[r.Intn(len(ws))]
				if w2 > w {
					x, v, op = ar.SExt(a.t, w2), uint64(sext(a.v, w))&mask(w2), OSExt
				}
			case 22:
				c := bl[r.Intn(len(bl))]
				op = OIte
				x = ar.Ite(c.t, a.t, b.t)
				v = b.v
				if c.v != 0 {
					v = a.v
				}
			case 23:
				c, d := bl[r.Intn(len(bl))], bl[r.Intn(len(bl))]
				chk("and", ar.And(c.t, d.t), c.v&d.v)
				chk("or", ar.Or(c.t, d.t), c.v|d.v)
				chk("not", ar.Not(c.t), 1-c.v)
				bl = append(bl, pair{ar.And(c.t, d.t), c.v & d.v}, pair{ar.Or(c.t, d.t), c.v | d.v}, pair{ar.Not(c.t), 1 - c.v})
			}
			if x != nil {
				chk(opName[op], x, v)
				lo, hi := ar.rng(x)
				if v < lo || v > hi {
					t.Fatalf("seed %d: range of %s is %x..%x, value %x", seed, x, lo, hi, v)
				}
				km, kv := ar.known(x)
				if v&km != kv {
					t.Fatalf("seed %d: known bits of %s are %x/%x, value %x", seed, x, kv, km, v)
				}
				sl, sh := ar.srng(x)
				if sv := sext(v, x.sort); sv < sl || sv > sh {
					t.Fatalf("seed %d: signed range of %s is %d..%d, value %d", seed, x, sl, sh, sv)
				}
				bv = append(bv, pair{x, v})
			}
		}
	}
}
