package main

import (
	"fmt"
)

// vclock is a vector clock indexed by goroutine.
type vclock []uint32

func (v vclock) clone() vclock { return append(vclock{}, v...) }
func (v *vclock) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}
func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type epoch struct {
	g   int
	clk uint32
	fn  string
}

type raceState struct {
	w  epoch
	rs []epoch
}

func (w *Worker) gname(g *G) string {
	for fr := g.fr; fr != nil; fr = fr.caller {
		if fr.code != nil && fr.code.isRepo {
			return fr.code.name
		}
	}
	if g.fr != nil {
		return g.fr.code.name
	}
	return "?"
}

func (w *Worker) raceAccess(g *G, s *raceState, write bool) {
	if g.id < 0 {
		return
	}
	if len(g.vc) <= g.id || g.vc[g.id] == 0 {
		g.vc.tick(g.id)
	}
	bad := ""
	if s.w.clk > 0 && s.w.g != g.id && s.w.clk > g.vc.at(s.w.g) {
		bad = fmt.Sprintf("write in %s and %s in %s", s.w.fn, map[bool]string{true: "write", false: "read"}[write], w.gname(g))
	}
	if write {
		for _, r := range s.rs {
			if r.g != g.id && r.clk > g.vc.at(r.g) {
				bad = fmt.Sprintf("read in %s and write in %s", r.fn, w.gname(g))
			}
		}
	}
	if bad != "" {
		panic(&pathEnd{"race", "data race: " + bad})
	}
	e := epoch{g.id, g.vc[g.id], w.gname(g)}
	if write {
		s.w = e
		s.rs = s.rs[:0]
		return
	}
	for i := range s.rs {
		if s.rs[i].g == g.id {
			s.rs[i] = e
			return
		}
	}
	s.rs = append(s.rs, e)
}

func (w *Worker) raceAt(g *G, c *Value, write bool) {
	if w.inInit > 0 {
		return
	}
	s := w.raceTab[c]
	if s == nil {
		s = &raceState{}
		w.raceTab[c] = s
	}
	w.raceAccess(g, s, write)
}

func (w *Worker) raceRead(g *G, c *Value)  { w.raceAt(g, c, false) }
func (w *Worker) raceWrite(g *G, c *Value) { w.raceAt(g, c, true) }

func (w *Worker) raceAgg(g *G, a *Agg, write bool) {
	for i := range a.F {
		w.raceAt(g, &a.F[i], write)
		if x, ok := a.F[i].P.(*Agg); ok {
			w.raceAgg(g, x, write)
		}
	}
}

func (w *Worker) raceSlice(g *G, s *SliceV, lo, hi int, write bool) {
	for i := lo; i < hi; i++ {
		c := &s.A.F[s.off+i]
		w.raceAt(g, c, write)
		if x, ok := c.P.(*Agg); ok {
			w.raceAgg(g, x, write)
		}
	}
}

func (w *Worker) raceMap(g *G, m *MapV, write bool) {
	if w.inInit > 0 {
		return
	}
	s := w.raceMaps[m]
	if s == nil {
		s = &raceState{}
		w.raceMaps[m] = s
	}
	w.raceAccess(g, s, write)
}
