package hd

import (
	"strconv"
	"time"

	"github.com/gocraft/health/zzverif/zz"
)

// C35_crowd monitors many hosts, most of which answer at the same time.
func C35_crowd() {
	zz.FirstReady(true)
	count := []int{70, 135}[zz.Choice("count", 2)]
	how := zz.Choice("others", 3)
	zz.Bound("crowd", "70 or 135 hosts, one of which answers at once and the others together any number of nanoseconds up to 4.9 s after the poll, with data or not, or not at all")
	d := time.Duration(zz.Int64("delay"))
	zz.Assume(d > 0 && d <= 4900*time.Millisecond)
	if how == 2 {
		d = time.Hour
	}
	h := newHosts()
	at := time.Now().Truncate(time.Minute)
	n := int64(7)
	ok := encode("p", time.Minute, delivery{instance: "p", at: at, serial: 1, n: n, ok: 2}.agg())
	names := []string{"a:1"}
	h.answer["a:1"] = func() answer { return answer{code: 200, body: ok} }
	want := n
	for i := 1; i < count; i++ {
		name := "b" + strconv.Itoa(i) + ":1"
		names = append(names, name)
		h.slow[name] = d
		switch {
		case how == 0:
			h.answer[name] = func() answer { return answer{fail: true} }
		case i%8 == 1:
			h.answer[name] = func() answer { return answer{code: 200, body: ok} }
			if how == 1 {
				want += n
			}
		default:
			h.answer[name] = func() answer { return answer{code: 404, body: "{}"} }
		}
	}
	start(names...)
	time.Sleep(9 * time.Second)
	zz.Quiesce()
	var a *aggsW
	var hs []hostW
	zz.Assert(zz.Within(500*time.Millisecond, func() {
		a = getAggs()
		if how != 1 { // then the list holds times that are not known
			hs = getHosts()
		}
	}), "healthd answers whenever its hosts did")
	zz.Assert(len(a.Aggregations) == 1 && a.Aggregations[0].Events["e"] == want, "data of all hosts that answered are served")
	zz.Assert(how == 1 || len(hs) == count, "all hosts are listed")
	for _, x := range hs {
		zz.Assert(!x.Check.IsZero(), "the outcome of every poll was taken")
	}
	zz.Reach("end")
}

// C35_rounds polls many hosts again and again.
func C35_rounds() {
	zz.FirstReady(true)
	zz.Bound("rounds", "70 hosts, three polls; a host that answers any number of nanoseconds up to 1 s after the poll, the others together up to 2.5 s later in every round")
	d := time.Duration(zz.Int64("delay"))
	zz.Assume(d > 0 && d <= time.Second)
	e := time.Duration(zz.Int64("gap"))
	zz.Assume(e > 0 && e <= 2500*time.Millisecond)
	h := newHosts()
	at := time.Now().Truncate(time.Minute)
	round := int64(0)
	h.slow["a:1"] = d
	names := []string{"a:1"}
	h.answer["a:1"] = func() answer {
		round++
		return answer{code: 200, body: encode("p", time.Minute, delivery{instance: "p", at: at, serial: round, n: 10 * round, ok: 2}.agg())}
	}
	for i := 1; i < 70; i++ {
		name := "b" + strconv.Itoa(i) + ":1"
		names = append(names, name)
		h.slow[name] = d + e
		h.answer[name] = func() answer { return answer{fail: true} }
	}
	start(names...)
	for i := int64(1); i <= 3; i++ {
		time.Sleep(9 * time.Second)
		zz.Quiesce()
		var a *aggsW
		zz.Assert(zz.Within(500*time.Millisecond, func() { a = getAggs() }), "healthd answers whenever its hosts did")
		zz.Assert(round == i, "hosts are polled again")
		zz.Assert(len(a.Aggregations) == 1 && a.Aggregations[0].Events["e"] == 10*i, "the latest data are served")
		time.Sleep(time.Second)
	}
	zz.Reach("end")
}
