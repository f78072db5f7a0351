package hd

import (
	"time"

	"github.com/gocraft/health/zzverif/zz"
)

// C29_served delivers data while another host is slow.
func C29_served() {
	zz.Bound("served", "a host that answers any number of nanoseconds up to 1 s after the poll, another that answers after 4.9 s or never; looked at exactly two seconds and two steps of 0.3 s after the answer, and at the end")
	d := time.Duration(zz.Int64("delay"))
	zz.Assume(d > 0 && d <= time.Second)
	h := newHosts()
	at := time.Now().Truncate(time.Minute)
	h.slow["a:1"] = d
	h.slow["b:1"] = 4900*time.Millisecond + 7
	if zz.Choice("never", 2) == 1 {
		h.slow["b:1"] = time.Hour
	}
	n := zz.IntN("n", 10, 99)
	for _, name := range []string{"a:1", "b:1"} {
		h.answer[name] = func() answer {
			v := delivery{host: name, instance: "p", at: at, serial: 1, n: n, ok: 2}
			return answer{code: 200, body: encode("p", time.Minute, v.agg())}
		}
	}
	start("a:1", "b:1")
	time.Sleep(d + 2600*time.Millisecond + 1)
	zz.Quiesce()
	a := getAggs()
	zz.Assert(len(a.Aggregations) == 1, "data is served in time")
	zz.Assert(a.Aggregations[0].Events["e"] == n, "of the host that answered")
	time.Sleep(3 * time.Second)
	zz.Quiesce()
	a = getAggs()
	want := n
	if h.slow["b:1"] < 5*time.Second {
		want = 2 * n
	}
	zz.Assert(len(a.Aggregations) == 1 && a.Aggregations[0].Events["e"] == want, "data of all hosts that answered")
	zz.Reach("end")
}
