package hd

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// C25_series delivers intervals in any order.
func C25_series() {
	n := 3
	if zz.Thorough() {
		n = 4
	}
	zz.Bound("series", "interval durations of 30 min, 40 min, 1 h, 2 h and 3 h (4, 3, 2, 1 and 0 intervals retained); 3 (thorough 4) deliveries of one or two of five intervals each, in any order, by one host in any of two time zones")
	d := []time.Duration{30 * time.Minute, 40 * time.Minute, time.Hour, 2 * time.Hour, 3 * time.Hour}[zz.Choice("duration", 5)]
	max := int(2 * time.Hour / d)
	h := newHosts()
	l := &ledger{}
	base := time.Now()
	serial := int64(0)
	h.answer["h:1"] = func() answer {
		var aggs []*health.IntervalAggregation
		k := zz.Choice("count", 2) + 1
		i := zz.Choice("which", 5)
		for j := 0; j < k; j++ {
			serial++
			v := delivery{host: "h:1", instance: "p", at: base.Add(-time.Duration((i+3*j)%5) * d), serial: serial, n: serial, ok: 2}
			if j == 1 {
				v.at = v.at.In(zone)
			}
			l.deliver(v)
			aggs = append(aggs, v.agg())
		}
		return answer{code: 200, body: encode("p", d, aggs...)}
	}
	start("h:1")
	time.Sleep(9 * time.Second)
	for r := 0; r < n; r++ {
		zz.Quiesce()
		l.check(getAggs(), max)
		if r < n-1 {
			time.Sleep(10 * time.Second)
		}
	}
	zz.Reach("end")
}

// C25_purge lets data grow old.
func C25_purge() {
	rounds := 8
	zz.Bound("ages", "intervals of 10 s; data of two hosts, one of which delivers again 1..5 intervals later, changed or not, or never; served for 8 intervals; event counts of 10..24 each")
	h := newHosts()
	l := &ledger{}
	t0 := time.Now()
	again := zz.Choice("again", 6)
	same := zz.Choice("same", 2) == 1
	for i, name := range []string{"a:1", "b:1"} {
		round := -1
		if i == 1 {
			h.slow[name] = time.Second
		}
		h.answer[name] = func() answer {
			round++
			if round == 0 || i == 0 && round == again {
				v := delivery{host: name, instance: "p", at: t0, serial: int64(round + 1), n: zz.IntN("n."+name, 10, 24), ok: 3}
				if same {
					v.serial = 1
				}
				l.deliver(v)
				return answer{code: 200, body: encode("p", 10*time.Second, v.agg())}
			}
			if round < 3 && zz.Choice("down."+name, 2) == 1 {
				return answer{fail: true}
			}
			return answer{code: 200, body: encode("p", 10*time.Second)}
		}
	}
	start("a:1", "b:1")
	time.Sleep(9 * time.Second)
	for r := 0; r < rounds; r++ {
		zz.Quiesce()
		l.check(getAggs(), 720)
		time.Sleep(10 * time.Second)
	}
	zz.Reach("end")
}

// C25_many delivers more intervals than are retained.
func C25_many() {
	zz.Bound("many", "interval durations of 1 min, 130 intervals delivered at once in ascending or descending order or by two hosts alternately")
	h := newHosts()
	l := &ledger{}
	order := zz.Choice("order", 3)
	base := time.Now()
	names := []string{"a:1"}
	if order == 2 {
		names = []string{"a:1", "b:1"}
		h.slow["b:1"] = time.Second
	}
	for k, name := range names {
		sent := false
		h.answer[name] = func() answer {
			var aggs []*health.IntervalAggregation
			for i := 0; i < 130 && !sent; i++ {
				j := i
				if order == 1 {
					j = 129 - i
				}
				if order == 2 && i%2 != k {
					continue
				}
				v := delivery{host: name, instance: "p", at: base.Add(-time.Duration(j) * time.Minute), serial: 1, n: int64(i), ok: 2}
				l.deliver(v)
				aggs = append(aggs, v.agg())
			}
			sent = true
			return answer{code: 200, body: encode("p", time.Minute, aggs...)}
		}
	}
	start(names...)
	time.Sleep(9 * time.Second)
	zz.Quiesce()
	l.check(getAggs(), 120)
	time.Sleep(10 * time.Second)
	zz.Quiesce()
	l.check(getAggs(), 120)
	zz.Reach("end")
}

// C25_short delivers intervals shorter than a second.
func C25_short() {
	zz.Bound("short", "interval durations of 1 ms, 100 ms and 0.5 s; 4 intervals one after another, delivered in any of 4 orders at once or one with each poll")
	d := []time.Duration{time.Millisecond, 100 * time.Millisecond, 500 * time.Millisecond}[zz.Choice("duration", 3)]
	order := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2}}[zz.Choice("order", 4)]
	each := zz.Choice("each", 2) == 1
	h := newHosts()
	l := &ledger{}
	base := time.Now().Truncate(time.Minute).Add(time.Hour) // not purged
	k := 0
	h.answer["h:1"] = func() answer {
		var aggs []*health.IntervalAggregation
		for k < 4 {
			v := delivery{host: "h:1", instance: "p", at: base.Add(time.Duration(order[k]) * d), serial: 1, n: int64(10 + k), ok: 2}
			k++
			l.deliver(v)
			aggs = append(aggs, v.agg())
			if each {
				break
			}
		}
		return answer{code: 200, body: encode("p", d, aggs...)}
	}
	start("h:1")
	time.Sleep(9 * time.Second)
	for r := 0; r < 4; r++ {
		zz.Quiesce()
		l.check(getAggs(), 1000)
		time.Sleep(10 * time.Second)
	}
	zz.Reach("end")
}
