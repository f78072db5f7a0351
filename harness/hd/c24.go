package hd

import (
	"strconv"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

var zone = time.FixedZone("", 2*3600)

// what was delivered last by a process for an instant
type delivery struct {
	host, instance string
	at             time.Time
	serial         int64
	n, ok          int64
}

type ledger struct{ all []*delivery }

func (l *ledger) find(host, instance string, at time.Time) *delivery {
	for _, d := range l.all {
		if d.host == host && d.instance == instance && d.at.Equal(at) {
			return d
		}
	}
	return nil
}

// deliver notes data unless it has been delivered already.
func (l *ledger) deliver(d delivery) {
	o := l.find(d.host, d.instance, d.at)
	if o == nil {
		l.all = append(l.all, &d)
	} else if o.serial != d.serial {
		*o = d
	}
}

func (d delivery) agg() *health.IntervalAggregation {
	ia := health.NewIntervalAggregation(d.at)
	ia.SerialNumber = d.serial
	ia.Events["e"] = d.n
	ia.Timers["t"] = &health.TimerAggregation{Count: 1, NanosSum: d.ok, NanosSumSquares: float64(d.ok * d.ok), NanosMin: d.ok, NanosMax: d.ok}
	ja := &health.JobAggregation{CountSuccess: d.ok}
	ja.Count, ja.NanosSum, ja.NanosMin, ja.NanosMax = d.ok, d.ok*7, d.ok, d.ok+6
	ja.Events = map[string]int64{d.host: 1}
	ia.Jobs["j"] = ja
	return ia
}

// check compares the served series with the ledger.
func (l *ledger) check(a *aggsW, max int) {
	var times []time.Time
	for _, d := range l.all {
		i := 0
		for i < len(times) && times[i].Before(d.at) {
			i++
		}
		if i < len(times) && times[i].Equal(d.at) {
			continue
		}
		times = append(times, time.Time{})
		copy(times[i+1:], times[i:])
		times[i] = d.at
	}
	if len(times) > max {
		times = times[len(times)-max:]
	}
	zz.Assert(len(a.Aggregations) == len(times), "one aggregation per interval")
	for i, t := range times {
		g := a.Aggregations[i]
		zz.Assert(g.Start.Equal(t), "intervals in order")
		var n, ok, k, min, max int64
		hosts := map[string]int64{}
		for _, d := range l.all {
			if !d.at.Equal(t) {
				continue
			}
			n += d.n
			ok += d.ok
			if k == 0 || d.ok < min {
				min = d.ok
			}
			if k == 0 || d.ok > max {
				max = d.ok
			}
			k++
			hosts[d.host]++
		}
		zz.Assert(len(g.Events) == 1 && g.Events["e"] == n, "events are added up")
		tm := g.Timers["t"]
		zz.Assert(len(g.Timers) == 1 && tm != nil, "timer")
		zz.Assert(tm.Count == k && tm.NanosSum == ok && tm.NanosMin == min && tm.NanosMax == max, "timers are merged")
		zz.Assert(len(g.Jobs) == 1 && g.Jobs["j"] != nil, "jobs")
		j := g.Jobs["j"]
		zz.Assert(j.CountSuccess == ok && j.timerW.Count == ok && j.timerW.NanosSum == 7*ok, "jobs are merged")
		zz.Assert(j.timerW.NanosMin == min && j.timerW.NanosMax == max+6, "job minimum and maximum")
		zz.Assert(len(j.Events) == len(hosts), "events of jobs")
		for h, c := range hosts {
			zz.Assert(j.Events[h] == c, "events of jobs are added up")
		}
	}
}

// C24_history polls two hosts several times.
func C24_history() {
	rounds := 2
	if zz.Thorough() {
		rounds = 3
	}
	zz.Bound("history", "2 hosts polled 2 (thorough 3) times, in either order of arrival; each poll fails, answers 500, or delivers one or two intervals (new or known serial number, any of two time zones, of the first or a restarted process, or with another interval duration)")
	zz.Bound("data", "event counts 10..24 each, one timer and one job per interval")
	t0 := time.Now().Truncate(time.Minute)
	t1 := t0.Add(-time.Minute)
	h := newHosts()
	l := &ledger{}
	var duration time.Duration
	serial := int64(0)
	first := zz.Choice("first", 2)
	nkinds := 9
	for i, name := range []string{"h1:80", "h2:80"} {
		instance := "p"
		if i != first {
			h.slow[name] = time.Second
		}
		h.answer[name] = func() answer {
			serial++
			d := delivery{host: name, instance: instance, at: t0, serial: serial, n: zz.IntN("n", 10, 24), ok: serial}
			ds := []delivery{d}
			kind := zz.Choice("answer", nkinds)
			switch kind {
			case 0:
				return answer{fail: true}
			case 1:
				return answer{code: 500, body: encode(instance, time.Minute, d.agg())}
			case 3: // nothing new: other content under the known number
				if o := l.find(name, instance, t0); o != nil {
					ds[0].serial = o.serial
				}
			case 4:
				e := d
				e.at = t1
				ds = append(ds, e)
			case 5:
				instance = "q"
				ds[0].instance = instance
			case 7:
				ds[0].at = t0.In(zone)
			case 8:
				ds[0].at = t1
			}
			dur := time.Minute
			if kind == 6 {
				dur = 2 * time.Minute
			}
			var aggs []*health.IntervalAggregation
			for _, d := range ds {
				aggs = append(aggs, d.agg())
			}
			if duration == 0 {
				duration = dur
			}
			if dur == duration {
				for _, d := range ds {
					l.deliver(d)
				}
			}
			return answer{code: 200, body: encode(instance, dur, aggs...)}
		}
	}
	hd := start("h1:80", "h2:80")
	time.Sleep(9 * time.Second)
	for r := 0; r < rounds; r++ {
		zz.Quiesce()
		a := getAggs()
		zz.Assert(a.IntervalDuration == duration, "interval duration")
		l.check(a, 120)
		zz.Assert(h.polls["h1:80"] == r+1 && h.polls["h2:80"] == r+1, "one poll of each host every 10 s")
		zz.Assert(h.open == 0, "response bodies are closed")
		if r < rounds-1 {
			time.Sleep(10 * time.Second)
		}
	}
	ok := zz.Within(time.Minute, hd.Stop)
	zz.Assert(ok, "stop returns")
	zz.Reach("end")
}

// C24_names delivers data with arbitrary names.
func C24_names() {
	max := 2
	if zz.Thorough() {
		max = 3
	}
	zz.Bound("names", "event, timer, gauge, error or job name of 0..2 (thorough 0..3) arbitrary ASCII characters")
	h := newHosts()
	kind := zz.Choice("kind", 5)
	name := zz.ASCII("name", 0, max)
	t0 := time.Now().Truncate(time.Minute)
	h.answer["h:1"] = func() answer {
		ia := health.NewIntervalAggregation(t0)
		ia.SerialNumber = 1
		switch kind {
		case 0:
			ia.Events[name] = 3
		case 1:
			ia.Timers[name] = &health.TimerAggregation{Count: 3}
		case 2:
			ia.Gauges[name] = 3
		case 3:
			ia.EventErrs[name] = &health.ErrorCounter{Count: 3}
		case 4:
			ja := &health.JobAggregation{CountError: 3}
			ja.Count = 3
			ia.Jobs[name] = ja
		}
		return answer{code: 200, body: encode("p", time.Minute, ia)}
	}
	start("h:1")
	time.Sleep(5 * time.Second)
	zz.Quiesce()
	for _, path := range []string{"/healthd/aggregations", "/healthd/aggregations/overall"} {
		code, text := get(path, "")
		zz.Assert(code == 200, "served")
		var a struct {
			Aggregations []*aggW
			Overall      *aggW
		}
		parse(text, &a)
		g := a.Overall
		if g == nil {
			zz.Assert(len(a.Aggregations) == 1, "one interval")
			g = a.Aggregations[0]
		}
		one := func(n, want int) { zz.Assert(n == want, "nothing else") }
		k := [5]int{}
		k[kind] = 1
		one(len(g.Events), k[0])
		one(len(g.Timers), k[1])
		one(len(g.Gauges), k[2])
		one(len(g.Errs), k[3])
		one(len(g.Jobs), k[4])
		switch kind {
		case 0:
			zz.Assert(g.Events[name] == 3, "event")
		case 1:
			zz.Assert(g.Timers[name] != nil && g.Timers[name].Count == 3, "timer")
		case 2:
			zz.Assert(g.Gauges[name] == 3, "gauge")
		case 3:
			zz.Assert(g.Errs[name] != nil && g.Errs[name].Count == 3, "errors")
		case 4:
			zz.Assert(g.Jobs[name] != nil && g.Jobs[name].CountError == 3, "job")
		}
	}
	code, text := get("/healthd/jobs", "")
	zz.Assert(code == 200, "jobs are served")
	var js struct{ Jobs []struct{ Name string } }
	parse(text, &js)
	if kind == 4 {
		zz.Assert(len(js.Jobs) == 1 && js.Jobs[0].Name == name, "job is listed")
	} else {
		zz.Assert(len(js.Jobs) == 0, "no job is listed")
	}
	zz.Reach("end")
}

// C24_large delivers large answers.
func C24_large() {
	zz.Bound("large", "two hosts, one of which answers 80 KB as 400 jobs, 300 KB as 40, or 1 MB (thorough 12 MB) as one, or events or errors instead of jobs; the other little")
	k := zz.Choice("size", 3)
	size, n := []int{80 << 10, 300 << 10, 1 << 20}[k], []int{400, 40, 1}[k]
	if k == 2 && zz.Thorough() {
		size = 12 << 20
	}
	name := func(i int) string { return strings.Repeat("x", size/n) + strconv.Itoa(i) }
	kind := zz.Choice("kind", 3)
	h := newHosts()
	t0 := time.Now().Truncate(time.Minute)
	h.answer["large:1"] = func() answer {
		ia := health.NewIntervalAggregation(t0)
		ia.SerialNumber = 1
		for i := 0; i < n; i++ {
			switch kind {
			case 0:
				ja := &health.JobAggregation{CountError: int64(i)}
				ja.Count = int64(i)
				ia.Jobs[name(i)] = ja
			case 1:
				ia.Events[name(i)] = int64(i)
			case 2:
				ia.EventErrs[name(i)] = &health.ErrorCounter{Count: int64(i)}
			}
		}
		return answer{code: 200, body: encode("p", time.Minute, ia)}
	}
	h.answer["small:1"] = func() answer {
		v := delivery{host: "small:1", instance: "p", at: t0, serial: 1, n: 11, ok: 3}
		return answer{code: 200, body: encode("p", time.Minute, v.agg())}
	}
	h.slow["small:1"] = time.Second
	start("large:1", "small:1")
	time.Sleep(9 * time.Second)
	zz.Quiesce()
	a := getAggs()
	zz.Assert(len(a.Aggregations) == 1, "one interval")
	g := a.Aggregations[0]
	zz.Assert(g.Events["e"] == 11 && g.Jobs["j"] != nil && g.Jobs["j"].CountSuccess == 3, "data of the small host")
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			j := g.Jobs[name(i)]
			zz.Assert(j != nil && j.CountError == int64(i) && j.Count == int64(i), "job of the large host")
		case 1:
			zz.Assert(g.Events[name(i)] == int64(i), "event of the large host")
		case 2:
			e := g.Errs[name(i)]
			zz.Assert(e != nil && e.Count == int64(i), "errors of the large host")
		}
	}
	for _, s := range getHosts() {
		zz.Assert(s.Err == "" && s.Code == 200, "both hosts are fine")
	}
	zz.Reach("end")
}

// C24_serial delivers data whose serial numbers go up and down.
func C24_serial() {
	zz.Bound("serial numbers", "1 host polled 4 times under one instance, any of the serial numbers -1, 0, 1, 2 and 2^40 each time")
	h := newHosts()
	l := &ledger{}
	t0 := time.Now().Truncate(time.Minute)
	n := int64(10)
	h.answer["h:1"] = func() answer {
		n++
		d := delivery{host: "h:1", instance: "p", at: t0, serial: []int64{-1, 0, 1, 2, 1 << 40}[zz.Choice("serial", 5)], n: n, ok: n}
		l.deliver(d)
		return answer{code: 200, body: encode("p", time.Minute, d.agg())}
	}
	start("h:1")
	time.Sleep(9 * time.Second)
	for r := 0; r < 4; r++ {
		zz.Quiesce()
		l.check(getAggs(), 120)
		time.Sleep(10 * time.Second)
	}
	zz.Reach("end")
}
