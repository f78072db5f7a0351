package root

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

func aggOf(ems []em) *health.IntervalAggregation {
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	for _, e := range ems {
		emit(s, e)
	}
	zz.Quiesce()
	return s.GetMetrics()[0]
}

// mergedTimer is the expected result for a timer; squares are added side by side.
func mergedTimer(got *health.TimerAggregation, a, b timerTally, what string) {
	t := a
	if b.n > 0 {
		t.n += b.n
		t.sum += b.sum
		if a.n == 0 || b.min < a.min {
			t.min = b.min
		}
		if a.n == 0 || b.max > a.max {
			t.max = b.max
		}
	}
	t.sq = a.sq + b.sq
	t.check(got, what)
}

func tallyOf(ems []em, kind int, job *string, event string) (n int64, t timerTally, last uint64, any bool) {
	for _, e := range ems {
		if e.kind == kind && (job == nil || e.job == *job) && e.event == event {
			n++
			any = true
			last = e.bits
			if kind == kTiming || kind == kComplete {
				t.add(e.nanos)
			}
		}
	}
	return
}

func mergedMaps(events map[string]int64, errs map[string]*health.ErrorCounter, timers map[string]*health.TimerAggregation, gauges map[string]float64, a, b []em, job *string, what string) {
	all := append(append([]em{}, a...), b...)
	distinct := [nKinds]int{}
	for i, e := range all {
		if e.kind == kComplete || (job != nil && e.job != *job) {
			continue
		}
		seen := false
		for _, p := range all[:i] {
			if p.kind == e.kind && p.event == e.event && (job == nil || p.job == *job) {
				seen = true
			}
		}
		if seen {
			continue
		}
		distinct[e.kind]++
		n1, t1, l1, _ := tallyOf(a, e.kind, job, e.event)
		n2, t2, l2, any2 := tallyOf(b, e.kind, job, e.event)
		switch e.kind {
		case kEvent:
			zz.Assert(events[e.event] == n1+n2, what+": number of events")
		case kErr:
			c := errs[e.event]
			zz.Assert(c != nil && c.Count == n1+n2, what+": number of errors")
		case kTiming:
			mergedTimer(timers[e.event], t1, t2, what+": timing")
		case kGauge:
			g, ok := gauges[e.event]
			want := l1
			if any2 {
				want = l2
			}
			zz.Assert(ok && (g == f64(want) || isNaNBits(want) && g != g), what+": gauge value")
		}
	}
	zz.Assert(len(events) == distinct[kEvent], what+": only emitted events")
	zz.Assert(len(errs) == distinct[kErr], what+": only emitted errors")
	zz.Assert(len(timers) == distinct[kTiming], what+": only emitted timings")
	zz.Assert(len(gauges) == distinct[kGauge], what+": only emitted gauges")
}

// checkMerged compares an aggregation with the expected result of merging those of a and b.
func checkMerged(m *health.IntervalAggregation, a, b []em) {
	mergedMaps(m.Events, m.EventErrs, m.Timers, m.Gauges, a, b, nil, "overall")
	all := append(append([]em{}, a...), b...)
	jobs := 0
	for i, e := range all {
		seen := false
		for _, p := range all[:i] {
			if p.job == e.job {
				seen = true
			}
		}
		if seen {
			continue
		}
		jobs++
		ja := m.Jobs[e.job]
		zz.Assert(ja != nil, "job present")
		job := e.job
		mergedMaps(ja.Events, ja.EventErrs, ja.Timers, ja.Gauges, a, b, &job, "job")
		_, t1, _, _ := tallyOf(a, kComplete, &job, "")
		_, t2, _, _ := tallyOf(b, kComplete, &job, "")
		mergedTimer(&ja.TimerAggregation, t1, t2, "completions")
		var by [5]int64
		for _, p := range all {
			if p.job == job && p.kind == kComplete {
				for k := range by {
					if p.status == health.CompletionStatus(k) {
						by[k]++
					}
				}
			}
		}
		zz.Assert(ja.CountSuccess == by[health.Success], "completions with success")
		zz.Assert(ja.CountValidationError == by[health.ValidationError], "completions with validation error")
		zz.Assert(ja.CountPanic == by[health.Panic], "completions with panic")
		zz.Assert(ja.CountError == by[health.Error], "completions with error")
		zz.Assert(ja.CountJunk == by[health.Junk], "completions with junk")
	}
	zz.Assert(len(m.Jobs) == jobs, "only jobs of the two histories")
}

// C09_merge merges the aggregations of two arbitrary histories.
func C09_merge() {
	zz.Bound("histories", "target of 0..1 (thorough 0..2), merged-in of 1..2 arbitrary emissions, job and event 1 arbitrary byte, any int64 nanoseconds, any gauge, the five statuses")
	var a, b []em
	maxA := 2
	if zz.Thorough() {
		maxA = 3
	}
	for i, n := 0, zz.Choice("na", maxA); i < n; i++ {
		a = append(a, anyEm("a", true))
	}
	for i, n := 0, 1+zz.Choice("nb", 2); i < n; i++ {
		b = append(b, anyEm("b", true))
	}
	ma, mb := aggOf(a), aggOf(b)
	// neither side says anything about what the other's serial number counts
	ma.SerialNumber = zz.IntN("serial.a", 0, 1<<40)
	mb.SerialNumber = zz.IntN("serial.b", 0, 1<<40)
	serial := ma.SerialNumber
	start := ma.IntervalStart
	from := snapOf(mb)
	ma.Merge(mb)
	checkMerged(ma, a, b)
	zz.Assert(ma.SerialNumber > serial, "serial number increases")
	zz.Assert(ma.IntervalStart.Equal(start), "interval start of the target")
	from.same(snapOf(mb), "merged-in aggregation")
	zz.Reach("end")
	zz.Obs("serial", ma.SerialNumber)
	for _, e := range b {
		if t := ma.Timers[e.event]; t != nil {
			zz.Obs("min", t.NanosMin)
			zz.Obs("max", t.NanosMax)
		}
		zz.Obs("jmin", ma.Jobs[e.job].NanosMin)
	}
}

// C09_many merges three aggregations of the same names.
func C09_many() {
	zz.Bound("histories", "three of 0..1 (thorough 0..2) completions and timings each under the same names, any int64 nanoseconds, merged one after the other")
	var hs [3][]em
	var ms [3]*health.IntervalAggregation
	max := 2
	if zz.Thorough() {
		max = 3
	}
	for i := range hs {
		n := zz.Choice("n", max)
		for k := 0; k < n; k++ {
			hs[i] = append(hs[i], em{kind: kComplete, job: "j", nanos: zz.Int64("c"), status: health.Error}, em{kind: kTiming, job: "j", event: "e", nanos: zz.Int64("t")})
		}
		if n == 0 {
			hs[i] = append(hs[i], em{kind: kEvent, job: "j", event: "e"})
		}
		ms[i] = aggOf(hs[i])
	}
	m := ms[0]
	m.Merge(ms[1])
	m.Merge(ms[2])
	var c, t timerTally
	for _, h := range hs {
		for _, e := range h {
			if e.kind == kComplete {
				c.add(e.nanos)
			}
			if e.kind == kTiming {
				t.add(e.nanos)
			}
		}
	}
	j := m.Jobs["j"]
	zz.Assert(j.Count == c.n && j.NanosSum == c.sum && j.NanosMin == c.min && j.NanosMax == c.max, "completions of all three")
	if t.n > 0 {
		for _, g := range []*health.TimerAggregation{m.Timers["e"], j.Timers["e"]} {
			zz.Assert(g.Count == t.n && g.NanosSum == t.sum && g.NanosMin == t.min && g.NanosMax == t.max, "timings of all three")
		}
	}
	zz.Assert(j.CountError == c.n, "errors of all three")
	zz.Reach("end")
}

// C09_independent changes either aggregation after merging.
func C09_independent() {
	zz.Bound("content", "target empty, or with all kinds under the same names; merged-in with arbitrary content; then 1 of 14 changes to either side")
	j, k := zz.String("job", 1, 1), zz.String("event", 1, 1)
	var into *health.IntervalAggregation
	if zz.Choice("empty", 2) == 1 {
		into = health.NewIntervalAggregation(time.Now())
	} else {
		into = richAgg("j", "e")
	}
	from := anyAgg("b", j, k)
	b := snapOf(from)
	into.Merge(from)
	b.same(snapOf(from), "merged-in aggregation")
	a := snapOf(into)
	how := zz.Choice("how", nChanges)
	if zz.Choice("side", 2) == 0 {
		change(from, how, j, k)
		a.same(snapOf(into), "target after a change of the merged-in aggregation")
	} else {
		change(into, how, j, k)
		b.same(snapOf(from), "merged-in aggregation after a change of the target")
	}
	zz.Reach("end")
}
