package root

import (
	"math"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// em is one emission to a sink.
type em struct {
	kind   int
	job    string
	event  string
	err    error
	nanos  int64
	bits   uint64
	status health.CompletionStatus
}

func emit(s health.Sink, e em) {
	switch e.kind {
	case kEvent:
		s.EmitEvent(e.job, e.event, nil)
	case kErr:
		err := e.err
		if err == nil {
			err = textErr{"x"}
		}
		s.EmitEventErr(e.job, e.event, err, nil)
	case kTiming:
		s.EmitTiming(e.job, e.event, e.nanos, nil)
	case kGauge:
		s.EmitGauge(e.job, e.event, f64(e.bits), nil)
	case kComplete:
		s.EmitComplete(e.job, e.status, e.nanos, nil)
	}
}

type timerTally struct {
	n, sum   int64
	sq       float64
	min, max int64
}

func (t *timerTally) add(nanos int64) {
	t.n++
	t.sum += nanos
	t.sq += float64(nanos) * float64(nanos)
	if t.n == 1 || nanos < t.min {
		t.min = nanos
	}
	if t.n == 1 || nanos > t.max {
		t.max = nanos
	}
}

func (t *timerTally) check(got *health.TimerAggregation, what string) {
	zz.Assert(got != nil, what+": present")
	zz.Assert(got.Count == t.n, what+": count")
	zz.Assert(got.NanosSum == t.sum, what+": sum")
	zz.Assert(got.NanosSumSquares == t.sq, what+": sum of squares")
	zz.Assert(got.NanosMin == t.min, what+": minimum")
	zz.Assert(got.NanosMax == t.max, what+": maximum")
}

// checkMaps compares the four maps with the tally of the emissions ems (of one job or overall).
func checkMaps(events map[string]int64, errs map[string]*health.ErrorCounter, timers map[string]*health.TimerAggregation, gauges map[string]float64, ems []em, what string) {
	distinct := [nKinds]int{}
	for i, e := range ems {
		if e.kind == kComplete {
			continue
		}
		seen := false
		for _, p := range ems[:i] {
			if p.kind == e.kind && p.event == e.event {
				seen = true
			}
		}
		if seen {
			continue
		}
		distinct[e.kind]++
		n := int64(0)
		var t timerTally
		var last uint64
		for _, p := range ems {
			if p.kind == e.kind && p.event == e.event {
				n++
				if p.kind == kTiming {
					t.add(p.nanos)
				}
				last = p.bits
			}
		}
		switch e.kind {
		case kEvent:
			zz.Assert(events[e.event] == n, what+": number of events")
		case kErr:
			c := errs[e.event]
			zz.Assert(c != nil && c.Count == n, what+": number of errors")
		case kTiming:
			t.check(timers[e.event], what+": timing")
		case kGauge:
			g, ok := gauges[e.event]
			zz.Assert(ok && sameBits(math.Float64bits(g), last), what+": last gauge value")
		}
	}
	zz.Assert(len(events) == distinct[kEvent], what+": only emitted events appear")
	zz.Assert(len(errs) == distinct[kErr], what+": only emitted errors appear")
	zz.Assert(len(timers) == distinct[kTiming], what+": only emitted timings appear")
	zz.Assert(len(gauges) == distinct[kGauge], what+": only emitted gauges appear")
}

// checkAgg compares an aggregation with the exact tally of the emissions.
func checkAgg(ia *health.IntervalAggregation, ems []em) {
	checkMaps(ia.Events, ia.EventErrs, ia.Timers, ia.Gauges, ems, "overall")
	jobs := 0
	for i, e := range ems {
		seen := false
		for _, p := range ems[:i] {
			if p.job == e.job {
				seen = true
			}
		}
		if seen {
			continue
		}
		jobs++
		var sub []em
		var t timerTally
		var by [5]int64
		for _, p := range ems {
			if p.job == e.job {
				sub = append(sub, p)
				if p.kind == kComplete {
					t.add(p.nanos)
					for k := range by {
						if p.status == health.CompletionStatus(k) {
							by[k]++
						}
					}
				}
			}
		}
		ja := ia.Jobs[e.job]
		zz.Assert(ja != nil, "job present")
		checkMaps(ja.Events, ja.EventErrs, ja.Timers, ja.Gauges, sub, "job")
		t.check(&ja.TimerAggregation, "completions")
		zz.Assert(ja.CountSuccess == by[health.Success], "completions with success")
		zz.Assert(ja.CountValidationError == by[health.ValidationError], "completions with validation error")
		zz.Assert(ja.CountPanic == by[health.Panic], "completions with panic")
		zz.Assert(ja.CountError == by[health.Error], "completions with error")
		zz.Assert(ja.CountJunk == by[health.Junk], "completions with junk")
	}
	zz.Assert(len(ia.Jobs) == jobs, "only jobs with emissions appear")
	zz.Assert(ia.SerialNumber == int64(len(ems)), "serial number is the number of emissions")
}

// anyEm is an emission with arbitrary content.
func anyEm(tag string, status bool) em {
	e := em{kind: zz.Choice(tag+".kind", nKinds)}
	e.job = zz.String(tag+".job", 1, 1)
	if e.kind != kComplete {
		e.event = zz.String(tag+".event", 1, 1)
	}
	switch e.kind {
	case kTiming:
		e.nanos = zz.Int64(tag + ".nanos")
	case kGauge:
		e.bits = zz.Uint64(tag + ".gauge")
	case kComplete:
		e.nanos = zz.Int64(tag + ".nanos")
		if status {
			e.status = health.CompletionStatus(zz.IntN(tag+".status", 0, 4))
		}
	}
	return e
}
