package root

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// C05_tally makes arbitrary emissions within one interval.
func C05_tally() {
	n := 3
	zz.Bound("emissions", "3 of any kind in one interval")
	zz.Bound("names", "job and event 1 arbitrary byte")
	zz.Bound("values", "any int64 nanoseconds, any float64 gauge, the five statuses")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	var ems []em
	for i := 0; i < n; i++ {
		e := anyEm("e", true)
		emit(s, e)
		ems = append(ems, e)
	}
	zz.Quiesce()
	m := s.GetMetrics()
	zz.Assert(len(m) == 1, "one interval")
	checkAgg(m[0], ems)
	zz.Reach("end")
	zz.Obs("serial", m[0].SerialNumber)
	zz.Obs("jobs", len(m[0].Jobs))
	for _, e := range ems {
		zz.Obs("events", m[0].Events[e.event])
		zz.Obs("g", m[0].Gauges[e.event])
		if t := m[0].Timers[e.event]; t != nil {
			zz.Obs("min", t.NanosMin)
			zz.Obs("sq", t.NanosSumSquares)
		}
	}
}

// C05_names uses arbitrary names of several lengths.
func C05_names() {
	zz.Bound("names", "job and event 0..2 arbitrary bytes or 302 bytes with arbitrary ends; one emission, then one of the same kind with a fixed name")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	e := em{kind: zz.Choice("kind", nKinds), job: name("job", 2), nanos: 7}
	if e.kind != kComplete {
		e.event = name("event", 2)
	}
	f := em{kind: e.kind, job: "general", event: "a.b", nanos: 5}
	emit(s, e)
	emit(s, f)
	zz.Quiesce()
	m := s.GetMetrics()
	zz.Assert(len(m) == 1, "one interval")
	checkAgg(m[0], []em{e, f})
	zz.Reach("end")
}

// C05_timers makes several measurements under the same names.
func C05_timers() {
	zz.Bound("emissions", "4 timings or completions with the same job and event; any int64 nanoseconds; any of the five statuses or an unknown one")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	kind := kTiming
	if zz.Choice("complete", 2) == 1 {
		kind = kComplete
	}
	n := 4
	var ems []em
	for i := 0; i < n; i++ {
		e := em{kind: kind, job: "j", event: "e", nanos: zz.Int64("nanos")}
		if kind == kComplete {
			e.status = health.CompletionStatus(zz.IntN("status", 0, 7))
		}
		emit(s, e)
		ems = append(ems, e)
	}
	zz.Quiesce()
	m := s.GetMetrics()
	zz.Assert(len(m) == 1, "one interval")
	checkAgg(m[0], ems)
	zz.Reach("end")
	zz.Obs("min", m[0].Jobs["j"].NanosMin)
	zz.Obs("max", m[0].Jobs["j"].NanosMax)
	zz.Obs("sq", m[0].Jobs["j"].NanosSumSquares)
}

// C05_long makes many emissions of mixed kinds.
func C05_long() {
	n := 30
	if zz.Thorough() {
		n = 120
	}
	zz.Bound("emissions", "30 (thorough 120) of the kinds in turn over three jobs and two events, one job having an arbitrary name; any nanoseconds")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	odd := zz.String("odd", 1, 1)
	var ems []em
	for i := 0; i < n; i++ {
		e := em{kind: i % 5, job: []string{"a", odd, "b"}[i%3], nanos: int64(i*i) - 40, bits: uint64(i) << 52, status: health.CompletionStatus(i / 5 % 5)}
		if e.kind != kComplete {
			e.event = []string{"x", "y"}[i/5%2]
		}
		if i == 7 || i == 14 {
			e.nanos = zz.Int64("nanos")
		}
		emit(s, e)
		ems = append(ems, e)
	}
	zz.Quiesce()
	m := s.GetMetrics()
	zz.Assert(len(m) == 1, "one interval")
	checkAgg(m[0], ems)
	zz.Reach("end")
	zz.Obs("serial", m[0].SerialNumber)
}
