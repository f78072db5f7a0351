package root

import (
	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// mapsSnap, jobSnap and snap are the harness's own copy of an aggregation.
type mapsSnap struct {
	events  map[string]int64
	errs    map[string]int64
	samples map[string][]error
	timers  map[string]health.TimerAggregation
	gauges  map[string]float64
}

type jobSnap struct {
	mapsSnap
	health.TimerAggregation
	by [5]int64
}

type snap struct {
	mapsSnap
	start  int64
	serial int64
	jobs   map[string]jobSnap
}

func snapMaps(events map[string]int64, errs map[string]*health.ErrorCounter, timers map[string]*health.TimerAggregation, gauges map[string]float64) mapsSnap {
	s := mapsSnap{map[string]int64{}, map[string]int64{}, map[string][]error{}, map[string]health.TimerAggregation{}, map[string]float64{}}
	for k, v := range events {
		s.events[k] = v
	}
	for k, v := range errs {
		s.errs[k] = v.Count
		s.samples[k] = v.ZZSamples()
	}
	for k, v := range timers {
		s.timers[k] = *v
	}
	for k, v := range gauges {
		s.gauges[k] = v
	}
	return s
}

func snapOf(ia *health.IntervalAggregation) *snap {
	s := &snap{start: ia.IntervalStart.UnixNano(), serial: ia.SerialNumber, jobs: map[string]jobSnap{}}
	s.mapsSnap = snapMaps(ia.Events, ia.EventErrs, ia.Timers, ia.Gauges)
	for k, j := range ia.Jobs {
		s.jobs[k] = jobSnap{snapMaps(j.Events, j.EventErrs, j.Timers, j.Gauges), j.TimerAggregation,
			[5]int64{j.CountSuccess, j.CountValidationError, j.CountPanic, j.CountError, j.CountJunk}}
	}
	return s
}

func snapAll(m []*health.IntervalAggregation) []*snap {
	var r []*snap
	for _, ia := range m {
		r = append(r, snapOf(ia))
	}
	return r
}

// same states that the live maps still are what they were.
func (s *mapsSnap) same(t mapsSnap, what string) {
	zz.Assert(len(s.events) == len(t.events) && len(s.errs) == len(t.errs) && len(s.timers) == len(t.timers) && len(s.gauges) == len(t.gauges), what+": same names")
	for k, v := range s.events {
		w, ok := t.events[k]
		zz.Assert(ok && v == w, what+": events")
	}
	for k, v := range s.errs {
		w, ok := t.errs[k]
		zz.Assert(ok && v == w, what+": error counts")
		a, b := s.samples[k], t.samples[k]
		zz.Assert(len(a) == len(b), what+": number of error samples")
		for i := range a {
			zz.Assert(a[i] == b[i], what+": error samples")
		}
	}
	for k, v := range s.timers {
		w, ok := t.timers[k]
		zz.Assert(ok, what+": timers")
		sameTimer(v, w, what+": timers")
	}
	for k, v := range s.gauges {
		w, ok := t.gauges[k]
		zz.Assert(ok && sameFloat(v, w), what+": gauges")
	}
}

func sameTimer(v, w health.TimerAggregation, what string) {
	zz.Assert(v.Count == w.Count && v.NanosSum == w.NanosSum && v.NanosMin == w.NanosMin && v.NanosMax == w.NanosMax &&
		sameFloat(v.NanosSumSquares, w.NanosSumSquares), what)
}

func sameFloat(a, b float64) bool { return a == b || (a != a && b != b) }

func (s *snap) same(t *snap, what string) {
	zz.Assert(s.start == t.start, what+": interval start")
	zz.Assert(s.serial == t.serial, what+": serial number")
	s.mapsSnap.same(t.mapsSnap, what)
	zz.Assert(len(s.jobs) == len(t.jobs), what+": same jobs")
	for k, v := range s.jobs {
		w, ok := t.jobs[k]
		zz.Assert(ok, what+": jobs")
		v.mapsSnap.same(w.mapsSnap, what+": job")
		sameTimer(v.TimerAggregation, w.TimerAggregation, what+": completions")
		for i := range v.by {
			zz.Assert(v.by[i] == w.by[i], what+": completions by status")
		}
	}
}

func sameAll(a, b []*snap, what string) {
	zz.Assert(len(a) == len(b), what+": number of intervals")
	for i := range a {
		a[i].same(b[i], what)
	}
}

// nChanges is the number of ways in which change alters an aggregation.
const nChanges = 14

// change alters an aggregation directly, at the names k and job j where those exist.
func change(ia *health.IntervalAggregation, how int, j, k string) {
	ja := ia.Jobs[j]
	switch how {
	case 0:
		ia.Events[k] = 77
	case 1:
		ia.Gauges[k] = 77
	case 2:
		if t := ia.Timers[k]; t != nil {
			t.Count, t.NanosSum, t.NanosMin, t.NanosMax, t.NanosSumSquares = 77, 78, 79, 80, 81
		} else {
			ia.Timers[k] = &health.TimerAggregation{Count: 3}
		}
	case 3:
		if e := ia.EventErrs[k]; e != nil {
			e.Count += 77
		} else {
			ia.EventErrs[k] = &health.ErrorCounter{Count: 3}
		}
	case 4:
		delete(ia.Events, k)
		delete(ia.Gauges, k)
		delete(ia.Timers, k)
		delete(ia.EventErrs, k)
	case 5:
		delete(ia.Jobs, j)
	case 6:
		ia.Jobs["other"] = &health.JobAggregation{}
	case 7:
		if ja != nil {
			ja.Events[k] = 77
		}
	case 8:
		if ja != nil {
			ja.Gauges[k] = 77
		}
	case 9:
		if ja != nil {
			if t := ja.Timers[k]; t != nil {
				t.Count, t.NanosSum, t.NanosMin, t.NanosMax, t.NanosSumSquares = 77, 78, 79, 80, 81
			} else {
				ja.Timers[k] = &health.TimerAggregation{Count: 3}
			}
		}
	case 10:
		if ja != nil {
			if e := ja.EventErrs[k]; e != nil {
				e.Count += 77
			} else {
				ja.EventErrs[k] = &health.ErrorCounter{Count: 3}
			}
		}
	case 11:
		if ja != nil {
			ja.Count, ja.NanosSum, ja.NanosMin, ja.NanosMax, ja.NanosSumSquares = 77, 78, 79, 80, 81
			ja.CountSuccess, ja.CountValidationError, ja.CountPanic, ja.CountError, ja.CountJunk = 77, 78, 79, 80, 81
		}
	case 12:
		ia.SerialNumber += 5
		ia.IntervalStart = ia.IntervalStart.Add(1)
	case 13:
		ia.Merge(richAgg(j, k))
	}
}

// richAgg is an aggregation in which every field is set under the names j and k.
func richAgg(j, k string) *health.IntervalAggregation {
	s := health.NewJsonPollingSink(1<<40, 1<<41)
	for kind := 0; kind < nKinds; kind++ {
		for i := 0; i < 2; i++ {
			emit(s, em{kind: kind, job: j, event: k, nanos: int64(1000 + kind), bits: uint64(50+i) << 50, status: health.CompletionStatus(i)})
		}
	}
	zz.Quiesce()
	return s.GetMetrics()[0]
}
