package root

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// anyAgg is an aggregation with arbitrary content under one job and one event name.
func anyAgg(tag, j, k string) *health.IntervalAggregation {
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	n := zz.Choice(tag+".errors", 4)
	if n == 3 {
		n = 6
	}
	for i := 0; i < n; i++ {
		s.EmitEventErr(j, k, textErr{zz.String(tag+".err", 1, 1)}, nil)
	}
	zz.Quiesce()
	ia := s.GetMetrics()[0]
	ia.SerialNumber = zz.Int64(tag + ".serial")
	timer := func() *health.TimerAggregation {
		return &health.TimerAggregation{Count: zz.Int64(tag + ".count"), NanosSum: zz.Int64(tag + ".sum"), NanosSumSquares: zz.Float64(tag + ".sq"), NanosMin: zz.Int64(tag + ".min"), NanosMax: zz.Int64(tag + ".max")}
	}
	if zz.Choice(tag+".maps", 2) == 1 {
		ia.Events[k] = zz.Int64(tag + ".events")
		ia.Gauges[k] = zz.Float64(tag + ".gauge")
		ia.Timers[k] = timer()
	}
	if zz.Choice(tag+".job", 2) == 1 {
		ja := ia.Jobs[j]
		if ja == nil {
			ja = &health.JobAggregation{}
			ja.Events = map[string]int64{}
			ja.Gauges = map[string]float64{}
			ja.Timers = map[string]*health.TimerAggregation{}
			ja.EventErrs = map[string]*health.ErrorCounter{}
			ia.Jobs[j] = ja
		}
		ja.Events[k] = zz.Int64(tag + ".jevents")
		ja.Gauges[k] = zz.Float64(tag + ".jgauge")
		ja.Timers[k] = timer()
		ja.TimerAggregation = *timer()
		ja.CountSuccess = zz.Int64(tag + ".success")
		ja.CountValidationError = zz.Int64(tag + ".validation")
		ja.CountPanic = zz.Int64(tag + ".panic")
		ja.CountError = zz.Int64(tag + ".error")
		ja.CountJunk = zz.Int64(tag + ".junk")
	}
	return ia
}

// C08_clone clones an arbitrary aggregation and changes either of the two.
func C08_clone() {
	zz.Bound("content", "0, 1, 2 or 6 errors with arbitrary 1-byte texts; events, gauges, timers, completions with arbitrary numbers, overall and per job, present or absent; arbitrary 1-byte job and event names")
	zz.Bound("changes", "1 change out of 14 (each map, each entry, each field, merge) to original or clone")
	j, k := zz.String("job", 1, 1), zz.String("event", 1, 1)
	ia := anyAgg("a", j, k)
	before := snapOf(ia)
	c := ia.Clone()
	before.same(snapOf(c), "clone")
	before.same(snapOf(ia), "original after cloning")
	how := zz.Choice("how", nChanges)
	if zz.Choice("side", 2) == 0 {
		change(ia, how, j, k)
		before.same(snapOf(c), "clone after a change of the original")
	} else {
		change(c, how, j, k)
		before.same(snapOf(ia), "original after a change of the clone")
	}
	zz.Reach("end")
	zz.Obs("serial", c.SerialNumber)
}

// C08_wide clones aggregations with several jobs and names.
func C08_wide() {
	zz.Bound("content", "3 arbitrary emissions")
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	var ems []em
	for i := 0; i < 3; i++ {
		e := anyEm("e", false)
		emit(s, e)
		ems = append(ems, e)
	}
	zz.Quiesce()
	m := s.GetMetrics()[0]
	c := m.Clone()
	checkAgg(c, ems)
	a, b := snapOf(m), snapOf(c)
	a.same(b, "clone")
	zz.Reach("end")
}

// oneErr is an aggregation with one error, overall and under job j.
func oneErr(text string) *health.IntervalAggregation {
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	s.EmitEventErr("j", "k", textErr{text}, nil)
	zz.Quiesce()
	return s.GetMetrics()[0]
}

// C08_onwards merges the same data into an aggregation and into its clone, which stay equal.
func C08_onwards() {
	zz.Bound("content", "0..6 errors with arbitrary 1-byte texts, and all other numbers set")
	zz.Bound("history", "1 or 2 further errors merged into both after cloning")
	ia := richAgg("j", "other")
	ia.EventErrs["k"] = &health.ErrorCounter{}
	ia.Jobs["j"].EventErrs["k"] = &health.ErrorCounter{}
	before, after := zz.Choice("before", 7), 1+zz.Choice("after", 2)
	for i := 0; i < before; i++ {
		ia.Merge(oneErr(zz.String("err", 1, 1)))
	}
	c := ia.Clone()
	snapOf(ia).same(snapOf(c), "clone")
	for i := 0; i < after; i++ {
		o := oneErr(zz.String("err", 1, 1))
		ia.Merge(o)
		c.Merge(o)
	}
	snapOf(ia).same(snapOf(c), "clone after the same merges")
	zz.Reach("end")
	zz.Obs("serial", c.SerialNumber)
}
