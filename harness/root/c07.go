package root

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// C07_frozen takes a snapshot and goes on using the sink.
func C07_frozen() {
	zz.Bound("history", "0..2 arbitrary emissions in the current interval after one in the interval before, 0..2 snapshots, then the snapshot, then 1 step (thorough 2) of: arbitrary emission, clock to the next interval, further snapshot, aggregation of all kinds under the same names")
	zz.Bound("names", "job and event 1 arbitrary byte; any int64 nanoseconds, any float64 gauge")
	s := health.NewJsonPollingSink(time.Minute, 3*time.Minute)
	first := em{kind: zz.Choice("first", nKinds), job: "j", event: "e", nanos: 5}
	emit(s, first)
	zz.Quiesce()
	time.Sleep(time.Minute + 7)
	zz.Quiesce()
	var ems []em
	for i := zz.Choice("emissions", 3); i > 0; i-- {
		e := anyEm("before", false)
		emit(s, e)
		ems = append(ems, e)
	}
	zz.Quiesce()
	for i := zz.Choice("snapshots before", 3); i > 0; i-- {
		s.GetMetrics()
	}
	m := s.GetMetrics()
	zz.Assert(len(m) == 2, "two intervals")
	checkAgg(m[0], []em{first})
	checkAgg(m[1], ems)
	before := snapAll(m)
	n := 1
	if zz.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		switch zz.Choice("step", 4) {
		case 0:
			e := anyEm("after", false)
			emit(s, e)
		case 1:
			time.Sleep(time.Minute)
		case 2:
			zz.Quiesce()
			s.GetMetrics()
		case 3:
			e := em{job: "j", event: "e"}
			if len(ems) > 0 {
				e = ems[0]
			}
			for kind := 0; kind < nKinds; kind++ {
				emit(s, em{kind: kind, job: e.job, event: e.event, nanos: 99, bits: 1 << 60, status: health.Panic, err: textErr{"later"}})
			}
		}
		zz.Quiesce()
	}
	after := snapAll(m)
	sameAll(before, after, "earlier snapshot")
	zz.Reach("end")
	zz.Obs("serial", m[1].SerialNumber)
}

// C07_edge takes a snapshot shortly before the clock reaches the next interval.
func C07_edge() {
	zz.Bound("edge", "a snapshot of 1..3 intervals, of which 1..3 are retained, taken any number of nanoseconds within the last 2.5 s of the current one or the first 0.5 s, once or twice, or not, with a timing in between or not; then a pause of 0, 1.3 or 2.6 s and emissions of all kinds or none")
	retain := 1 + zz.Choice("retain", 3)
	past := zz.Choice("past", retain)
	s := health.NewJsonPollingSink(time.Minute, time.Duration(retain)*time.Minute)
	time.Sleep(time.Until(time.Now().Truncate(time.Minute).Add(time.Minute)) + time.Second/2)
	kind := kTiming
	for i := 0; i <= past; i++ {
		if i > 0 {
			time.Sleep(time.Minute)
		}
		emit(s, em{kind: kind, job: "j", event: "e", nanos: int64(i)})
	}
	zz.Quiesce()
	at := zz.Int64("at")
	zz.Assume(at >= 0 && at < int64(3*time.Second))
	time.Sleep(57*time.Second + time.Duration(at))
	zz.Quiesce()
	if zz.Choice("again", 2) == 1 {
		s.GetMetrics()
		if zz.Choice("between", 2) == 1 {
			emit(s, em{kind: kind, job: "j", event: "e", nanos: 7})
			zz.Quiesce()
		}
	}
	m := s.GetMetrics()
	before := snapAll(m)
	time.Sleep(time.Duration(zz.Choice("pause", 3)) * 1300 * time.Millisecond)
	zz.Quiesce()
	sameAll(before, snapAll(m), "snapshot after the pause")
	if zz.Choice("then", 2) == 1 {
		for k := 0; k < nKinds; k++ {
			emit(s, em{kind: k, job: "j", event: "e", nanos: 99, bits: 1 << 60})
		}
	}
	zz.Quiesce()
	sameAll(before, snapAll(m), "snapshot")
	zz.Reach("end")
}

// C07_race reads a snapshot while the sink goes on.
func C07_race() {
	zz.Bound("concurrency", "one goroutine reads all of a snapshot of two intervals while another emits all kinds under the same names, the clock reaches the next interval and a third snapshot is taken; every interleaving of channel operations, races by happens-before")
	s := health.NewJsonPollingSink(time.Minute, 2*time.Minute)
	for kind := 0; kind < nKinds; kind++ {
		emit(s, em{kind: kind, job: "j", event: "e", nanos: 99})
	}
	zz.Quiesce()
	time.Sleep(time.Minute + 7)
	zz.Quiesce()
	for kind := 0; kind < nKinds; kind++ {
		emit(s, em{kind: kind, job: "j", event: "e", nanos: 99})
	}
	zz.Quiesce()
	m := s.GetMetrics()
	done := make(chan bool)
	zz.DetectRaces()
	zz.ExploreSchedules(20, 2)
	go func() {
		a := snapAll(m)
		sameAll(a, snapAll(m), "snapshot read twice")
		done <- true
	}()
	k := zz.Choice("kind", nKinds+2)
	switch k {
	case nKinds:
		s.GetMetrics()
	case nKinds + 1:
		time.Sleep(time.Minute)
	default:
		emit(s, em{kind: k, job: "j", event: "e", nanos: 99})
	}
	<-done
	zz.StopExploring()
	zz.Quiesce()
	zz.Reach("end")
}
