package root

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// C31_overlap reads metrics while the sink is shut down.
func C31_overlap() {
	zz.Bound("overlap", "a shutdown while another goroutine emits 0..1 events and reads the metrics, directly or over HTTP, with 0..1 events pending; a tick may be due; event counts of 1; every interleaving of synchronisation operations within the bound")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	zz.Quiesce()
	n, k := zz.Choice("pending", 2), zz.Choice("emit", 2)
	nanos := zz.Int64("nanos")
	web := zz.Choice("http", 2) == 1
	if web {
		nanos = 1 // otherwise a path for each number of digits
	}
	if zz.Choice("tick", 2) == 1 {
		time.Sleep(time.Second)
	}
	zz.DetectRaces()
	explore()
	for i := 0; i < n; i++ {
		s.EmitTiming("j", "e", nanos, nil)
	}
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < k; i++ {
			s.EmitTiming("j", "e", nanos, nil)
		}
		if web {
			zz.Assert(serveHealth(s, "GET", "/health").status == 200, "served")
		} else if m := s.GetMetrics(); m != nil {
			zz.Assert(len(m) == 1, "one interval")
			if t := m[0].Timers["e"]; t != nil {
				zz.Assert(t.Count <= int64(n+k) && t.NanosMin == nanos, "what was emitted")
			}
		}
		done <- true
	}()
	ok := zz.Within(10*time.Second, s.ShutdownServer)
	zz.Assert(ok, "shutdown returns")
	ok = zz.Within(10*time.Second, func() { <-done })
	zz.StopExploring()
	zz.Assert(ok, "reading returns")
	zz.Reach("end")
}

// C31_after uses a sink that is shut down.
func C31_after() {
	zz.Bound("after", "after a shutdown with 0..2 events pending: 9000 emissions of any one kind, reading the metrics directly and over HTTP, and another shutdown; where a select statement has several ready cases in the 9000 emissions, the first in the source is taken")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	for i := zz.Choice("pending", 3); i > 0; i-- {
		s.EmitEvent("j", "e", nil)
	}
	ok := zz.Within(10*time.Second, s.ShutdownServer)
	zz.Assert(ok, "shutdown returns")
	e := em{kind: zz.Choice("kind", nKinds), job: "j", event: "e", nanos: zz.Int64("nanos")}
	zz.FirstReady(true) // there are 2^9000 ways otherwise
	ok = zz.Within(10*time.Second, func() {
		for i := 0; i < 9000; i++ {
			emit(s, e)
		}
	})
	zz.FirstReady(false)
	zz.Assert(ok, "emissions return")
	ok = zz.Within(10*time.Second, func() { s.GetMetrics() })
	zz.Assert(ok, "reading returns")
	ok = zz.Within(10*time.Second, func() {
		zz.Assert(serveHealth(s, "GET", "/health").status == 200, "served")
	})
	zz.Assert(ok, "serving returns")
	ok = zz.Within(10*time.Second, s.ShutdownServer)
	zz.Assert(ok, "another shutdown returns")
	zz.Reach("end")
}
