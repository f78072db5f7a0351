package sinks

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"github.com/gocraft/health/zzverif/zz"
)

// stoppable makes one of the sinks with a goroutine of their own.
func stoppable(k int) (sink health.Sink, stop func()) {
	switch k {
	case 0:
		s := librato.New("u", "k", "")
		return s, s.Stop
	default:
		s := bugsnag.NewSink(&bugsnag.Config{APIKey: "key"})
		return s, s.ShutdownServer
	}
}

// C31_stop stops a sink while it is used.
func C31_stop() {
	zz.Bound("stop", "Librato or Bugsnag sink, stopped while another goroutine makes 1..2 emissions of any one kind and perhaps another stop, with 0..1 emissions pending; every interleaving of synchronisation operations within the bound, data races by happens-before")
	newTransport()
	sink, stop := stoppable(zz.Choice("sink", 2))
	s := health.NewStream()
	s.AddSink(sink)
	job := s.NewJob("j")
	kind := zz.Choice("kind", nKinds)
	nanos := zz.IntN("nanos", 10000000, 99999999)
	pending := zz.Choice("pending", 2)
	n := 1 + zz.Choice("more", 2)
	then := zz.Choice("then", 2)
	zz.Quiesce()
	zz.DetectRaces()
	if zz.Thorough() {
		zz.ExploreSchedules(10, 2)
	} else {
		zz.ExploreSchedules(7, 1)
	}
	for i := 0; i < pending; i++ {
		report(job, kind, "e", nanos, nil)
	}
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < n; i++ {
			report(job, kind, "e", nanos, nil)
		}
		if then == 1 {
			stop()
		}
		done <- true
	}()
	ok := zz.Within(10*time.Second, stop)
	zz.Assert(ok, "stopping returns")
	ok = zz.Within(10*time.Second, func() { <-done })
	zz.StopExploring()
	zz.Assert(ok, "the other goroutine goes on")
	zz.Reach("end")
}

// C31_stopped uses a sink that is stopped.
func C31_stopped() {
	zz.Bound("stopped", "Librato or Bugsnag sink, stopped with 0..2 emissions pending: 9000 emissions of any one kind, and another stop, a second and a minute later or at once; where a select statement has several ready cases in the emissions, the first in the source is taken")
	newTransport()
	sink, stop := stoppable(zz.Choice("sink", 2))
	s := health.NewStream()
	s.AddSink(sink)
	job := s.NewJob("j")
	kind := zz.Choice("kind", nKinds)
	nanos := zz.IntN("nanos", 10000000, 99999999)
	for i := zz.Choice("pending", 3); i > 0; i-- {
		report(job, kind, "e", nanos, nil)
	}
	ok := zz.Within(10*time.Second, stop)
	zz.Assert(ok, "stopping returns")
	switch zz.Choice("later", 3) {
	case 1:
		time.Sleep(time.Second)
	case 2:
		time.Sleep(time.Minute)
	}
	zz.FirstReady(true) // there are 2^9000 ways otherwise
	ok = zz.Within(10*time.Second, func() {
		for i := 0; i < 9000; i++ {
			report(job, kind, "e", nanos, nil)
		}
	})
	zz.FirstReady(false)
	zz.Assert(ok, "emissions return")
	ok = zz.Within(10*time.Second, stop)
	zz.Assert(ok, "another stop returns")
	zz.Reach("end")
}
