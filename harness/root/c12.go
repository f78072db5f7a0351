package root

import (
	"runtime"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

func explore() {
	if zz.Thorough() {
		zz.ExploreSchedules(14, 2)
	} else {
		zz.ExploreSchedules(8, 1)
	}
}

// C12_count runs two emitting goroutines and a reader.
func C12_count() {
	zz.Bound("goroutines", "two emitters with 2 emissions each, one reader with 1 read (thorough 2), the sink's own goroutine with its ticks")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	zz.Quiesce()
	if zz.Choice("tick", 2) == 1 {
		// the sink's tick is due at the same instant as the emissions
		time.Sleep(time.Second)
	}
	done := make(chan bool, 3)
	reads := 1
	if zz.Thorough() {
		reads = 2
	}
	zz.DetectRaces()
	explore()
	go func() {
		s.EmitEvent("j", "a1", nil)
		s.EmitEvent("j", "a2", nil)
		done <- true
	}()
	go func() {
		s.EmitGauge("j", "g", 1, nil)
		s.EmitGauge("j", "g", 2, nil)
		done <- true
	}()
	go func() {
		last := int64(0)
		for i := 0; i < reads; i++ {
			m := s.GetMetrics()
			zz.Assert(len(m) == 1, "one interval")
			ev := m[0].Events
			zz.Assert(ev["a2"] == 0 || ev["a1"] == 1, "emissions of one goroutine take effect in order")
			n := ev["a1"] + ev["a2"]
			g, ok := m[0].Gauges["g"]
			if ok {
				n++
				if g == 2 {
					n++
				}
			}
			zz.Assert(m[0].SerialNumber == n, "a read sees whole emissions")
			zz.Assert(n >= last, "later reads see at least as much")
			last = n
		}
		done <- true
	}()
	ok := zz.Within(10*time.Second, func() { <-done; <-done; <-done })
	zz.StopExploring()
	zz.Assert(ok, "emissions and reads return")
	zz.Quiesce()
	m := s.GetMetrics()
	zz.Assert(m[0].Events["a1"] == 1 && m[0].Events["a2"] == 1, "every event counted once")
	zz.Assert(m[0].Jobs["j"].Events["a1"] == 1 && m[0].Jobs["j"].Events["a2"] == 1, "every event counted once in its job")
	zz.Assert(m[0].Gauges["g"] == 2, "the last gauge value stays")
	zz.Assert(m[0].SerialNumber == 4, "every emission counted once")
	zz.Reach("end")
}

// C12_shutdown requests a shutdown while emissions are pending.
func C12_shutdown() {
	zz.Bound("shutdown", "0..3 emissions by another goroutine and 0..2 by the stopping one, before or while shutdown is requested; a tick may be due")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	n, k := zz.Choice("other", 4), zz.Choice("own", 3)
	if zz.Choice("tick", 2) == 1 {
		time.Sleep(time.Second)
	}
	zz.DetectRaces()
	explore()
	done := make(chan bool, 2)
	go func() {
		for i := 0; i < n; i++ {
			s.EmitEvent("j", "a", nil)
		}
		done <- true
	}()
	for i := 0; i < k; i++ {
		s.EmitEvent("j", "b", nil)
	}
	ok := zz.Within(10*time.Second, s.ShutdownServer)
	zz.Assert(ok, "shutdown returns")
	ok = zz.Within(10*time.Second, func() { <-done })
	zz.StopExploring()
	zz.Assert(ok, "emissions return")
	zz.Reach("end")
}

// C12_burst emits more than the sink can buffer before it gets to run.
func C12_burst() {
	n := 9000
	zz.Bound("burst", "9000 emissions of any one kind by a goroutine that is not interrupted by the sink until it blocks")
	runtime.GOMAXPROCS(1)
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	zz.Quiesce()
	e := em{kind: zz.Choice("kind", nKinds), job: "j", event: "e", nanos: 5}
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < n; i++ {
			emit(s, e)
		}
		done <- true
	}()
	zz.Assert(zz.Within(10*time.Second, func() { <-done }), "emissions return")
	zz.Quiesce()
	m := s.GetMetrics()
	zz.Assert(m[0].SerialNumber == int64(n), "nothing is lost")
	zz.Reach("end")
}

// C12_overflow emits gauges of one name while the sink's queue gets full.
func C12_overflow() {
	zz.Bound("overflow", "4096 events, then 4 gauges of one name, by one goroutine that is not interrupted by the sink until the queue is full")
	runtime.GOMAXPROCS(1)
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	zz.Quiesce()
	for i := 0; i < 4096; i++ {
		s.EmitEvent("j", "e", nil)
	}
	zz.ExploreSchedules(8, 0)
	for i := 1; i <= 4; i++ {
		s.EmitGauge("j", "g", float64(i), nil)
	}
	zz.Quiesce()
	zz.StopExploring()
	m := s.GetMetrics()
	zz.Assert(m[0].SerialNumber == 4096+4, "nothing is lost")
	zz.Assert(m[0].Gauges["g"] == 4 && m[0].Jobs["j"].Gauges["g"] == 4, "the last gauge value stays")
	zz.Reach("end")
}

// C12_readers runs two readers at once with an emitter.
func C12_readers() {
	zz.Bound("readers", "two readers and an emitter")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	zz.Quiesce()
	done := make(chan bool, 3)
	zz.DetectRaces()
	explore()
	for r := 0; r < 2; r++ {
		go func() {
			m := s.GetMetrics()
			a := snapAll(m)
			zz.Assert(len(a) == 1 && a[0].events["e"] == a[0].serial, "consistent read")
			done <- true
		}()
	}
	s.EmitEvent("j", "e", nil)
	s.EmitEvent("j", "e", nil)
	ok := zz.Within(10*time.Second, func() { <-done; <-done })
	zz.StopExploring()
	zz.Assert(ok, "reads return")
	zz.Quiesce()
	zz.Assert(s.GetMetrics()[0].SerialNumber == 2, "every emission counted once")
	zz.Reach("end")
}
