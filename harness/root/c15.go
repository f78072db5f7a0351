package root

import (
	"bytes"
	"runtime"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// C15_drain runs emitters and drains at once.
func C15_drain() {
	zz.Bound("goroutines", "two goroutines that each emit 1 event and drain, with the sink's own goroutines; a flush tick may be due")
	s := newStatsD(&health.StatsDSinkOptions{SkipNestedEvents: true})
	zz.Quiesce()
	done := make(chan bool, 2)
	zz.DetectRaces()
	explore()
	if zz.Choice("tick", 2) == 1 {
		time.Sleep(100 * time.Millisecond)
	}
	for _, n := range []string{"a", "b"} {
		n := n
		go func() {
			s.EmitEvent("j", n, nil)
			s.Drain()
			done <- true
		}()
	}
	ok := zz.Within(10*time.Second, func() { <-done; <-done })
	zz.StopExploring()
	zz.Assert(ok, "every drain returns")
	got := strings.Join(zz.Packets(), "")
	zz.Assert(got == "a:1|c\nb:1|c\n" || got == "b:1|c\na:1|c\n", "everything sent once")
	zz.Reach("end")
}

// C15_order checks that a drain sends everything emitted before, also by others.
func C15_order() {
	zz.Bound("order", "one goroutine drains while another has emitted 2 events and goes on emitting 1")
	s := newStatsD(&health.StatsDSinkOptions{SkipNestedEvents: true})
	zz.Quiesce()
	done := make(chan bool, 1)
	zz.DetectRaces()
	explore()
	if zz.Choice("tick", 2) == 1 {
		time.Sleep(100 * time.Millisecond)
	}
	s.EmitEvent("j", "a", nil)
	s.EmitEvent("j", "b", nil)
	go func() {
		s.EmitEvent("j", "c", nil)
		done <- true
	}()
	ok := zz.Within(10*time.Second, s.Drain)
	zz.StopExploring()
	zz.Assert(ok, "the drain returns")
	got := strings.Join(zz.Packets(), "")
	zz.Assert(strings.HasPrefix(got, "a:1|c\nb:1|c\n"), "everything emitted before is sent when the drain returns")
	<-done
	s.Drain()
	got += strings.Join(zz.Packets(), "")
	zz.Assert(got == "a:1|c\nb:1|c\nc:1|c\n", "everything sent once")
	zz.Reach("end")
}

// C15_stop stops the sink while others drain and emit.
func C15_stop() {
	zz.Bound("stop", "a stop at once with a drain and an emission, pending emissions before; a flush tick may be due")
	s := newStatsD(&health.StatsDSinkOptions{SkipNestedEvents: true})
	zz.Quiesce()
	done := make(chan bool, 2)
	zz.DetectRaces()
	explore()
	if zz.Choice("tick", 2) == 1 {
		time.Sleep(100 * time.Millisecond)
	}
	s.EmitEvent("j", "a", nil)
	drain := zz.Choice("drain", 2) == 1
	go func() {
		if drain {
			s.Drain()
		} else {
			s.EmitEvent("j", "b", nil)
		}
		done <- true
	}()
	ok := zz.Within(10*time.Second, s.Stop)
	zz.Assert(ok, "the stop returns")
	zz.StopExploring()
	got := strings.Join(zz.Packets(), "")
	zz.Assert(got == "" || got == "a:1|c\n" || got == "a:1|c\nb:1|c\n", "nothing sent twice")
	zz.Reach("end")
}

// C15_flush waits for the periodic flush.
func C15_flush() {
	zz.Bound("flush", "emissions at any two instants (to the nanosecond) within 300 ms of the start, no drain")
	s := newStatsD(&health.StatsDSinkOptions{SkipNestedEvents: true})
	zz.Quiesce()
	want := ""
	for i := 0; i < 2; i++ {
		time.Sleep(time.Duration(100*zz.Choice("periods", 3))*time.Millisecond + time.Duration(zz.IntN("offset", 1, 99999999)))
		zz.Quiesce()
		s.EmitEvent("j", eventNames[i], nil)
		want += eventNames[i] + ":1|c\n"
		zz.Quiesce()
	}
	time.Sleep(101 * time.Millisecond)
	zz.Quiesce()
	zz.Assert(strings.Join(zz.Packets(), "") == want, "sent within a flush period")
	time.Sleep(250 * time.Millisecond)
	zz.Quiesce()
	zz.Assert(len(zz.Packets()) == 0, "nothing sent twice")
	zz.Reach("end")
}

// C15_periods emits in many successive flush periods.
func C15_periods() {
	n := 24
	if zz.Thorough() {
		n = 120
	}
	zz.Bound("periods", "24 (thorough 120) successive flush periods with one emission each, at any nanosecond of the period")
	s := newStatsD(&health.StatsDSinkOptions{SkipNestedEvents: true})
	zz.Quiesce()
	t0 := time.Now()
	for i := 0; i < n; i++ {
		time.Sleep(time.Duration(i)*100*time.Millisecond + time.Duration(zz.IntN("offset", 1000000, 99000000)) - time.Since(t0))
		zz.Quiesce()
		s.EmitEvent("j", "e", nil)
		zz.Quiesce()
		time.Sleep(time.Duration(i+1)*100*time.Millisecond + time.Microsecond - time.Since(t0))
		zz.Quiesce()
		zz.Assert(strings.Join(zz.Packets(), "") == "e:1|c\n", "sent within a flush period")
	}
	zz.Reach("end")
}

// C15_burst emits more than the sink can buffer before it gets to run.
func C15_burst() {
	n := 9000
	zz.Bound("burst", "9000 emissions by a goroutine that is not interrupted until it blocks, then a drain")
	runtime.GOMAXPROCS(1)
	s := newStatsD(&health.StatsDSinkOptions{SkipNestedEvents: true})
	zz.Quiesce()
	got := 0
	ok := zz.Within(10*time.Second, func() {
		for i := 0; i < n; i++ {
			s.EmitEvent("j", "e", nil)
		}
		s.Drain()
	})
	zz.Assert(ok, "emissions and drain return")
	for _, p := range zz.Packets() {
		got += len(p) / 6
	}
	zz.Assert(got == n, "nothing is lost")
	zz.Reach("end")
}

// C15_held makes requests in a known order while the sink is busy.
func C15_held() {
	n := 3
	if zz.Thorough() {
		n = 5
	}
	zz.Bound("held", "while the sink is busy with an emission (in the user's sanitization function): 0..3 (thorough 0..5) requests of emission or drain, each by its own goroutine and waiting before the next, then a stop or not; a flush tick may be due")
	entered, leave := make(chan bool, 1), make(chan bool, 1)
	s := newStatsD(&health.StatsDSinkOptions{SkipNestedEvents: true, SanitizationFunc: func(b *bytes.Buffer, key string) {
		if key == "first" {
			entered <- true
			<-leave
		}
		b.WriteString(key)
	}})
	zz.Quiesce()
	s.EmitEvent("j", "first", nil)
	<-entered
	want := "first:1|c\n"
	type drain struct {
		done chan bool
		want string
	}
	var drains []drain
	for i, k := 0, zz.Choice("n", n+1); i < k; i++ {
		if zz.Choice("drain", 2) == 0 {
			s.EmitEvent("j", eventNames[i], nil)
			want += eventNames[i] + ":1|c\n"
		} else {
			d := drain{make(chan bool, 1), want}
			drains = append(drains, d)
			go func() {
				s.Drain()
				d.done <- true
			}()
		}
		zz.Quiesce()
	}
	stopped := make(chan bool, 1)
	stop := zz.Choice("stop", 2) == 1
	if stop {
		go func() {
			s.Stop()
			stopped <- true
		}()
		zz.Quiesce()
	}
	if zz.Choice("tick", 2) == 1 {
		time.Sleep(130 * time.Millisecond)
		zz.Quiesce()
	}
	leave <- true
	for _, d := range drains {
		d := d
		zz.Assert(zz.Within(10*time.Second, func() { <-d.done }), "a drain requested before the stop returns")
	}
	if stop {
		zz.Assert(zz.Within(10*time.Second, func() { <-stopped }), "the stop returns")
	} else {
		zz.Assert(zz.Within(10*time.Second, s.Drain), "the drain returns")
	}
	got := strings.Join(zz.Packets(), "")
	zz.Assert(strings.HasPrefix(want, got), "nothing is sent twice or out of order")
	if !stop {
		zz.Assert(got == want, "everything is sent")
	} else if len(drains) > 0 {
		zz.Assert(strings.HasPrefix(got, drains[len(drains)-1].want), "everything emitted before the drain is sent")
	}
	zz.Reach("end")
}
