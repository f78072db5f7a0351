// Package db holds the harnesses for healthd's debouncer.
package db

import (
	"time"

	"github.com/gocraft/health/healthd"
	"github.com/gocraft/health/zzverif/zz"
)

const threshold = 2 * time.Second

// check compares the requests with the firings, all of which are ascending.
// until is when watching ended, slack the time the consumer may be late.
func check(requests, fires []time.Duration, step, until, slack time.Duration) {
	zz.Assert(len(fires) <= len(requests), "no more firings than requests")
	for i, f := range fires {
		last := -time.Hour
		if i > 0 {
			last = fires[i-1]
			zz.Assert(f-last > threshold, "firings are more than the threshold apart")
		}
		// a request since the debouncer last looked before the previous firing
		ok := false
		for _, r := range requests {
			if r >= last-step-slack && f-r > threshold {
				ok = true
			}
		}
		zz.Assert(ok, "fires only for a request, more than the threshold later")
	}
	for _, r := range requests {
		ok := false
		for _, f := range fires {
			if f >= r && f-r <= threshold+2*step+slack {
				ok = true
			}
		}
		zz.Assert(ok || r+threshold+2*step+slack >= until, "every request is followed by a firing in time")
	}
}

// C29_times makes requests at arbitrary times.
func C29_times() {
	n := 2
	if zz.Thorough() {
		n = 3
	}
	zz.Bound("requests", "2 (thorough 3) requests, each any number of nanoseconds up to 3 s after the one before; threshold 2 s, steps of 300 ms or 500 ms")
	if !healthd.ZZHaveDebouncer {
		return
	}
	step := []time.Duration{300 * time.Millisecond, 500 * time.Millisecond}[zz.Choice("step", 2)]
	fire := make(chan struct{})
	request := make(chan struct{}, 64)
	start := time.Now()
	var requests, fires []time.Duration
	go healthd.ZZDebouncer(fire, request, threshold, step)
	go func() {
		for range fire {
			fires = append(fires, time.Since(start))
		}
	}()
	for i := 0; i < n; i++ {
		d := time.Duration(zz.Int64("gap"))
		zz.Assume(d > 0 && d <= 3*time.Second)
		time.Sleep(d)
		requests = append(requests, time.Since(start))
		request <- struct{}{}
	}
	time.Sleep(6*time.Second + 1)
	zz.Quiesce()
	check(requests, fires, step, time.Since(start), 0)
	zz.Reach("end")
}

// C29_bursts makes bursts of requests at once, or none at all.
func C29_bursts() {
	zz.Bound("bursts", "0..2 bursts of 1..2 requests at once over a channel with or without buffer, any number of nanoseconds up to 3.5 s apart; firings taken at once or by a consumer that is away for 0.7 s after each; threshold 2 s, steps of 500 ms")
	if !healthd.ZZHaveDebouncer {
		return
	}
	step := 500 * time.Millisecond
	kind := zz.Choice("kind", 3)
	fire := make(chan struct{})
	request := make(chan struct{}, []int{64, 0, 64}[kind])
	start := time.Now()
	var requests, fires []time.Duration
	late := time.Duration(0)
	if kind == 2 {
		late = 700*time.Millisecond + 1
	}
	go healthd.ZZDebouncer(fire, request, threshold, step)
	go func() {
		for {
			<-fire
			fires = append(fires, time.Since(start))
			if late > 0 {
				time.Sleep(late)
			}
		}
	}()
	n := zz.Choice("bursts", 3)
	for i := 0; i < n; i++ {
		d := time.Duration(zz.Int64("gap"))
		zz.Assume(d > 0 && d <= 3500*time.Millisecond)
		if i == 0 {
			zz.Assume(d <= 500*time.Millisecond)
		}
		time.Sleep(d)
		if kind == 1 {
			request <- struct{}{}
			requests = append(requests, time.Since(start))
			continue
		}
		for k := zz.Choice("size", 2); k >= 0; k-- {
			requests = append(requests, time.Since(start))
			request <- struct{}{}
		}
	}
	time.Sleep(6*time.Second + 1)
	zz.Quiesce()
	check(requests, fires, step, time.Since(start), late)
	zz.Assert(len(fires) <= n, "at most one firing per burst")
	zz.Reach("end")
}

// C29_blocked makes requests while a firing waits to be taken, or at once when it is.
func C29_blocked() {
	zz.Bound("blocked", "a request, and 0..2 more at any nanosecond of 1.3 s in which the firing waits for its consumer; then one or none in the moment the firing is taken, in every interleaving of 1 preemption (thorough 2)")
	if !healthd.ZZHaveDebouncer {
		return
	}
	step := 500 * time.Millisecond
	fire := make(chan struct{})
	request := make(chan struct{}, 64)
	go healthd.ZZDebouncer(fire, request, threshold, step)
	request <- struct{}{}
	time.Sleep(threshold + 2*step)
	n := zz.Choice("more", 3)
	for i := 0; i < n; i++ {
		d := time.Duration(zz.Int64("gap"))
		zz.Assume(d > 0 && d <= 650*time.Millisecond)
		time.Sleep(d)
		request <- struct{}{}
	}
	time.Sleep(650*time.Millisecond + 1)
	zz.Quiesce()
	again := zz.Choice("again", 2) == 1
	preempts := 1
	if zz.Thorough() {
		preempts = 2
	}
	zz.ExploreSchedules(6, preempts)
	<-fire
	if again {
		request <- struct{}{}
	}
	zz.StopExploring()
	ok := zz.Within(threshold+2*step+1, func() { <-fire })
	zz.Assert(ok == (n > 0 || again), "a request made once the debouncer wanted to fire has a firing of its own")
	zz.Assert(!zz.Within(2*threshold, func() { <-fire }), "nothing fires without a request")
	zz.Reach("end")
}
