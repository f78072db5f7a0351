package sinks

import (
	"strings"
	"sync"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"github.com/gocraft/health/zzverif/zz"
)

// lines is a writer that goroutines can share; every Write is one line.
type lines struct {
	mu sync.Mutex
	l  []string
}

func (w *lines) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.l = append(w.l, string(b))
	return len(b), nil
}

func (w *lines) with(parts ...string) int {
	n := 0
	for _, l := range w.l {
		ok := true
		for _, p := range parts {
			ok = ok && strings.Contains(l, p)
		}
		if ok {
			n++
		}
	}
	return n
}

// report makes one emission of any kind through a receiver.
func report(r health.EventReceiver, kind int, name string, nanos int64, kvs map[string]string) {
	switch kind {
	case kEvent:
		r.EventKv(name, kvs)
	case kErr:
		r.EventErrKv(name, textErr{"msg"}, kvs)
	case kTiming:
		r.TimingKv(name, nanos, kvs)
	case kGauge:
		r.GaugeKv(name, 6, kvs)
	case kComplete:
		r.(*health.Job).CompleteKv(health.Success, kvs)
	}
}

// C30_all uses a stream with all sinks from two goroutines.
func C30_all() {
	n := 0
	if zz.Thorough() {
		n = 1
	}
	zz.Bound("goroutines", "2 goroutines with 1 emission each of any kind (timings of any 10..99 ms in 1 ns steps), through one job, jobs of their own, or the stream, with or without key/values at each level; all six sinks attached; every interleaving of synchronisation operations within 3 free context switches without (thorough: 8 with 1) preemption, data races by happens-before")
	tr := newTransport()
	text, js := &lines{}, &lines{}
	poll := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	st, err := health.NewStatsDSink(zz.UDPAddr(), nil)
	zz.Assert(err == nil, "StatsD sink")
	s := health.NewStream()
	s.AddSink(&health.WriterSink{Writer: text})
	s.AddSink(&health.JsonWriterSink{Writer: js})
	s.AddSink(poll)
	s.AddSink(st)
	s.AddSink(librato.New("u", "k", ""))
	s.AddSink(bugsnag.NewSink(&bugsnag.Config{APIKey: "key"}))
	level := 3 * zz.Choice("kvs", 2)
	if zz.Thorough() {
		level = zz.Choice("kvs", 4)
	}
	if level >= 1 {
		s.KeyValue("a", "stream")
	}
	via := zz.Choice("via", 3)
	shared := s.NewJob("job")
	if level >= 2 {
		shared.KeyValue("b", "job")
	}
	zz.Quiesce()
	var kinds [2]int
	var recv [2]health.EventReceiver
	var jobs [2]string
	var nanos [2]int64
	names := [2]string{"ev1", "ev2"}
	for i := range kinds {
		kinds[i] = zz.Choice("kind", nKinds)
		nanos[i] = zz.IntN("nanos", 10000000, 99999999)
		switch via {
		case 0:
			recv[i], jobs[i] = shared, "job"
		case 1:
			recv[i], jobs[i] = s.Job, "general"
		case 2:
			jobs[i] = []string{"job1", "job2"}[i]
			recv[i] = s.NewJob(jobs[i])
		}
	}
	zz.DetectRaces()
	zz.ExploreSchedules(3+5*n, n)
	done := make(chan bool, 2)
	for i := range kinds {
		go func() {
			var kvs map[string]string
			if level == 3 {
				kvs = map[string]string{"c": names[i]}
			}
			report(recv[i], kinds[i], names[i], nanos[i], kvs)
			done <- true
		}()
	}
	ok := zz.Within(5*time.Second, func() { <-done; <-done })
	zz.StopExploring()
	zz.Assert(ok, "emissions return")
	zz.Quiesce()
	m := poll.GetMetrics()[0]
	zz.Assert(m.SerialNumber == 2, "polling sink: every emission once")
	st.Drain()
	packets := strings.Join(zz.Packets(), "")
	time.Sleep(16 * time.Second) // Librato's flush
	zz.Quiesce()
	errs := 0
	for i, k := range kinds {
		per := m.Jobs[jobs[i]]
		zz.Assert(per != nil, "polling sink: job")
		mark := " event:" + names[i]
		line := jobs[i] + "." + names[i]
		both := 0
		for j := range kinds {
			if kinds[j] == kComplete && jobs[j] == jobs[i] {
				both++
			}
		}
		want := 1
		switch k {
		case kEvent:
			zz.Assert(m.Events[names[i]] == 1 && per.Events[names[i]] == 1, "polling sink: event")
		case kErr:
			errs++
			zz.Assert(m.EventErrs[names[i]].Count == 1 && per.EventErrs[names[i]].Count == 1, "polling sink: error")
		case kTiming:
			zz.Assert(m.Timers[names[i]].NanosSum == nanos[i] && per.Timers[names[i]].NanosMax == nanos[i], "polling sink: nanoseconds")
			zz.Assert(m.Timers[names[i]].Count == 1 && per.Timers[names[i]].Count == 1, "polling sink: timing")
		case kGauge:
			zz.Assert(m.Gauges[names[i]] == 6 && per.Gauges[names[i]] == 6, "polling sink: gauge")
		case kComplete:
			zz.Assert(per.CountSuccess == int64(both), "polling sink: completions")
			mark = "job:" + jobs[i] + " status:success"
			line = jobs[i] + ".success"
			want = both
		}
		zz.Assert(text.with(mark) == want, "writer sink: line")
		key := `"` + names[i] + `"`
		if k == kComplete {
			key = `"success"`
		}
		zz.Assert(js.with(key, `"`+jobs[i]+`"`) >= want, "JSON writer sink: object")
		zz.Assert(strings.Count(packets, line) == want, "StatsD sink: line")
	}
	zz.Assert(len(text.l) == 2 && len(js.l) == 2, "writer sinks: every emission once")
	notices, posts := 0, 0
	for _, r := range tr.reqs {
		if strings.Contains(r.url, "bugsnag") {
			notices++
		} else {
			posts++
		}
	}
	zz.Assert(notices == errs, "Bugsnag sink: every error once")
	zz.Assert(posts == 1, "Librato sink: one request")
	zz.Reach("end")
}

// C30_error reports one error from two goroutines.
func C30_error() {
	n := 0
	if zz.Thorough() {
		n = 1
	}
	zz.Bound("error", "one plain, muted, or (reported before) unmuted error, reported by 2 goroutines once or twice each in either form through one job, with writer, polling and Bugsnag sinks; every interleaving of synchronisation operations within 3 free context switches without (thorough: 8 with 1) preemption, data races by happens-before")
	tr := newTransport()
	text := &lines{}
	poll := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	s := health.NewStream()
	s.AddSink(&health.WriterSink{Writer: text})
	s.AddSink(poll)
	s.AddSink(bugsnag.NewSink(&bugsnag.Config{APIKey: "key"}))
	j := s.NewJob("job")
	var e error = textErr{"msg"}
	kind := zz.Choice("error", 3)
	notices, total := 2, 2
	switch kind {
	case 1:
		e = health.Mute(e)
		notices = 0
	case 2:
		e = s.EventErr("first", e)
		notices = 1
	}
	again := zz.Choice("again", 2) == 1
	if again {
		total += 2
	}
	form := [2]int{zz.Choice("form", 2), zz.Choice("form", 2)}
	zz.Quiesce()
	zz.DetectRaces()
	zz.ExploreSchedules(3+5*n, n)
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			rep := func(e error) error {
				if form[i] == 0 {
					return j.EventErr("ev", e)
				}
				return j.EventErrKv("ev", e, map[string]string{"k": "v"})
			}
			r := rep(e)
			if again {
				rep(r)
			}
			done <- true
		}()
	}
	ok := zz.Within(5*time.Second, func() { <-done; <-done })
	zz.StopExploring()
	zz.Assert(ok, "emissions return")
	time.Sleep(time.Second)
	zz.Quiesce()
	zz.Assert(text.with("job:job event:ev", "err:msg") == total, "writer sink: every report")
	m := poll.GetMetrics()[0]
	zz.Assert(m.EventErrs["ev"].Count == int64(total), "polling sink: every report")
	zz.Assert(len(tr.reqs) == notices, "Bugsnag sink: every error once")
	zz.Reach("end")
}
