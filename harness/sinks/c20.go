package sinks

import (
	"encoding/json"
	"errors"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/stack"
	"github.com/gocraft/health/zzverif/zz"
)

// The format of Bugsnag's notifications.
type notice struct {
	APIKey   string `json:"apiKey"`
	Notifier struct {
		Name string `json:"name"`
	} `json:"notifier"`
	Events []struct {
		Version    string `json:"payloadVersion"`
		Exceptions []struct {
			Class   string `json:"errorClass"`
			Message string `json:"message"`
			Frames  []struct {
				File      string `json:"file"`
				Line      int    `json:"lineNumber"`
				Method    string `json:"method"`
				InProject bool   `json:"inProject"`
			} `json:"stacktrace"`
		} `json:"exceptions"`
		Context string `json:"context"`
		App     struct {
			Stage string `json:"releaseStage"`
		} `json:"app"`
		Device struct {
			Host string `json:"hostname"`
		} `json:"device"`
		Meta struct {
			Request struct {
				URL        string `json:"url"`
				Parameters string `json:"parameters"`
			} `json:"request"`
			Kvs map[string]string `json:"kvs"`
		} `json:"metaData"`
	} `json:"events"`
}

func decodeNotice(text string) *notice {
	var n notice
	err := json.Unmarshal([]byte(text), &n)
	zz.Assert(err == nil, "notification is JSON")
	zz.Assert(len(n.Events) == 1 && len(n.Events[0].Exceptions) == 1, "one error per notification")
	return &n
}

// expected is an error that has to be notified.
type expected struct{ job, event, message string }

func (t *transport) checkNotices(want []expected) {
	zz.Assert(len(t.reqs) == len(want), "one notification per unmuted error")
	for i, w := range want {
		n := decodeNotice(t.reqs[i].body)
		e := n.Events[0]
		zz.Assert(e.Context == w.job, "job")
		zz.Assert(e.Exceptions[0].Class == w.event, "event")
		zz.Assert(e.Exceptions[0].Message == w.message, "message")
	}
}

// C20_history reports errors again and again.
func C20_history() {
	n := 3
	if zz.Thorough() {
		n = 4
	}
	zz.Bound("history", "3 (thorough 4) operations: new plain error, any error returned earlier (as it is, muted, or wrapped), muted error, or another emission; through two jobs or the stream; every notification answered 'OK', otherwise, or failing; text of the last error empty or any ASCII character")
	tr := newTransport()
	answers := zz.Choice("answers", nAnswers)
	tr.how = func(i int) int { return answers }
	s := health.NewStream()
	s.AddSink(bugsnag.NewSink(&bugsnag.Config{APIKey: "key"}))
	jobs := []*health.Job{s.NewJob("a"), s.NewJob("b")}
	var want []expected
	var returned []error
	for i := 0; i < n; i++ {
		op := zz.Choice("op", 6)
		by := zz.Choice("by", 3)
		event := []string{"e", "f"}[i%2]
		job := []string{"a", "b", "general"}[by]
		report := func(err error) error {
			switch {
			case by == 2 && i%2 == 0:
				return s.EventErr(event, err)
			case by == 2:
				return s.EventErrKv(event, err, map[string]string{"k": "v"})
			case i%2 == 0:
				return jobs[by].EventErr(event, err)
			}
			return jobs[by].EventErrKv(event, err, map[string]string{"k": "v"})
		}
		switch op {
		case 0: // a new error
			text := []string{"x", "y", "z", "w"}[i]
			if i == n-1 {
				text = zz.ASCII("text", 0, 1)
			}
			returned = append(returned, report(textErr{text}))
			want = append(want, expected{job, event, text})
		case 1: // an earlier error again
			if len(returned) > 0 {
				report(returned[zz.Choice("which", len(returned))])
			}
		case 2: // a muted error
			report(health.Mute(errors.New("m")))
		case 3: // an earlier error, muted
			if len(returned) > 0 {
				report(health.Mute(returned[len(returned)-1]))
			}
		case 4: // unmuted explicitly
			err := &health.UnmutedError{Err: errors.New("u"), Stack: stack.NewTrace(0)}
			report(err)
			report(err)
			returned = append(returned, err)
			want = append(want, expected{job, event, "u"})
		case 5:
			jobs[0].Event("x")
			jobs[0].Timing("x", zz.Int64("nanos"))
			jobs[0].Gauge("x", 1)
			jobs[0].Complete(health.Error)
		}
		zz.Quiesce()
	}
	time.Sleep(time.Minute)
	zz.Quiesce()
	tr.checkNotices(want)
	zz.Reach("end")
}

// C20_burst reports many errors while the service is slow.
func C20_burst() {
	zz.Bound("burst", "60 errors while the first notification is being sent, every third one reported twice, every fourth one muted; answered in any one way")
	tr := newTransport()
	answers := zz.Choice("answers", nAnswers)
	tr.how = func(i int) int { return answers }
	tr.block = make(chan bool)
	s := health.NewStream()
	s.AddSink(bugsnag.NewSink(&bugsnag.Config{APIKey: "key"}))
	j := s.NewJob("j")
	var want []expected
	go func() {
		for {
			time.Sleep(time.Second)
			tr.block <- true
		}
	}()
	for i := 0; i < 60; i++ {
		text := string(rune('A' + i))
		if i%4 == 3 {
			j.EventErr("e", health.Mute(textErr{text}))
			continue
		}
		err := j.EventErr("e", textErr{text})
		if i%3 == 0 {
			j.EventErr("again", err)
		}
		want = append(want, expected{"j", "e", text})
	}
	time.Sleep(2 * time.Minute)
	zz.Quiesce()
	tr.checkNotices(want)
	zz.Reach("end")
}

// C20_concurrent reports errors from two goroutines.
func C20_concurrent() {
	zz.Bound("schedule", "2 goroutines with 2 errors each, one reported twice, 1 preemption (thorough 2)")
	tr := newTransport()
	s := health.NewStream()
	s.AddSink(bugsnag.NewSink(&bugsnag.Config{APIKey: "key"}))
	k := 1
	if zz.Thorough() {
		k = 2
	}
	zz.ExploreSchedules(30, k)
	done := make(chan int, 2)
	for _, name := range []string{"a", "b"} {
		go func() {
			j := s.NewJob(name)
			err := j.EventErr("one", textErr{"x"})
			j.EventErr("two", textErr{"y"})
			j.EventErr("three", err)
			done <- 1
		}()
	}
	<-done
	<-done
	zz.StopExploring()
	time.Sleep(time.Minute)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 4, "one notification per unmuted error")
	count := map[string]int{}
	for _, r := range tr.reqs {
		e := decodeNotice(r.body).Events[0]
		count[e.Context+" "+e.Exceptions[0].Class]++
	}
	for _, k := range []string{"a one", "a two", "b one", "b two"} {
		zz.Assert(count[k] == 1, "each error once")
	}
	zz.Reach("end")
}
