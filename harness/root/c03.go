package root

import (
	"errors"
	"fmt"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

type bothErr struct{ s string }

func (x bothErr) Error() string  { return x.s }
func (x bothErr) String() string { return "string" }

type stringer struct{ s string }

func (x stringer) String() string { return "<" + x.s + ">" }

// C03_run runs a function that returns or panics in every way.
func C03_run() {
	zz.Bound("function", "returns nil, an error (value or pointer type, muted, unmuted), or panics with a string, an error, an int, a struct, a Stringer, an error that also is a Stringer, a muted error, an unmuted error reported before or not, or a run-time error; it may emit an event and panic inside a nested Run or a deferred call")
	zz.Bound("texts", "0..2 arbitrary bytes")
	zz.Bound("time", "0..2^40 ns")
	log := &recLog{}
	s := health.NewStream().AddSink(&recSink{0, log})
	if zz.Choice("two", 2) == 1 {
		s.AddSink(&recSink{1, log})
	}
	nsinks := len(s.Sinks)
	if zz.Choice("kv", 2) == 1 {
		s.KeyValue("stack", "mine")
	}
	way := zz.Choice("way", 18)
	text := zz.String("text", 0, 2)
	d := zz.IntN("d", 1, 1<<40)
	emits := zz.Choice("emits", 2) == 1
	var own error
	wantText := ""
	panics := true
	var nilmap map[string]int
	var nilptr *rec
	idx := 3
	var reported, fresh error
	if way == 15 {
		reported = health.NewStream().EventErr("before", &ptrErr{text})
	}
	if way == 16 {
		fresh = health.NewStream().EventErr("before", &ptrErr{text})
		fresh.(*health.UnmutedError).Emitted = false
	}
	f := func() error {
		time.Sleep(time.Duration(d))
		if emits {
			s.Event("inside")
		}
		switch way {
		case 0:
			panics = false
			return nil
		case 1:
			panics = false
			own = textErr{text}
			return own
		case 2:
			panics = false
			own = &ptrErr{text}
			return own
		case 3:
			panics = false
			own = health.Mute(&ptrErr{text})
			return own
		case 4:
			wantText = text
			panic(text)
		case 5:
			wantText = text
			panic(textErr{text})
		case 6:
			wantText = text
			panic(&ptrErr{text})
		case 7:
			wantText = "42"
			panic(42)
		case 8:
			wantText = "{" + text + "}"
			panic(struct{ s string }{text})
		case 9:
			wantText = "<" + text + ">"
			panic(stringer{text})
		case 10:
			wantText = "assignment to entry in nil map"
			nilmap["x"] = 1
		case 11:
			wantText = "runtime error: invalid memory address or nil pointer dereference"
			nilptr.job = "x"
		case 12:
			wantText = "runtime error: index out of range [3] with length 2"
			_ = []int{1, 2}[idx]
		case 13:
			wantText = text
			defer func() { panic(text) }()
			panic("first")
		case 14:
			wantText = text
			panic(health.Mute(textErr{text}))
		case 15:
			wantText = text
			panic(reported)
		case 16:
			wantText = text
			panic(fresh)
		case 17:
			wantText = text
			panic(bothErr{text})
		}
		return nil
	}
	if way == 13 {
		// fmt.Sprint of the last panic value
		wantText = text
	}
	job := "general"
	var err error
	var j *health.Job
	onStream := zz.Choice("onStream", 2) == 1
	escaped := true
	func() {
		defer func() {
			if escaped {
				recover()
			}
		}()
		if onStream {
			job = "job"
			err = s.Run(job, f)
		} else {
			j = s.NewJob("mine")
			job = "mine"
			err = j.Run(f)
		}
		escaped = false
	}()
	zz.Assert(!escaped, "a panic never escapes to the caller")
	want := []rec{}
	if emits {
		for i := 0; i < nsinks; i++ {
			want = append(want, rec{sink: i, kind: kEvent, job: "general", event: "inside"})
		}
	}
	status := health.Success
	if panics {
		status = health.Panic
		for i := 0; i < nsinks; i++ {
			want = append(want, rec{sink: i, kind: kErr, job: job, event: "panic"})
		}
		zz.Assert(err != nil && err.Error() == wantText, "after a panic Run returns an error with the printed panic value")
	} else {
		zz.Assert(err == own, "Run returns the function's own error unchanged")
		if own != nil {
			status = health.Error
		}
	}
	for i := 0; i < nsinks; i++ {
		want = append(want, rec{sink: i, kind: kComplete, job: job, status: status, nanos: d})
	}
	zz.Assert(len(log.recs) == len(want), "exactly the expected emissions")
	for i, r := range log.recs {
		w := want[i]
		zz.Assert(r.sink == w.sink && r.kind == w.kind && r.job == w.job && r.event == w.event, "panic event before one completion")
		zz.Assert(r.status == w.status, "completion status")
		zz.Assert(r.nanos == w.nanos, "completion time")
		if r.kind == kErr {
			zz.Assert(r.err.Error() == wantText, "panic event has the printed panic value")
			zz.Assert(r.kvs["stack"] != "" && r.kvs["stack"] != "mine", "panic event has a stack")
		}
	}
	zz.Reach("end")
	zz.Obs("status", int64(log.recs[len(log.recs)-1].status))
	if err != nil {
		zz.Obs("err", err.Error())
	}
}

// C03_nested runs a job within a job.
func C03_nested() {
	zz.Bound("function", "a Run inside a Run, each succeeding, failing or panicking")
	log := &recLog{}
	s := health.NewStream().AddSink(&recSink{0, log})
	a, b := zz.Choice("inner", 3), zz.Choice("outer", 3)
	e1, e2 := errors.New("one"), fmt.Errorf("two")
	st := []health.CompletionStatus{health.Success, health.Error, health.Panic}
	var inner error
	outer := s.Run("outer", func() error {
		inner = s.Run("inner", func() error {
			switch a {
			case 1:
				return e1
			case 2:
				panic("p1")
			}
			return nil
		})
		switch b {
		case 1:
			return e2
		case 2:
			panic("p2")
		}
		return nil
	})
	type w struct {
		job string
		st  health.CompletionStatus
	}
	var comps []w
	perrs := 0
	for _, r := range log.recs {
		if r.kind == kComplete {
			comps = append(comps, w{r.job, r.status})
		} else {
			zz.Assert(r.kind == kErr && r.event == "panic", "only panic events besides completions")
			perrs++
		}
	}
	zz.Assert(len(comps) == 2 && comps[0] == w{"inner", st[a]} && comps[1] == w{"outer", st[b]}, "one completion each, with the right status")
	np := 0
	if a == 2 {
		np++
		zz.Assert(inner != nil && inner.Error() == "p1", "inner panic text")
	} else {
		zz.Assert(inner == []error{nil, e1}[a], "inner error")
	}
	if b == 2 {
		np++
		zz.Assert(outer != nil && outer.Error() == "p2", "outer panic text")
	} else {
		zz.Assert(outer == []error{nil, e2}[b], "outer error")
	}
	zz.Assert(perrs == np, "each panic reported once")
	zz.Reach("end")
}
