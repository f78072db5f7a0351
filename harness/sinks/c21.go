package sinks

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/stack"
	"github.com/gocraft/health/zzverif/zz"
)

// checkNotice compares a notification with what was reported.
func checkNotice(r request, c *bugsnag.Config, job, event, message string, frames []stack.Frame, kvs map[string]string) {
	zz.Assert(r.method == "POST" && r.ctype == "application/json", "kind of request")
	n := decodeNotice(r.body)
	zz.Assert(n.APIKey == c.APIKey, "API key")
	e := n.Events[0]
	zz.Assert(e.Context == job, "job")
	x := e.Exceptions[0]
	zz.Assert(x.Class == event, "event")
	zz.Assert(x.Message == message, "message")
	zz.Assert(len(x.Frames) == len(frames), "number of stack frames")
	for i, f := range frames {
		g := x.Frames[i]
		zz.Assert(g.File == f.File, "file")
		zz.Assert(g.Line == f.LineNumber, "line")
		zz.Assert(g.Method == f.Package+":"+f.Name, "method")
		zz.Assert(g.InProject == !f.IsSystemPackage, "in project")
	}
	zz.Assert(e.App.Stage == c.ReleaseStage, "release stage")
	zz.Assert(e.Device.Host == c.Hostname, "host name")
	zz.Assert(len(e.Meta.Kvs) == len(kvs), "number of key/values")
	for k, v := range kvs {
		g, ok := e.Meta.Kvs[k]
		zz.Assert(ok && g == v, "key/value")
	}
	zz.Assert(e.Meta.Request.URL == kvs["request"], "request address")
	zz.Assert(e.Meta.Request.Parameters == kvs["formdata"], "request parameters")
}

// C21_content notifies with arbitrary texts.
func C21_content() {
	max := 2
	if zz.Thorough() {
		max = 3
	}
	zz.Bound("texts", "one of API key, job, event, message, release stage, host name, key and value 0..2 (thorough 0..3) arbitrary ASCII characters, the others fixed")
	tr := newTransport()
	t := []string{"key", "job", "ev", "msg", "stage", "host", "k", "v"}
	i := zz.Choice("text", len(t))
	t[i] = zz.ASCII("text", 0, max)
	c := &bugsnag.Config{APIKey: t[0], Endpoint: "http://bugs/x", ReleaseStage: t[4], Hostname: t[5]}
	var kvs map[string]string
	switch zz.Choice("kvs", 6) {
	case 1:
		kvs = map[string]string{}
	case 2:
		kvs = map[string]string{t[6]: t[7]}
	case 3:
		kvs = map[string]string{"request": t[7], "other": "o"}
	case 4:
		kvs = map[string]string{"request": "r", "formdata": t[7]}
	case 5:
		kvs = map[string]string{"formdata": t[7]}
	}
	trace := stack.NewTrace(0)
	how := zz.Choice("answer", nAnswers)
	tr.how = func(int) int { return how }
	err := bugsnag.Notify(c, t[1], t[2], textErr{t[3]}, trace, kvs)
	zz.Assert((err == nil) == (how == answerOK), "failure is returned")
	zz.Assert(len(tr.reqs) == 1, "one request")
	zz.Assert(tr.reqs[0].url == "http://bugs/x", "address")
	checkNotice(tr.reqs[0], c, t[1], t[2], t[3], trace.Frames(), kvs)
	tr.allClosed()
	zz.Reach("end")
}

// C21_later changes key/values after the report.
func C21_later() {
	zz.Bound("changes", "key/values of stream, job and call (0 or 1 each), changed or not after the report and before it is sent; value of 0..1 ASCII characters")
	tr := newTransport()
	tr.block = make(chan bool)
	c := &bugsnag.Config{APIKey: "key", ReleaseStage: "test", Hostname: "h"}
	s := health.NewStream()
	s.AddSink(bugsnag.NewSink(c))
	v := zz.ASCII("value", 0, 1)
	want := map[string]string{}
	if zz.Choice("stream", 2) == 1 {
		s.KeyValue("s", v)
		want["s"] = v
	}
	j := s.NewJob("j")
	if zz.Choice("job", 2) == 1 {
		j.KeyValue("request", v)
		want["request"] = v
	}
	var call map[string]string
	if zz.Choice("call", 2) == 1 {
		call = map[string]string{"c": v}
		want["c"] = v
	}
	// keep the sink busy
	s.NewJob("other").EventErr("first", textErr{"f"})
	zz.Quiesce()
	var err error
	if call == nil && zz.Choice("form", 2) == 1 {
		err = j.EventErr("ev", textErr{"msg"})
	} else {
		err = j.EventErrKv("ev", textErr{"msg"}, call)
	}
	switch zz.Choice("change", 4) {
	case 1:
		j.KeyValue("request", "changed")
	case 2:
		j.KeyValue("new", "n")
	case 3:
		if call != nil {
			call["c"] = "changed"
			call["d"] = "d"
		}
	}
	tr.block <- true
	tr.block <- true
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 2, "two notifications")
	zz.Assert(tr.reqs[1].url == "https://notify.bugsnag.com/", "default address")
	u := err.(*health.UnmutedError)
	checkNotice(tr.reqs[1], c, "j", "ev", "msg", u.Stack.Frames(), want)
	zz.Assert(len(u.Stack.Frames()) > 0, "the error has a stack trace")
	tr.allClosed()
	zz.Reach("end")
}

// C21_depth reports the trace of an error returned from nested calls.
func C21_depth() {
	zz.Bound("depth", "calls nested 0..3, 20 and 60 (thorough 0..60) deep")
	tr := newTransport()
	c := &bugsnag.Config{APIKey: "key"}
	s := health.NewStream()
	s.AddSink(bugsnag.NewSink(c))
	j := s.NewJob("j")
	n := 0
	if zz.Thorough() {
		n = zz.Choice("depth", 61)
	} else {
		n = []int{0, 1, 2, 3, 20, 60}[zz.Choice("depth", 6)]
	}
	err := nested(j, n)
	time.Sleep(time.Second)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 1, "one notification")
	fr := err.(*health.UnmutedError).Stack.Frames()
	zz.Assert(fr[0].Name == "nested" && fr[0].Package == "github.com/gocraft/health/zzverif/sinks", "the trace starts where the error was reported")
	checkNotice(tr.reqs[0], c, "j", "ev", "msg", fr, nil)
	zz.Reach("end")
}

//go:noinline
func nested(j *health.Job, n int) error {
	if n > 0 {
		return nested(j, n-1)
	}
	return j.EventErr("ev", textErr{"msg"})
}
