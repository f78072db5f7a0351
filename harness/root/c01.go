package root

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// emitOn makes one emission with arbitrary content on the job or the stream and returns
// what every sink must see of it.
func emitOn(s *health.Stream, j *health.Job, jobName string, streamMade, jobMade time.Time, tag, event string) rec {
	onStream := zz.Choice(tag+".onStream", 2) == 1
	kind := zz.Choice(tag+".kind", nKinds)
	kv := zz.Choice(tag+".kv", 2) == 1
	var kvs map[string]string
	if kv {
		kvs = map[string]string{"k": "v"}
	}
	want := rec{kind: kind, job: jobName, kvs: kvs}
	made := jobMade
	var er health.EventReceiver = j
	if onStream {
		want.job = "general"
		made = streamMade
		er = s
	}
	if kind != kComplete {
		want.event = event
	}
	switch kind {
	case kEvent:
		if kv {
			er.EventKv(event, kvs)
		} else {
			er.Event(event)
		}
	case kErr:
		var e error = textErr{"boom"}
		if kv {
			want.err = er.EventErrKv(event, e, kvs)
		} else {
			want.err = er.EventErr(event, e)
		}
	case kTiming:
		want.nanos = zz.Int64(tag + ".nanos")
		if kv {
			er.TimingKv(event, want.nanos, kvs)
		} else {
			er.Timing(event, want.nanos)
		}
	case kGauge:
		want.bits = zz.Uint64(tag + ".gauge")
		if kv {
			er.GaugeKv(event, f64(want.bits), kvs)
		} else {
			er.Gauge(event, f64(want.bits))
		}
	case kComplete:
		want.status = health.CompletionStatus(zz.Int64(tag + ".status"))
		want.nanos = int64(time.Since(made))
		switch {
		case onStream && kv:
			s.CompleteKv(want.status, kvs)
		case onStream:
			s.Complete(want.status)
		case kv:
			j.CompleteKv(want.status, kvs)
		default:
			j.Complete(want.status)
		}
	}
	return want
}

func checkFanOut(log *recLog, from int, ids []int, want rec) {
	got := log.recs[from:]
	zz.Assert(len(got) == len(ids), "each attached sink is called exactly once")
	for i, r := range got {
		zz.Assert(r.sink == ids[i], "sinks are called in the order they were attached")
		zz.Assert(r.kind == want.kind, "the sink is given the same kind of emission")
		zz.Assert(r.job == want.job, "job name as given")
		zz.Assert(r.event == want.event, "event name as given")
		zz.Assert(r.nanos == want.nanos, "nanoseconds as given, or time since the job was created")
		zz.Assert(sameBits(r.bits, want.bits), "gauge value as given")
		zz.Assert(r.status == want.status, "status as given")
		zz.Assert(sameKvs(r.kvs, want.kvs), "key/values as given")
		if want.kind == kErr {
			zz.Assert(r.err == want.err, "every sink is given the returned error")
		}
	}
}

// C01_fanout makes two arbitrary emissions, attaching a further sink in between.
func C01_fanout() {
	zz.Bound("emissions", "2 in a row, each of any kind, with or without key/values, on the job or the stream")
	zz.Bound("sinks", "0..3 attached before, then none, a new one or one that is attached already")
	zz.Bound("names", "job 1 arbitrary byte or 302 bytes with arbitrary ends; first event 0..2 arbitrary bytes or 302 bytes with arbitrary ends, second 1 arbitrary byte")
	zz.Bound("time", "0..2^30 ns before and 0..2^40 ns after the job is created")
	s := health.NewStream()
	streamMade := time.Now()
	log := &recLog{}
	var ids []int
	n := zz.Choice("sinks", 4)
	var first health.Sink
	for i := 0; i < n; i++ {
		sk := &recSink{i, log}
		if i == 0 {
			first = sk
		}
		zz.Assert(s.AddSink(sk) == s, "AddSink returns the stream")
		ids = append(ids, i)
	}
	time.Sleep(time.Duration(zz.IntN("gap0", 1, 1<<30)))
	jobName := zz.String("job", 1, 1)
	if zz.Choice("longjob", 2) == 1 {
		jobName += long100 + long100 + long100 + zz.String("job.z", 1, 1)
	}
	j := s.NewJob(jobName)
	jobMade := time.Now()
	time.Sleep(time.Duration(zz.IntN("gap1", 1, 1<<40)))
	w := emitOn(s, j, jobName, streamMade, jobMade, "one", name("one.event", 2))
	checkFanOut(log, 0, ids, w)
	k := len(log.recs)
	switch zz.Choice("attach", 3) {
	case 1:
		s.AddSink(&recSink{7, log})
		ids = append(ids, 7)
	case 2:
		if first != nil {
			s.AddSink(first)
			ids = append(ids, 0)
		}
	}
	w = emitOn(s, j, jobName, streamMade, jobMade, "two", zz.String("two.event", 1, 1))
	checkFanOut(log, k, ids, w)
	zz.Reach("end")
	zz.Obs("calls", len(log.recs))
	for _, r := range log.recs {
		zz.Obs("job", r.job)
		zz.Obs("event", r.event)
		zz.Obs("nanos", r.nanos)
		zz.Obs("bits", r.bits)
		zz.Obs("status", int64(r.status))
	}
}
