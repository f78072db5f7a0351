SINK='''
type zzEm struct {
	kind, job, event string
	nanos            int64
	value            float64
	err              error
	emitted          bool
	kvs              map[string]string
}
type zzSink struct {
	got   []zzEm
	sleep time.Duration
}

func (s *zzSink) add(e zzEm, m map[string]string) {
	e.kvs = map[string]string{}
	for k, v := range m {
		e.kvs[k] = v
	}
	s.got = append(s.got, e)
	time.Sleep(s.sleep)
}
func (s *zzSink) EmitEvent(job string, event string, kvs map[string]string) {
	s.add(zzEm{kind: "event", job: job, event: event}, kvs)
}
func (s *zzSink) EmitEventErr(job string, event string, err error, kvs map[string]string) {
	u, ok := err.(*UnmutedError)
	s.add(zzEm{kind: "err", job: job, event: event, err: err, emitted: ok && u.Emitted}, kvs)
}
func (s *zzSink) EmitTiming(job string, event string, n int64, kvs map[string]string) {
	s.add(zzEm{kind: "timing", job: job, event: event, nanos: n}, kvs)
}
func (s *zzSink) EmitComplete(job string, st CompletionStatus, n int64, kvs map[string]string) {
	s.add(zzEm{kind: "complete", job: job, event: st.String(), nanos: n}, kvs)
}
func (s *zzSink) EmitGauge(job string, event string, v float64, kvs map[string]string) {
	s.add(zzEm{kind: "gauge", job: job, event: event, value: v}, kvs)
}
'''
def T(imports,body,sink=True):
    ims=set(imports)|{"testing"}
    if sink: ims.add("time")
    return "package health\n\nimport (\n"+"".join('\t"%s"\n'%i for i in sorted(ims))+")\n"+(SINK if sink else "")+"\nfunc TestZZDemo(t *testing.T) {\n"+body+"}\n"
seeds=[
dict(id="c02-merge-into-job",property="C02",pkg=".",
 needs="a job with its own key/values on a stream without any, an emission with call key/values, then another emission on the same job",
 breaks="Merging reuses the job's own map when only the job and the call have key/values, so the call's key/values stay on the job for later emissions",
 edits=[("health.go","""		allKvs = make(map[string]string)
		for k, v := range j.Stream.KeyValues {
			allKvs[k] = v
		}
		for k, v := range j.KeyValues {
			allKvs[k] = v
		}
""","""		if len(j.Stream.KeyValues) > 0 {
			allKvs = make(map[string]string)
			for k, v := range j.Stream.KeyValues {
				allKvs[k] = v
			}
			for k, v := range j.KeyValues {
				allKvs[k] = v
			}
		} else {
			// Only the job's and the instance's.
			allKvs = j.KeyValues
		}
""")],
 demo=T([],'''	s := &zzSink{}
	st := NewStream()
	st.AddSink(s)
	j := st.NewJob("j").KeyValue("a", "1")
	j.EventKv("e", Kvs{"b": "2"})
	j.Event("e")
	if len(s.got) != 2 || len(s.got[0].kvs) != 2 || len(s.got[1].kvs) != 1 {
		t.Fatalf("key/values of a call leaked: %v", s.got)
	}
''')),
dict(id="c01-complete-zero-for-later-sinks",property="C01",pkg=".",
 needs="a completion with key/values on a job that has been running for longer than 2^31 ns (about 2.1 s)",
 breaks="The elapsed time of CompleteKv passes through a 32-bit integer when computed once for all sinks, so long jobs report a wrong time",
 edits=[("health.go","""	allKvs := j.mergedKeyValues(kvs)
	for _, sink := range j.Stream.Sinks {
		sink.EmitComplete(j.JobName, status, time.Since(j.Start).Nanoseconds(), allKvs)
	}
""","""	allKvs := j.mergedKeyValues(kvs)
	micros := uint32(time.Since(j.Start) / time.Microsecond)
	for _, sink := range j.Stream.Sinks {
		sink.EmitComplete(j.JobName, status, int64(micros)*int64(time.Microsecond), allKvs)
	}
""")],
 demo=T([],'''	s := &zzSink{}
	st := NewStream()
	st.AddSink(s)
	j := st.NewJob("j")
	j.Start = j.Start.Add(-2 * time.Hour)
	j.CompleteKv(Success, Kvs{"a": "b"})
	if s.got[0].nanos < int64(2*time.Hour) || s.got[0].nanos > int64(3*time.Hour) {
		t.Fatalf("wrong time %d", s.got[0].nanos)
	}
''')),
dict(id="c03-error-panic-typed",property="C03",pkg=".",
 needs="a function that panics with a value that is itself an error implementing Unwrap or whose printed form differs from Error()",
 breaks="A panic with an UnmutedError value that was already reported returns that error and reports it as already emitted: the panic event is dropped",
 edits=[("health.go","""			err = errors.New(fmt.Sprint(r))
			j.EventErrKv("panic", err, Kvs{"stack": string(stack)})
""","""			err = errors.New(fmt.Sprint(r))
			if ue, ok := r.(*UnmutedError); ok && ue.Emitted {
				// It has been reported where it happened.
				err = ue
			} else {
				j.EventErrKv("panic", err, Kvs{"stack": string(stack)})
			}
""")],
 demo=T(["errors"],'''	s := &zzSink{}
	st := NewStream()
	st.AddSink(s)
	j := st.NewJob("j")
	err := j.Run(func() error {
		panic(j.EventErr("e", errors.New("x")))
	})
	n := 0
	for _, e := range s.got {
		if e.kind == "err" && e.event == "panic" {
			n++
		}
	}
	if n != 1 || err.Error() != "x" {
		t.Fatalf("%d panic events", n)
	}
''')),
dict(id="c04-emitted-before-last-sink",property="C04",pkg=".",
 needs="an unmuted error reported with key/values to two or more sinks",
 breaks="With key/values, the error is marked emitted inside the sink loop: every sink but the first sees a new error as already emitted",
 edits=[("health.go","""	allKvs := j.mergedKeyValues(kvs)
	for _, sink := range j.Stream.Sinks {
		sink.EmitEventErr(j.JobName, eventName, err, allKvs)
	}
""","""	allKvs := j.mergedKeyValues(kvs)
	for _, sink := range j.Stream.Sinks {
		emitOnce(sink, j.JobName, eventName, err, allKvs)
	}
"""),("health.go","""func (j *Job) EventErrKv(""","""func emitOnce(sink Sink, job, event string, err error, kvs map[string]string) {
	sink.EmitEventErr(job, event, err, kvs)
	if err, ok := err.(*UnmutedError); ok {
		err.Emitted = true
	}
}

func (j *Job) EventErrKv(""")],
 demo=T(["errors"],'''	a, b := &zzSink{}, &zzSink{}
	st := NewStream()
	st.AddSink(a).AddSink(b)
	st.EventErrKv("e", errors.New("x"), Kvs{"a": "b"})
	if a.got[0].emitted || b.got[0].emitted {
		t.Fatalf("already emitted: %v %v", a.got[0].emitted, b.got[0].emitted)
	}
''')),
dict(id="c05-min-zero",property="C05",pkg=".",
 needs="two timings of one name in one interval where the first is 0 ns, or a negative one after",
 breaks="The minimum is treated as unset while it is 0, so a measurement of 0 ns is forgotten when a larger one follows",
 edits=[("interval_aggregation.go","""	if a.Count == 1 || nanos < a.NanosMin {
""","""	if a.NanosMin == 0 || nanos < a.NanosMin {
""")],
 demo=T([],'''	a := newAggregator(60e9, 300e9)
	a.EmitTiming("j", "e", 0)
	a.EmitTiming("j", "e", 5)
	if m := a.getIntervalAggregation().Timers["e"].NanosMin; m != 0 {
		t.Fatalf("minimum %d", m)
	}
''',False)),
dict(id="c06-past-interval-reused",property="C06",pkg=".",
 needs="four or more retained intervals, all in use, and a metrics reader that still holds a past interval when the clock moves on",
 breaks="The object of the dropped oldest interval is recycled for the new one, although readers may hold it: a past interval changes",
 edits=[("aggregator.go","""	n := len(a.intervalAggregations)
	if n == a.maxIntervals {
""","""	n := len(a.intervalAggregations)
	if n == a.maxIntervals && n > 3 {
		// Let the oldest one take over, to save its allocation.
		oldest := a.intervalAggregations[0]
		copy(a.intervalAggregations, a.intervalAggregations[1:])
		*oldest = *current
		current = oldest
		a.intervalAggregations[n-1] = current
	} else if n == a.maxIntervals {
""")],
 demo=T(["fmt"],'''	defer resetNowMock()
	a := newAggregator(60e9, 240e9)
	var first *IntervalAggregation
	for i := 0; i < 6; i++ {
		setNowMock(fmt.Sprintf("2011-09-09T23:%02d:01Z", 10+i))
		a.EmitEvent("j", fmt.Sprint("e", i))
		m := a.memorySafeIntervals()
		if i == 1 {
			first = m[0] // no longer current
		}
	}
	if first.Events["e0"] != 1 || len(first.Events) != 1 || first.IntervalStart.Minute() != 10 {
		t.Fatalf("past interval changed: %v %v", first.IntervalStart, first.Events)
	}
''',False)),
dict(id="c07-clone-only-if-changed",property="C07",pkg=".",
 needs="two snapshots without an emission in between, then an emission while the second snapshot is held",
 breaks="An interval whose serial number did not change since the last snapshot is handed out uncloned, so a snapshot changes with the next emission",
 edits=[("aggregator.go","""	// intervals is a slice of the retained intervals
	intervalAggregations []*IntervalAggregation
""","""	// intervals is a slice of the retained intervals
	intervalAggregations []*IntervalAggregation

	// snapSerial is the serial number of the current interval at the last snapshot
	snapSerial int64
"""),("aggregator.go","""		if intAgg == curAgg {
			ret = append(ret, intAgg.Clone())
		} else {
			ret = append(ret, intAgg)
		}
""","""		if intAgg == curAgg && (intAgg.SerialNumber == 0 || intAgg.SerialNumber != a.snapSerial) {
			a.snapSerial = intAgg.SerialNumber
			ret = append(ret, intAgg.Clone())
		} else {
			ret = append(ret, intAgg)
		}
""")],
 demo=T([],'''	s := NewJsonPollingSink(time.Hour, 5*time.Hour)
	defer s.ShutdownServer()
	s.EmitEvent("j", "e", nil)
	time.Sleep(20 * time.Millisecond)
	s.GetMetrics()
	m := s.GetMetrics()
	s.EmitEvent("j", "e", nil)
	time.Sleep(20 * time.Millisecond)
	if n := m[len(m)-1].Events["e"]; n != 1 {
		t.Fatalf("snapshot changed to %d", n)
	}
''')),
dict(id="c08-clone-shares-errcounter",property="C08",pkg=".",
 needs="an error counter of a job whose last error is repeated after the aggregation was cloned",
 breaks="A job's error counter is shared with the clone when all its errors were equal (sample index 0), so errors counted later show up in the clone",
 edits=[("interval_aggregation_clone.go","""	for k, v := range am.EventErrs {
		dup.EventErrs[k] = v.Clone()
	}
""","""	for k, v := range am.EventErrs {
		if v.errorSampleIndex == 0 && v.Count > 1 {
			// a single repeated error: nothing in the ring moves any more
			dup.EventErrs[k] = v
			continue
		}
		dup.EventErrs[k] = v.Clone()
	}
""")],
 demo=T(["errors"],'''	a := newAggregator(60e9, 300e9)
	e := errors.New("x")
	a.EmitEventErr("j", "e", e)
	a.EmitEventErr("j", "e", e)
	ia := a.getIntervalAggregation()
	c := ia.Clone()
	ia.Jobs["j"].EventErrs["e"].incrementAndAddError(e)
	if n := c.Jobs["j"].EventErrs["e"].Count; n != 2 {
		t.Fatalf("clone has %d", n)
	}
''',False)),
dict(id="c09-merge-job-only-timed",property="C09",pkg=".",
 needs="a job on both sides where the merged-in one has errors or events but no completion yet",
 breaks="A merged-in job without completions is skipped entirely, so the events, gauges, timers and errors under it are lost",
 edits=[("interval_aggregation_merge.go","""		if existingJob, ok := ia.Jobs[k]; ok {
			existingJob.merge(v)
""","""		if existingJob, ok := ia.Jobs[k]; ok {
			if v.Count == 0 && existingJob.Count > 0 {
				continue // has not run since
			}
			existingJob.merge(v)
""")],
 demo=T([],'''	a, b := newAggregator(60e9, 300e9), newAggregator(60e9, 300e9)
	a.EmitComplete("j", Success, 5)
	b.EmitEvent("j", "e")
	x := a.getIntervalAggregation()
	x.Merge(b.getIntervalAggregation())
	if x.Jobs["j"].Events["e"] != 1 {
		t.Fatal("event lost")
	}
''',False)),
dict(id="c10-sample-compare-text",property="C10",pkg=".",
 needs="two consecutive different errors with the same text but different contents",
 breaks="Consecutive errors with equal text but of different type or content are collapsed into one sample",
 edits=[("interval_aggregation.go","""	} else if !reflect.DeepEqual(lastErr, inputErr) {
""","""	} else if lastErr.Error() != inputErr.Error() || reflect.TypeOf(lastErr) != reflect.TypeOf(inputErr) {
""")],
 demo="package health\n\nimport \"testing\"\n\n"+'''type zzErr struct{ code int }

func (e zzErr) Error() string { return "failed" }

func TestZZDemo(t *testing.T) {
	ec := &ErrorCounter{}
	ec.incrementAndAddError(zzErr{1})
	ec.incrementAndAddError(zzErr{2})
	if n := len(ec.getErrorSamples()); n != 2 {
		t.Fatalf("%d samples", n)
	}
}
'''),
dict(id="c13-prefix-key-collision",property="C13",pkg=".",
 needs="a job 'error' style collision: an error event and a plain event whose key parts concatenate to the same text",
 breaks="Reused prefix buffers are keyed by the joined text, so ('a','bc') and ('ab','c') share one buffer and the second goes out under the first's key",
 edits=[("statsd_sink.go","""	key := eventKey{job, event, suffix}
""","""	key := eventKey{event: job + event, suffix: suffix}
""")],
 demo=T(["net"],'''	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	s, err := NewStatsDSink(c.LocalAddr().String(), &StatsDSinkOptions{SkipTopLevelEvents: true})
	if err != nil {
		t.Fatal(err)
	}
	s.EmitEvent("a", "bc", nil)
	s.EmitEvent("ab", "c", nil)
	s.Drain()
	buf := make([]byte, 2000)
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	n, _, _ := c.ReadFrom(buf)
	if g := string(buf[:n]); g != "a.bc:1|c\\nab.c:1|c\\n" {
		t.Fatalf("%q", g)
	}
''')),
dict(id="c14-flush-exact-fit",property="C14",pkg=".",
 needs="a metric line that fills the packet to exactly 1440 bytes, then another emission before the next flush",
 breaks="A packet that is exactly full is sent at once but the buffer is only reset by the next flush with data, so its lines are sent twice",
 edits=[("statsd_sink.go","""	s.udpBuf.Write(b)
}
""","""	s.udpBuf.Write(b)

	if s.udpBuf.Len() == maxUdpBytes {
		s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
	}
}
""")],
 demo=T(["net","strings"],'''	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	s, err := NewStatsDSink(c.LocalAddr().String(), &StatsDSinkOptions{SkipNestedEvents: true})
	if err != nil {
		t.Fatal(err)
	}
	s.EmitEvent("a", strings.Repeat("x", 1440-5), nil)
	s.Drain()
	n := 0
	buf := make([]byte, 2000)
	for {
		c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		if _, _, err := c.ReadFrom(buf); err != nil {
			break
		}
		n++
	}
	if n != 1 {
		t.Fatalf("%d packets", n)
	}
''')),
dict(id="c12-emit-drops-when-full",property="C12",pkg=".",
 needs="more emissions than the channel buffers before the aggregating goroutine gets to run",
 breaks="EmitTiming gives up when the command channel is full instead of waiting, so measurements of a burst are lost",
 edits=[("json_polling_sink.go","""	s.cmdChan <- &emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos}
""","""	select {
	case s.cmdChan <- &emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos}:
	default:
		// don't slow down the caller
	}
""")],
 demo=T(["runtime"],'''	runtime.GOMAXPROCS(1)
	s := NewJsonPollingSink(time.Hour, 5*time.Hour)
	defer s.ShutdownServer()
	for i := 0; i < 20000; i++ {
		s.EmitTiming("j", "e", 1, nil)
	}
	time.Sleep(200 * time.Millisecond)
	var n int64
	for _, m := range s.GetMetrics() {
		if x := m.Timers["e"]; x != nil {
			n += x.Count
		}
	}
	if n != 20000 {
		t.Fatalf("%d", n)
	}
''',False).replace('import (','import (\n\t"time"')),
dict(id="c15-drain-snapshot-length",property="C15",pkg=".",
 needs="a drain while the channel is momentarily empty and another goroutine's emission happened before the drain was requested but the tick goroutine queued a flush in between",
 breaks="",edits=[],demo=""),
][:-1]
