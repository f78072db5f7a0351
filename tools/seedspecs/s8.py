import os
_s = open(os.path.join(os.path.dirname(os.path.abspath(os.environ.get("SPEC", "/verif/tools/seedspecs/s7.py"))), "s7.py")).read()
exec(_s[:_s.index("seeds=[")])
HDNEW='hd := &HealthD{stream: health.NewStream(), retain: time.Hour, hostStatus: map[string]*HostStatus{}, hostAggregations: map[hostAggregationKey]*health.IntervalAggregation{}, intervalsNeedingRecalculation: map[time.Time]struct{}{}}'
seeds=[
dict(id="c01-reported-error-skipped",property="C01",pkg=".",
 needs="an error that is reported a second time, with key/values, as by the caller of the function that reported it first",
 breaks="An error that was reported before and is reported again with key/values does not reach the sinks",
 edits=[("health.go","""	err = wrapErr(err)
	allKvs := j.mergedKeyValues(kvs)
	for _, sink := range j.Stream.Sinks {
		sink.EmitEventErr(""","""	err = wrapErr(err)
	allKvs := j.mergedKeyValues(kvs)
	sinks := j.Stream.Sinks
	if unmuted, ok := err.(*UnmutedError); ok && unmuted.Emitted {
		sinks = nil // they know already
	}
	for _, sink := range sinks {
		sink.EmitEventErr(""")],
 demo=D("health",["errors"],"""	z := &zzSink{}
	j := NewStream().AddSink(z).NewJob("j")
	j.EventErrKv("b", j.EventErr("a", errors.New("x")), Kvs{"k": "v"})
	if len(z.evs) != 2 {
		t.Fatal(z.evs)
	}
""",SINK)),
dict(id="c01-run-restarts-clock",property="C01",pkg=".",
 needs="a job that is run some time after it was made",
 breaks="Run restarts the job's clock, so that the reported time is not the time since the job was made",
 edits=[("health.go","""	err = f()
	if err != nil {
""","""	j.Start = time.Now()
	err = f()
	if err != nil {
""")],
 demo=D("health",["time"],"""	z := &zzSink{}
	j := NewStream().AddSink(z).NewJob("j")
	time.Sleep(50 * time.Millisecond)
	j.Run(func() error { return nil })
	if z.nanos[0] < 40e6 {
		t.Fatal(z.nanos)
	}
""",SINK)),
dict(id="c02-empty-value-kept-out",property="C02",pkg=".",
 needs="a call with an empty value for a key that the job or stream has too",
 breaks="An empty value does not override the one of the job or stream",
 edits=[("health.go","""		for k, v := range instanceKvs {
			allKvs[k] = v
		}
""","""		for k, v := range instanceKvs {
			if _, ok := allKvs[k]; !ok || v != "" {
				allKvs[k] = v
			}
		}
""")],
 demo=D("health",[],"""	z := &zzSink{}
	NewStream().AddSink(z).NewJob("j").KeyValue("b", "2").EventKv("e", Kvs{"b": ""})
	if z.kvs[0]["b"] != "" {
		t.Fatal(z.kvs[0])
	}
""",SINK)),
dict(id="c03-muted-success",property="C03",pkg=".",
 needs="a function that returns a muted error",
 breaks="A run that returns a muted error is completed as a success",
 edits=[("health.go","""	err = f()
	if err != nil {
""","""	err = f()
	if _, muted := err.(*MutedError); err != nil && !muted {
""")],
 demo=D("health",["errors"],"""	s := NewJsonPollingSink(1e9, 2e9)
	NewStream().AddSink(s).Run("j", func() error { return Mute(errors.New("x")) })
	for {
		if m := s.GetMetrics(); len(m) > 0 && m[len(m)-1].Jobs["j"] != nil {
			if m[len(m)-1].Jobs["j"].CountError != 1 {
				t.Fatal("not an error")
			}
			return
		}
	}
""")),
dict(id="c04-no-sinks-raw",property="C04",pkg=".",
 needs="a stream to which no sink is attached (yet)",
 breaks="Without sinks an error is returned as it is, neither wrapped nor marked",
 edits=[("health.go","""	err = wrapErr(err)
	allKvs := j.mergedKeyValues(nil)
""","""	if len(j.Stream.Sinks) == 0 {
		return err
	}
	err = wrapErr(err)
	allKvs := j.mergedKeyValues(nil)
"""),("health.go","""	err = wrapErr(err)
	allKvs := j.mergedKeyValues(kvs)
""","""	if len(j.Stream.Sinks) == 0 {
		return err
	}
	err = wrapErr(err)
	allKvs := j.mergedKeyValues(kvs)
""")],
 demo=D("health",["errors"],"""	if _, ok := NewStream().EventErr("a", errors.New("x")).(*UnmutedError); !ok {
		t.Fatal("not wrapped")
	}
""")),
dict(id="c05-general-not-nested",property="C05",pkg=".",
 needs="events of the stream's own job, 'general'",
 breaks="Events reported on the stream itself are only counted overall, not under its job",
 edits=[("aggregator.go","""	jobAgg := intAgg.getJobAggregation(job)
	jobAgg.Events[event] = jobAgg.Events[event] + 1
""","""	if job != "general" {
		jobAgg := intAgg.getJobAggregation(job)
		jobAgg.Events[event] = jobAgg.Events[event] + 1
	}
""")],
 demo=D("health",["time"],"""	a := newAggregator(time.Minute, time.Hour)
	a.EmitEvent("general", "e")
	if a.intervalAggregations[0].Jobs["general"] == nil {
		t.Fatal("no job")
	}
""")),
dict(id="c06-subsecond-joined",property="C06",pkg=".",
 needs="intervals shorter than a second",
 breaks="Intervals that begin in the same second are taken for one",
 edits=[("aggregator.go","""	if n > 0 && a.intervalAggregations[n-1].IntervalStart == intervalStart {
""","""	if n > 0 && a.intervalAggregations[n-1].IntervalStart.Unix() == intervalStart.Unix() {
""")],
 demo=D("health",["time"],"""	a := newAggregator(100*time.Millisecond, time.Minute)
	for i := 0; i < 5; i++ {
		a.EmitEvent("j", "e")
		time.Sleep(100 * time.Millisecond)
	}
	if n := len(a.intervalAggregations); n < 4 {
		t.Fatal(n)
	}
""")),
dict(id="c06-next-follows-last",property="C06",pkg=".",
 needs="a pause that leaves out an interval",
 breaks="An interval always begins where the one before ended, also after a pause of several intervals",
 edits=[("aggregator.go","""	return a.createIntervalAggregation(intervalStart)
}
""","""	if n > 0 {
		if next := a.intervalAggregations[n-1].IntervalStart.Add(a.intervalDuration); next.Before(intervalStart) {
			intervalStart = next
		}
	}
	return a.createIntervalAggregation(intervalStart)
}
""")],
 demo=D("health",["time"],"""	defer resetNowMock()
	a := newAggregator(time.Minute, time.Hour)
	setNowMock("2011-09-09T23:00:00Z")
	a.EmitEvent("j", "e")
	setNowMock("2011-09-09T23:10:00Z")
	a.EmitEvent("j", "e")
	if s := a.intervalAggregations[1].IntervalStart; !s.Equal(now()) {
		t.Fatal(s)
	}
""")),
dict(id="c08-idle-job-shares-timers",property="C08",pkg=".",
 needs="a job that has timings but no completion yet",
 breaks="The clone of a job without completions shares its timers",
 edits=[("interval_aggregation_clone.go","""	dup.aggregationMaps = *ja.aggregationMaps.Clone()
	dup.Timer""","""	if ja.Count > 0 {
		dup.aggregationMaps = *ja.aggregationMaps.Clone()
	} else {
		dup.aggregationMaps = ja.aggregationMaps // nothing has happened
	}
	dup.Timer""")],
 demo=D("health",["time"],"""	a := newAggregator(time.Hour, time.Hour)
	a.EmitTiming("j", "e", 1)
	c := a.memorySafeIntervals()[0]
	a.EmitTiming("j", "e", 1)
	if n := c.Jobs["j"].Timers["e"].Count; n != 1 {
		t.Fatal(n)
	}
""")),
dict(id="c09-samples-up-to-index",property="C09",pkg=".",
 needs="a merged-in error counter whose ring of samples has wrapped around, for an event that the target has too",
 breaks="Only the samples up to the merged-in counter's latest position are taken, although its ring may have wrapped around",
 edits=[("interval_aggregation_merge.go","""			for _, err := range v.errorSamples {
""","""			for _, err := range v.errorSamples[:v.errorSampleIndex+1] {
""")],
 demo=D("health",["fmt","time"],"""	a, b := newAggregator(time.Hour, time.Hour), newAggregator(time.Hour, time.Hour)
	a.EmitEventErr("j", "e", fmt.Errorf("x"))
	for i := 0; i < 6; i++ {
		b.EmitEventErr("j", "e", fmt.Errorf("y%d", i))
	}
	m := a.intervalAggregations[0]
	m.Merge(b.intervalAggregations[0])
	if n := len(m.EventErrs["e"].getErrorSamples()); n != 5 {
		t.Fatal(n)
	}
""")),
dict(id="c10-wraps-to-second",property="C10",pkg=".",
 needs="eleven errors each different from the one before",
 breaks="The ring of samples wraps around to its second place from the second time on, so the first keeps an old error",
 edits=[("interval_aggregation.go","""		ec.errorSampleIndex = (ec.errorSampleIndex + 1) % n
""","""		ec.errorSampleIndex = (ec.errorSampleIndex + 1) % n
		if ec.errorSampleIndex == 0 && ec.Count > int64(2*n) {
			ec.errorSampleIndex = 1
		}
""")],
 demo=D("health",["fmt"],"""	var ec ErrorCounter
	for i := 0; i < 13; i++ {
		ec.incrementAndAddError(fmt.Errorf("y%d", i))
	}
	for _, e := range ec.getErrorSamples() {
		if e.Error() < "y8" && len(e.Error()) == 2 {
			t.Fatal(ec.getErrorSamples())
		}
	}
""")),
dict(id="c11-cached-briefly",property="C11",pkg=".",
 needs="two requests within half a second, with an emission between them",
 breaks="The encoded metrics are kept for half a second, so that a request gets metrics from before",
 edits=[("json_polling_sink_http.go","""		metrics := s.GetMetrics()
""","""		encoded.Lock()
		defer encoded.Unlock()
		if encoded.sink == s && time.Since(encoded.at) < 500*time.Millisecond {
			rw.Write(encoded.data)
			return
		}
		metrics := s.GetMetrics()
"""),("json_polling_sink_http.go","""		rw.Write(jsonData)
""","""		encoded.sink, encoded.at, encoded.data = s, time.Now(), jsonData
		rw.Write(jsonData)
"""),("json_polling_sink_http.go","""func (s *JsonPollingSink) StartServer(""","""// encoded holds the metrics as last served.
var encoded struct {
	sync.Mutex
	sink *JsonPollingSink
	at   time.Time
	data []byte
}

func (s *JsonPollingSink) StartServer("""),("json_polling_sink_http.go","""	"net/http"
""","""	"net/http"
	"sync"
""")],
 demo=D("health",["net/http/httptest","strings","time"],"""	s := NewJsonPollingSink(time.Hour, time.Hour)
	get := func() string {
		rw := httptest.NewRecorder()
		s.ServeHTTP(rw, httptest.NewRequest("GET", "/health", nil))
		return rw.Body.String()
	}
	get()
	s.EmitEvent("j", "zzz", nil)
	time.Sleep(100 * time.Millisecond)
	if b := get(); !strings.Contains(b, "zzz") {
		t.Fatal(b)
	}
""")),
dict(id="c12-cmd-recycled-early",property="C12",pkg=".",
 needs="an emission while the aggregator is about to take up an earlier one",
 breaks="Commands go back to the pool before the aggregator has read them",
 edits=[("json_polling_sink.go","""	s.emit(&emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos})
""","""	cmd := cmds.Get().(*emitCmd)
	*cmd = emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos}
	s.emit(cmd)
"""),("json_polling_sink.go","""type cmdKind int
""","""// cmds holds timing commands for reuse.
var cmds = sync.Pool{New: func() interface{} { return new(emitCmd) }}

type cmdKind int
"""),("json_polling_sink.go","""import (
	"time"
""","""import (
	"sync"
	"time"
"""),("aggregator.go","""			} else if cmd.Kind == cmdKindTiming {
				agg.EmitTiming(""","""			} else if cmd.Kind == cmdKindTiming {
				cmds.Put(cmd)
				agg.EmitTiming(""")],
 flags="-race",
 demo=D("health",["fmt","time"],"""	s := NewJsonPollingSink(time.Hour, time.Hour)
	for i := 0; i < 200000; i++ {
		s.EmitTiming("j", fmt.Sprint("e", i%2), int64(1+i%2), nil)
	}
	time.Sleep(time.Second)
	m := s.GetMetrics()[0]
	for e, n := range map[string]int64{"e0": 1, "e1": 2} {
		if g := m.Timers[e]; g.Count != 100000 || g.NanosSum != 100000*n {
			t.Fatal(e, g)
		}
	}
""")),
dict(id="c13-gauge-exponent",property="C13",pkg=".",
 needs="a gauge of 10^15 or more",
 breaks="Large gauges are written with an exponent, which StatsD does not read",
 edits=[("statsd_sink.go","""	s.timingBuf = strconv.AppendFloat(s.timingBuf, value, 'f', prec, 64)
""","""	format := byte('f')
	if value >= 1e15 || value <= -1e15 {
		format, prec = 'g', -1 // no decimals are left
	}
	s.timingBuf = strconv.AppendFloat(s.timingBuf, value, format, prec, 64)
""")],
 demo=D("health",["strings"],"""	s := &StatsDSink{options: defaultStatsDOptions, prefixBuffers: make(map[eventKey]prefixBuffer)}
	s.processGauge("j", "g", 1e22)
	if b := s.udpBuf.String(); strings.Contains(b, "+") {
		t.Fatal(b)
	}
""")),
dict(id="c14-oversize-resets",property="C14",pkg=".",
 needs="a metric longer than 1440 bytes after others that have not been sent yet",
 breaks="A metric that is too long takes the lines waiting before it along",
 edits=[("statsd_sink.go","""	if lenb > maxUdpBytes {
		return
""","""	if lenb > maxUdpBytes {
		s.udpBuf.Reset()
		return
""")],
 demo=D("health",["strings"],"""	s := &StatsDSink{options: defaultStatsDOptions, prefixBuffers: make(map[eventKey]prefixBuffer)}
	s.processEvent("j", "g")
	s.processEvent("j", strings.Repeat("x", 2000))
	if s.udpBuf.Len() == 0 {
		t.Fatal("lost")
	}
""")),
dict(id="c16-retried-write",property="C16",pkg=".",
 needs="a writer that fails once",
 breaks="A line whose write failed is written again, so a writer may get it twice",
 edits=[("writer_sink.go","""	writeNanoseconds(&b, nanos)
	writeMapConsistently(&b, kvs)
	b.WriteRune('\\n')
	s.Writer.Write(b.Bytes())
}

func (s *WriterSink) EmitGauge""","""	writeNanoseconds(&b, nanos)
	writeMapConsistently(&b, kvs)
	b.WriteRune('\\n')
	if _, err := s.Writer.Write(b.Bytes()); err != nil {
		s.Writer.Write(b.Bytes())
	}
}

func (s *WriterSink) EmitGauge""")],
 demo=D("health",["errors"],"""	w := zzW{n: new(int)}
	(&WriterSink{w}).EmitTiming("j", "e", 1, nil)
	if *w.n != 1 {
		t.Fatal(*w.n)
	}
""",'''type zzW struct{ n *int }

func (w zzW) Write(b []byte) (int, error) {
	*w.n++
	return len(b), errors.New("x")
}
''')),
dict(id="c17-gauge-float32",property="C17",pkg=".",
 needs="a gauge with more than 24 bits",
 breaks="Gauges are written with single precision",
 edits=[("json_writer_sink.go","""		Value     float64
""","""		Value     float32
"""),("json_writer_sink.go","""timestamp(), value, kvs})""","""timestamp(), float32(value), kvs})""")],
 demo=D("health",["bytes","strings"],"""	var b bytes.Buffer
	(&JsonWriterSink{&b}).EmitGauge("j", "e", 16777217, nil)
	if !strings.Contains(b.String(), "16777217") {
		t.Fatal(b.String())
	}
""")),
dict(id="c19-counted-while-posting",property="C19",pkg="sinks/librato",
 needs="a timing emitted while the metrics are being posted",
 breaks="The sink goes on counting while the metrics are posted, and clears the tallies when that is done: what was counted in between is lost",
 edits=[("sinks/librato/sink.go","""	if err := s.send(); err != nil {
		fmt.Println("Error sending to librato: ", err)
	}
	s.timers = make(map[string]*gauge)
	s.counters = make(map[string]int64)
}
""","""	sent := make(chan error)
	go func() { sent <- s.send() }()
	for {
		select {
		case err := <-sent:
			if err != nil {
				fmt.Println("Error sending to librato: ", err)
			}
			s.timers = make(map[string]*gauge)
			s.counters = make(map[string]int64)
			return
		case cmd := <-s.cmdChan: // don't hold up the users while we wait for librato
			if cmd.Kind == cmdKindTiming {
				s.processTiming(cmd.Job, cmd.Event, cmd.Nanos)
			} else {
				defer s.emit(cmd)
			}
		}
	}
}
""")],
 demo=D("librato",["io","net/http","strings","sync","time"],"""	got := make(chan string, 10)
	s := &Sink{SanitizationFunc: sanitizeKey, FlushPeriod: 100 * time.Millisecond, cmdChan: make(chan *emitCmd, 100), doneChan: make(chan int), doneDoneChan: make(chan int), httpClient: &http.Client{Transport: &zzNet{f: func(n int, r *http.Request) (*http.Response, error) {
		b, _ := io.ReadAll(r.Body)
		got <- string(b)
		time.Sleep(200 * time.Millisecond)
		return zzOK(""), nil
	}}}, timers: map[string]*gauge{}, counters: map[string]int64{}}
	go s.start()
	s.EmitTiming("j", "a", 1, nil)
	<-got
	s.EmitTiming("j", "b", 1, nil)
	select {
	case b := <-got:
		if !strings.Contains(b, "j.b.timing") {
			t.Fatal(b)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("lost")
	}
""",NET)),
dict(id="c20-emitted-checked-late",property="C20",pkg="sinks/bugsnag",
 needs="an error that is processed after EventErr has returned",
 breaks="Whether an error was reported before is looked at when it is sent, when the very report has marked it already",
 edits=[("sinks/bugsnag/sink.go","""		case cmd := <-cmdChan:
""","""		case cmd := <-cmdChan:
			if cmd.Err.Emitted {
				continue
			}
""")],
 demo=D("bugsnag",["errors","fmt","github.com/gocraft/health","io","net/http","strings","sync","time"],"""	var mu sync.Mutex
	seen := 0
	http.DefaultTransport = &zzNet{f: func(n int, r *http.Request) (*http.Response, error) {
		time.Sleep(20 * time.Millisecond)
		mu.Lock()
		seen++
		mu.Unlock()
		return zzOK("OK"), nil
	}}
	s := health.NewStream().AddSink(NewSink(&Config{Endpoint: "http://x/"}))
	for i := 0; i < 10; i++ {
		s.EventErr("e", errors.New(fmt.Sprint(i)))
	}
	time.Sleep(time.Second)
	mu.Lock()
	defer mu.Unlock()
	if seen != 10 {
		t.Fatal(seen)
	}
""",NET)),
dict(id="c21-formdata-with-request",property="C21",pkg="sinks/bugsnag",
 needs="key/values with 'formdata' but without 'request'",
 breaks="Form data are only put into the notification together with a request",
 edits=[("sinks/bugsnag/api.go","""		evt.Metadata.Request.Url = requestUrl
	}

	if formData, formDataExists := kvs["formdata"]; formDataExists {
		evt.Metadata.Request.Parameters = formData
	}
""","""		evt.Metadata.Request.Url = requestUrl

		if formData, formDataExists := kvs["formdata"]; formDataExists {
			evt.Metadata.Request.Parameters = formData
		}
	}
""")],
 demo=D("bugsnag",["errors","github.com/gocraft/health/stack"],"""	p := newPayload(&Config{}, "j", "e", errors.New("x"), stack.NewTrace(0), map[string]string{"formdata": "f"})
	if p.Events[0].Metadata.Request.Parameters != "f" {
		t.Fatal("lost")
	}
""")),
dict(id="c22-depth-at-start",property="C22",pkg="stack",
 needs="a program that sets MaxStackDepth",
 breaks="MaxStackDepth is only read when the program starts",
 edits=[("stack/stack.go","""	stack := make([]uintptr, MaxStackDepth)
""","""	stack := make([]uintptr, depth)
"""),("stack/stack.go","""var MaxStackDepth = 50
""","""var MaxStackDepth = 50

var depth = MaxStackDepth
""")],
 demo=D("stack",[],"""	MaxStackDepth = 2
	if n := len(NewTrace(0).Frames()); n != 2 {
		t.Fatal(n)
	}
""")),
dict(id="c23-failed-fds-zero",property="C23",pkg="runtime_metrics",
 needs="the file descriptors cannot be counted, as when all are in use",
 breaks="num_fds_used is reported as 0 when it cannot be determined",
 edits=[("runtime_metrics/runtime_metrics.go","""		if num, err := getFDUsage(); err == nil {
			rm.reportGauge("num_fds_used", float64(num))
		}
""","""		num, err := getFDUsage()
		if err != nil {
			num = 0 // not known
		}
		rm.reportGauge("num_fds_used", float64(num))
""")],
 demo=D("runtime_metrics",["github.com/gocraft/health","os","syscall"],"""	z := &zzG{m: map[string]float64{}}
	rm := NewRuntimeMetrics(z, &Options{FDs: true})
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 3, Max: 1 << 10})
	if _, err := os.Open("/"); err == nil {
		t.Skip()
	}
	rm.Report()
	if _, ok := z.m["num_fds_used"]; ok {
		t.Fatal(z.m)
	}
""",'''type zzG struct {
	health.EventReceiver
	m map[string]float64
}

func (z *zzG) Gauge(k string, v float64) { z.m[k] = v }
''')),
dict(id="c24-merged-into-first",property="C24",pkg="healthd",hd=True,
 needs="an interval that is calculated a second time",
 breaks="The data of the other hosts are merged into those of one of the hosts, so that a later calculation counts them twice",
 edits=[("healthd/healthd.go","""		overallAgg := health.NewIntervalAggregation(k)
		for _, ia := range intAggsAtTime {
""","""		overallAgg := health.NewIntervalAggregation(k)
		if len(intAggsAtTime) > 0 {
			overallAgg = intAggsAtTime[0]
			intAggsAtTime = intAggsAtTime[1:]
		}
		for _, ia := range intAggsAtTime {
""")],
 demo=D("healthd",["github.com/gocraft/health","time"],"""	"""+HDNEW+"""
	b := time.Now().Truncate(time.Minute)
	answer := func(host string, serial, e int64) {
		r := &pollResponse{HostPort: host, Code: 200}
		r.IntervalDuration = time.Minute
		a := health.NewIntervalAggregation(b)
		a.SerialNumber = serial
		a.Events["e"] = e
		r.IntervalAggregations = append(r.IntervalAggregations, a)
		hd.consumePollResponse(r)
		hd.recalculateIntervals()
	}
	for i := 0; i < 20; i++ {
		answer("a", 1, 1)
		answer("b", 1, 1)
		answer("c", int64(i), 1)
		if n := hd.intervalAggregations[0].Events["e"]; n != 3 {
			t.Fatal(n)
		}
	}
""")),
dict(id="c25-purge-makes-room",property="C25",pkg="healthd",hd=True,
 needs="a tick of the polling clock when the full number of intervals is retained",
 breaks="Purging drops one interval too many to make room for the next",
 edits=[("healthd/healthd.go","""	n := len(agg.intervalAggregations)
	if n > agg.maxIntervals {
		agg.intervalAggregations = agg.intervalAggregations[(n - agg.maxIntervals):]
	}
}

func (hd *HealthD) recalculateIntervals() {""","""	n := len(agg.intervalAggregations)
	if n >= agg.maxIntervals && n > 1 {
		agg.intervalAggregations = agg.intervalAggregations[(n - agg.maxIntervals + 1):]
	}
}

func (hd *HealthD) recalculateIntervals() {""")],
 demo=D("healthd",["github.com/gocraft/health","time"],"""	hd := &HealthD{maxIntervals: 2, intervalDuration: time.Minute}
	b := time.Now()
	for _, d := range []time.Duration{1, 2} {
		hd.setAggregation(health.NewIntervalAggregation(b.Add(d * time.Minute)))
	}
	hd.purge()
	if n := len(hd.intervalAggregations); n != 2 {
		t.Fatal(n)
	}
""")),
dict(id="c26-limit-scanned",property="C26",pkg="healthd",hd=True,
 needs="a limit that begins with a number but is none",
 breaks="A limit like '2x' limits to 2 instead of being ignored",
 edits=[("healthd/api.go","""	n, err := strconv.ParseInt(limit, 10, 0)
	if err != nil {
		return 0
	}
	return int(n)
""","""	var n int
	if _, err := fmt.Sscan(limit, &n); err != nil {
		return 0
	}
	return n
"""),("healthd/api.go","""	"strconv"
""","")],
 demo=D("healthd",["github.com/gocraft/web","net/http/httptest"],"""	if n := getLimit(&web.Request{Request: httptest.NewRequest("GET", "/healthd/jobs?limit=2x", nil)}); n != 0 {
		t.Fatal(n)
	}
""")),
dict(id="c27-first-success-reset",property="C27",pkg="healthd",hd=True,
 needs="a success after a failure after a success",
 breaks="A failure forgets the time of the first success",
 edits=[("healthd/healthd.go","""			hs.LastSuccessfulResponse = now()
		}
""","""			hs.LastSuccessfulResponse = now()
		} else if !hs.LastSuccessfulResponse.IsZero() {
			hs.FirstSuccessfulResponse = time.Time{}
		}
""")],
 demo=D("healthd",["errors"],"""	hd := &HealthD{hostStatus: map[string]*HostStatus{"a": {HostPort: "a"}}}
	hd.consumePollResponse(&pollResponse{HostPort: "a", Code: 200})
	f := hd.hostStatus["a"].FirstSuccessfulResponse
	hd.consumePollResponse(&pollResponse{HostPort: "a", Err: errors.New("refused")})
	hd.consumePollResponse(&pollResponse{HostPort: "a", Code: 200})
	if g := hd.hostStatus["a"].FirstSuccessfulResponse; !f.Equal(g) {
		t.Fatal(f, g)
	}
""")),
dict(id="c30-status-names-lazy",property="C30",pkg=".",
 needs="two goroutines that complete jobs at the same time for the first time",
 breaks="The names of statuses are kept in a map that goroutines fill concurrently",
 edits=[("health.go","""func (cs CompletionStatus) String() string {
	return completionStatusToString[cs]
""","""var shownStatuses = map[CompletionStatus]string{}

func (cs CompletionStatus) String() string {
	name, ok := shownStatuses[cs]
	if !ok {
		name = completionStatusToString[cs]
		shownStatuses[cs] = name
	}
	return name
""")],
 flags="-race",
 demo=D("health",["io"],"""	s := NewStream().AddSink(&WriterSink{io.Discard})
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			s.NewJob("j").Complete(Success)
			done <- true
		}()
	}
	<-done
	<-done
""")),
dict(id="c32-limit-with-name",property="C32",pkg="cmd/healthtop",top=True,
 needs="a name filter and more jobs than fit the terminal",
 breaks="With a name filter only as many jobs are asked for as fit, so that matching jobs after them are not shown",
 edits=[("cmd/healthtop/jobs.go","""	if opts.Name == "" {
		limit = maxRows()
	}
""","""	if rows := maxRows(); opts.Name == "" || rows > 3 {
		limit = rows
	}
""")],
 demo=D("main",["github.com/buger/goterm","github.com/gocraft/health/healthd","io","net/http","strings","sync"],"""	goterm.SetSize(80, 40)
	q := ""
	http.DefaultTransport = &zzNet{f: func(n int, r *http.Request) (*http.Response, error) {
		q = r.URL.RawQuery
		return zzOK("{}"), nil
	}}
	c := make(chan *healthd.ApiResponseJobs, 1)
	pollHealthDJobs(&jobOptions{Name: "x"}, c, nil)
	if strings.Contains(q, "limit") {
		t.Fatal(q)
	}
""",NET)),
dict(id="c33-many-hosts-joined",property="C33",pkg="cmd/healthd",top=True,
 needs="more than 32 hosts to monitor",
 breaks="From the 32nd on, the hosts to monitor are taken for one",
 edits=[("cmd/healthd/main.go","""	return strings.Split(hps, ",")
""","""	return strings.SplitN(hps, ",", 32)
""")],
 demo=D("main",["os","strings"],"""	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", strings.Repeat("a,", 39)+"a")
	if n := len(getMonitoredHostPorts()); n != 40 {
		t.Fatal(n)
	}
""")),
dict(id="c34-serial-of-same-errors",property="C34",pkg=".",
 needs="the same error twice in a row, with a poll between and nothing else in the interval",
 breaks="The serial number does not change for an error that repeats the one before, so healthd takes the answer for one it has",
 edits=[("aggregator.go","""	jerrc.incrementAndAddError(inputErr)
	intAgg.SerialNumber++
""","""	repeated := jerrc.errorSamples[jerrc.errorSampleIndex]
	jerrc.incrementAndAddError(inputErr)
	if repeated == nil || repeated.Error() != inputErr.Error() {
		intAgg.SerialNumber++
	}
""")],
 demo=D("health",["errors","time"],"""	a := newAggregator(time.Hour, time.Hour)
	e := errors.New("x")
	a.EmitEventErr("j", "e", e)
	a.EmitEventErr("j", "e", e)
	if n := a.intervalAggregations[0].SerialNumber; n != 2 {
		t.Fatal(n)
	}
""")),
dict(id="c35-slow-host-skips-rounds",property="C35",pkg="healthd",hd=True,
 needs="a host that takes longer than ten seconds to answer",
 breaks="No host is polled while a host still takes its time, and a host may take 25 seconds",
 edits=[("healthd/poll.go","""		Timeout: 5 * time.Second,
""","""		Timeout: 25 * time.Second,
"""),("healthd/healthd.go","""	var wg sync.WaitGroup
""","""	if !atomic.CompareAndSwapInt64(&hd.polling, 0, 1) {
		return // the round before goes on
	}
	defer atomic.StoreInt64(&hd.polling, 0)

	var wg sync.WaitGroup
"""),("healthd/healthd.go","""	stopFlag           int64
""","""	polling            int64
	stopFlag           int64
""")],
 demo=D("healthd",["github.com/gocraft/health","io","net/http","strings","sync","time"],"""	polls := 0
	var mu sync.Mutex
	http.DefaultTransport = &zzNet{f: func(n int, r *http.Request) (*http.Response, error) {
		if r.URL.Host == "slow" {
			<-r.Context().Done()
			return nil, r.Context().Err()
		}
		mu.Lock()
		polls++
		mu.Unlock()
		return zzOK("{}"), nil
	}}
	StartNewHealthD([]string{"slow", "fast"}, "127.0.0.1:0", health.NewStream())
	time.Sleep(22 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	if polls != 3 {
		t.Fatal(polls)
	}
""",NET)),
]
