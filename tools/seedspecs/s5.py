def D(pkg, imports, body, extra=""):
    return "package %s\n\nimport (\n%s\t\"testing\"\n)\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (pkg, "".join('\t"%s"\n' % i for i in imports), extra, body)
NET='''type zzNet struct {
	mu sync.Mutex
	n  int
	f  func(n int, r *http.Request) (*http.Response, error)
}

func (z *zzNet) RoundTrip(r *http.Request) (*http.Response, error) {
	z.mu.Lock()
	defer z.mu.Unlock()
	z.n++
	return z.f(z.n, r)
}

func zzOK(s string) *http.Response {
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(s))}
}
'''
seeds=[
dict(id="c01-sinks-captured",property="C01",pkg=".",
 needs="a job created while one sink is attached, another sink attached afterwards, and then an emission on that job",
 breaks="A job emits to the sinks that were attached when it was created, so a sink attached later misses its completions",
 edits=[("health.go","""type Job struct {
	Stream    *Stream
""","""type Job struct {
	sinks     []Sink // as attached when the job was created
	Stream    *Stream
"""),("health.go","""	return &Job{
		Stream:  s,
""","""	return &Job{
		sinks:   s.Sinks,
		Stream:  s,
"""),("health.go","""	allKvs := j.mergedKeyValues(nil)
	for _, sink := range j.Stream.Sinks {
		sink.EmitComplete(""","""	allKvs := j.mergedKeyValues(nil)
	sinks := j.sinks
	if len(sinks) == 0 {
		sinks = j.Stream.Sinks
	}
	for _, sink := range sinks {
		sink.EmitComplete(""")],
 demo=D("health",["bytes"],'''	var a, b bytes.Buffer
	s := NewStream()
	s.AddSink(&WriterSink{&a})
	j := s.NewJob("j")
	s.AddSink(&WriterSink{&b})
	j.Complete(Success)
	if a.Len() == 0 || b.Len() == 0 {
		t.Fatal("a sink missed the completion")
	}
''')),
dict(id="c02-cached-merge",property="C02",pkg=".",
 needs="key/values on both the stream and the job, an emission, then a new value for an existing key, then another emission",
 breaks="The merged key/values of a job are cached and only renewed when the number of key/values changes",
 edits=[("health.go","""	KeyValues map[string]string
	Start     time.Time
""","""	KeyValues map[string]string
	Start     time.Time

	merged    map[string]string
	mergedLen int
"""),("health.go","""	if kvCount > 1 {
		allKvs = make""","""	// Usually neither the stream's nor the job's key/values have changed since the last time.
	if kvCount > 1 && len(instanceKvs) == 0 {
		n := len(j.Stream.KeyValues)<<16 + len(j.KeyValues)
		if j.merged == nil || j.mergedLen != n {
			j.merged = make(map[string]string)
			for k, v := range j.Stream.KeyValues {
				j.merged[k] = v
			}
			for k, v := range j.KeyValues {
				j.merged[k] = v
			}
			j.mergedLen = n
		}
		return j.merged
	}

	if kvCount > 1 {
		allKvs = make""")],
 demo=D("health",["bytes","strings"],'''	var a bytes.Buffer
	s := NewStream()
	s.AddSink(&WriterSink{&a})
	s.KeyValue("x", "1")
	j := s.NewJob("j").KeyValue("y", "2")
	j.Event("e")
	j.KeyValue("y", "3")
	a.Reset()
	j.Event("e")
	if !strings.Contains(a.String(), "y:3") {
		t.Fatal(a.String())
	}
''')),
dict(id="c03-panic-error-kept",property="C03",pkg=".",
 needs="a function that panics with an error that has been reported before",
 breaks="A panic with an already reported error passes it on as it is, so the panic counts as emitted",
 edits=[("health.go","""			err = errors.New(fmt.Sprint(r))
			j.EventErrKv("panic", err, Kvs{"stack": string(stack)})
""","""			if reported, ok := r.(*UnmutedError); ok && reported.Emitted {
				// its stack is known already
				err = reported
			} else {
				err = errors.New(fmt.Sprint(r))
				j.EventErrKv("panic", err, Kvs{"stack": string(stack)})
			}
""")],
 demo=D("health",["bytes","strings","errors"],'''	var a bytes.Buffer
	s := NewStream()
	s.AddSink(&WriterSink{&a})
	s.Run("j", func() error {
		panic(s.EventErr("e", errors.New("boo")))
	})
	if !strings.Contains(a.String(), "event:panic") {
		t.Fatal(a.String())
	}
''')),
dict(id="c04-unwraps",property="C04",pkg=".",
 needs="an error that wraps one that was reported before, given to EventErrKv or EventErr",
 breaks="An error that wraps an unmuted one is replaced by the inner error: its text is lost and it counts as emitted",
 edits=[("error.go","""import (
	"github""","""import (
	"errors"
	"github"""),("error.go","""	switch err := err.(type) {
	case *MutedError, *UnmutedError:
		return err
	default:
""","""	var unmuted *UnmutedError
	switch e := err.(type) {
	case *MutedError, *UnmutedError:
		return err
	default:
		if errors.As(e, &unmuted) {
			return unmuted
		}
""")],
 demo=D("health",["errors","fmt"],'''	s := NewStream()
	inner := s.EventErr("e", errors.New("boo"))
	outer := s.EventErr("f", fmt.Errorf("while opening: %w", inner))
	if outer.Error() != "while opening: boo" {
		t.Fatal(outer)
	}
''')),
dict(id="c05-gauge-unchanged",property="C05",pkg=".",
 needs="two jobs that report the same value of the same gauge one after the other in one interval",
 breaks="A gauge whose value has not changed is skipped, also for another job that has not reported it yet",
 edits=[("aggregator.go","""	intAgg := a.getIntervalAggregation()
	intAgg.Gauges[event] = value
""","""	intAgg := a.getIntervalAggregation()
	if old, ok := intAgg.Gauges[event]; ok && old == value {
		return // nothing changes
	}
	intAgg.Gauges[event] = value
""")],
 demo=D("health",["time"],'''	a := newAggregator(time.Hour*24, time.Hour*48)
	a.EmitGauge("a", "g", 1)
	a.EmitGauge("b", "g", 1)
	m := a.intervalAggregations[0]
	if j := m.Jobs["b"]; j == nil || j.Gauges["g"] != 1 {
		t.Fatal("gauge of job b is missing")
	}
''')),
dict(id="c08-clone-ring-index",property="C08",pkg=".",
 needs="an error counter with two or more samples, a clone of it, and a further error merged into the clone",
 breaks="The clone of an error counter starts its ring of samples anew, so that the next error replaces one that is not the oldest",
 edits=[("interval_aggregation_clone.go","""	var dup = *ec
	return &dup
}

func (ja""","""	dup := &ErrorCounter{Count: ec.Count}
	copy(dup.errorSamples[:], ec.errorSamples[:])
	return dup
}

func (ja""")],
 demo=D("health",["errors","time","fmt"],'''	a := newAggregator(time.Hour*24, time.Hour*48)
	a.EmitEventErr("j", "e", errors.New("1"))
	a.EmitEventErr("j", "e", errors.New("2"))
	b := newAggregator(time.Hour*24, time.Hour*48)
	b.EmitEventErr("j", "e", errors.New("3"))
	c := a.intervalAggregations[0].Clone()
	c.Merge(b.intervalAggregations[0])
	if s := fmt.Sprint(c.EventErrs["e"].getErrorSamples()); s != "[1 2 3]" {
		t.Fatal(s)
	}
''')),
dict(id="c09-merge-aliases-errors",property="C09",pkg=".",
 needs="an error name only in the merged-in aggregation, and a second merge with the same name",
 breaks="Error counters new to the target are shared with the merged-in aggregation, so a later merge changes that",
 edits=[("interval_aggregation_merge.go","""			intoAm.EventErrs[k] = v.Clone()
""","""			intoAm.EventErrs[k] = v
""")],
 demo=D("health",["errors","time"],'''	mk := func() *IntervalAggregation {
		a := newAggregator(time.Hour*24, time.Hour*48)
		a.EmitEventErr("j", "e", errors.New("1"))
		return a.intervalAggregations[0]
	}
	a, b := mk(), mk()
	o := NewIntervalAggregation(a.IntervalStart)
	o.Merge(a)
	o.Merge(b)
	if a.EventErrs["e"].Count != 1 {
		t.Fatal("merged-in aggregation was changed")
	}
''')),
dict(id="c12-drop-when-full",property="C12",pkg=".",
 needs="a burst of more than 4096 emissions before the aggregator gets to run",
 breaks="Emissions are dropped when the buffer is full",
 edits=[("json_polling_sink.go","""	s.emit(&emitCmd{Kind: cmdKindGauge, Job: job, Event: event, Value: value})
""","""	cmd := &emitCmd{Kind: cmdKindGauge, Job: job, Event: event, Value: value}
	select {
	case s.cmdChan <- cmd:
	default:
		// The next value of the gauge would replace this one anyway.
	}
""")],
 demo=D("health",[],'''	s := &JsonPollingSink{cmdChan: make(chan *emitCmd, 1), doneDoneChan: make(chan int)}
	go func() {
		for i := 0; i < 100; i++ {
			s.EmitGauge("j", "g", float64(i), nil)
		}
		s.EmitEvent("j", "end", nil)
	}()
	last := -1.0
	for c := range s.cmdChan {
		if c.Kind == cmdKindEvent {
			break
		}
		if c.Value != last+1 {
			t.Fatal("lost a gauge", last+1)
		}
		last = c.Value
	}
	if last != 99 {
		t.Fatal("lost the last gauge")
	}
''')),
dict(id="c13-int32-millis",property="C13",pkg=".",
 needs="a time of more than 2^31 ms (about 25 days)",
 breaks="The milliseconds pass through 32 bits and come out negative",
 edits=[("statsd_sink.go","""		s.timingBuf = strconv.AppendInt(s.timingBuf, nanos/1e6, 10)
""","""		millis := int32(nanos / 1e6)
		s.timingBuf = strconv.AppendInt(s.timingBuf, int64(millis), 10)
""")],
 demo=D("health",[],'''	s := &StatsDSink{}
	s.writeNanosToTimingBuf(3000000000 * 1000000)
	if string(s.timingBuf) != "3000000000" {
		t.Fatal(string(s.timingBuf))
	}
''')),
dict(id="c14-largest-dropped",property="C14",pkg=".",
 needs="a metric of exactly 1440 bytes",
 breaks="A metric that just fits a packet is dropped",
 edits=[("statsd_sink.go","	if lenb > maxUdpBytes {","	if lenb >= maxUdpBytes {")],
 demo=D("health",["strings"],'''	s := &StatsDSink{}
	s.writeStatsDMetric([]byte(strings.Repeat("a", 1435) + ":1|c\\n"))
	if s.udpBuf.Len() != 1440 {
		t.Fatal("dropped", s.udpBuf.Len())
	}
''')),
dict(id="c16-empty-map-omitted",property="C16",pkg=".",
 needs="an emission with an empty map of key/values given to the sink",
 breaks="Nothing is written for an empty map, where the line should end in kvs:[]",
 edits=[("writer_sink.go","	if kvs == nil {","	if len(kvs) == 0 {")],
 demo=D("health",["bytes","strings"],'''	var a bytes.Buffer
	(&WriterSink{&a}).EmitEvent("j", "e", map[string]string{})
	if !strings.HasSuffix(a.String(), " kvs:[]\\n") {
		t.Fatal(a.String())
	}
''')),
dict(id="c17-nanos-float",property="C17",pkg=".",
 needs="a timing of more than 2^53 ns (about 104 days)",
 breaks="Timings pass through a float64 and lose their last digits",
 edits=[("json_writer_sink.go","""		Nanoseconds int64
		Kvs         map[string]string
	}{job, event, timestamp(), nanoseconds, kvs})""","""		Nanoseconds float64
		Kvs         map[string]string
	}{job, event, timestamp(), float64(nanoseconds), kvs})""")],
 demo=D("health",["bytes","strings"],'''	var a bytes.Buffer
	(&JsonWriterSink{&a}).EmitTiming("j", "e", 1<<53+1, nil)
	if !strings.Contains(a.String(), "9007199254740993") {
		t.Fatal(a.String())
	}
''')),
dict(id="c21-frames-cut",property="C21",pkg="sinks/bugsnag",
 needs="an error reported from more than 32 calls deep",
 breaks="Notifications hold at most 32 stack frames",
 edits=[("sinks/bugsnag/api.go","""	for _, frame := range trace.Frames() {
""","""	for i, frame := range trace.Frames() {
		if i == 32 {
			break // more does not help anybody
		}
""")],
 demo=D("bugsnag",["errors","github.com/gocraft/health/stack"],'''	tr := zzDeep(40)
	p := newPayload(&Config{}, "j", "e", errors.New("x"), tr, nil)
	if len(p.Events[0].Exceptions[0].Stacktrace) != len(tr.Frames()) {
		t.Fatal("frames are missing")
	}
''','''//go:noinline
func zzDeep(n int) *stack.Trace {
	if n == 0 {
		return stack.NewTrace(0)
	}
	return zzDeep(n - 1)
}
''')),
dict(id="c22-contains-goroot",property="C22",pkg="stack",
 needs="a project below a directory with the path of the Go installation inside it, such as a build root",
 breaks="A file is taken for a system file if the Go installation's path occurs anywhere in its path",
 edits=[("stack/frame.go","	return strings.HasPrefix(file, ","	return strings.Contains(file, ")],
 demo=D("stack",["runtime"],'''	if isSystemPackage("/build/root"+runtime.GOROOT()+"/x.go", "x") {
		t.Fatal("not a system file")
	}
''')),
dict(id="c23-numgc-int32",property="C23",pkg="runtime_metrics",
 needs="more than 2^31 garbage collections",
 breaks="num_gc turns negative",
 edits=[("runtime_metrics/runtime_metrics.go","float64(mem.NumGC)","float64(int32(mem.NumGC))")],
 sh='''#!/bin/bash
# Exit 0 if the property held, nonzero otherwise. Runs the package with a stand-in for runtime.ReadMemStats.
d=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
sed 's/runtime\\.ReadMemStats(/zzReadMemStats(/' runtime_metrics/runtime_metrics.go > "$t/rm.go"
printf 'package runtime_metrics\\nimport "runtime"\\nfunc zzReadMemStats(m *runtime.MemStats) { runtime.ReadMemStats(m); m.NumGC = 1<<31 + 5 }\\n' > "$t/zz.go"
printf '{"Replace":{"%s/runtime_metrics/runtime_metrics.go":"%s/rm.go","%s/runtime_metrics/zz.go":"%s/zz.go","%s/runtime_metrics/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$t" "$PWD" "$t" "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestZZDemo$' ./runtime_metrics
''',
 demo=D("runtime_metrics",["github.com/gocraft/health"],'''	z := &zzSink{}
	s := health.NewStream()
	s.AddSink(z)
	NewRuntimeMetrics(s, &Options{GC: true, Interval: 1}).Report()
	if z.v != 1<<31+5 {
		t.Fatal(z.v)
	}
''','''type zzSink struct {
	health.Sink
	v float64
}

func (z *zzSink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
	if event == "num_gc" {
		z.v = value
	}
}
''')),
dict(id="c26-negative-limit",property="C26",pkg="healthd",hd=True,
 needs="a job list requested with a negative limit",
 breaks="A negative limit is no longer ignored: the request panics",
 edits=[("healthd/api.go","	if limit > 0 {","	if limit != 0 {")],
 demo=D("healthd",["github.com/gocraft/health","time"],'''	a := health.NewIntervalAggregation(time.Now())
	a.Jobs["j"] = &health.JobAggregation{}
	if len(filterJobs(a, "name", -1)) != 1 {
		t.Fatal("job is missing")
	}
''')),
dict(id="c27-stale-error",property="C27",pkg="healthd",hd=True,
 needs="a poll that fails, followed by one that is answered with an error code and a JSON body",
 breaks="The text of an earlier failure stays although the latest poll had another outcome",
 edits=[("healthd/healthd.go","""		if resp.Err == nil {
			hs.LastErr = ""
		} else {
""","""		if resp.Err == nil && resp.Code == 200 {
			hs.LastErr = ""
		} else if resp.Err != nil {
""")],
 demo=D("healthd",["errors"],'''	hd := &HealthD{hostStatus: map[string]*HostStatus{"a": {HostPort: "a"}}}
	hd.consumePollResponse(&pollResponse{HostPort: "a", Err: errors.New("refused")})
	hd.consumePollResponse(&pollResponse{HostPort: "a", Code: 503})
	if s := hd.hostStatus["a"]; s.LastErr != "" || s.LastCode != 503 {
		t.Fatal(s.LastErr)
	}
''')),
dict(id="c28-empty-body-success",property="C28",pkg="healthd",hd=True,
 needs="a host that answers 200 with an empty body",
 breaks="An empty answer is not recorded as a failure",
 edits=[("healthd/poll.go","""	if err := json.Unmarshal(""","""	if len(body) == 0 {
		goto POLL_FINISH
	}

	if err := json.Unmarshal(""")],
 demo=D("healthd",["github.com/gocraft/health","net/http","net/http/httptest","strings"],'''	srv := httptest.NewServer(http.HandlerFunc(func(http.ResponseWriter, *http.Request) {}))
	defer srv.Close()
	c := make(chan *pollResponse, 1)
	poll(health.NewStream(), strings.TrimPrefix(srv.URL, "http://"), c)
	if r := <-c; r.Err == nil {
		t.Fatal("an empty answer counts as a success")
	}
''')),
dict(id="c30-shared-kvs-scratch",property="C30",pkg=".",flags="-race",
 needs="two goroutines that emit with key/values on one job that has key/values itself",
 breaks="Emissions merge key/values into a map shared by all users of the job",
 edits=[("health.go","""	KeyValues map[string]string
	Start     time.Time
}""","""	KeyValues map[string]string
	Start     time.Time

	scratch map[string]string
}"""),("health.go","""		allKvs = make(map[string]string)
		for k, v := range j.Stream""","""		// Sinks that keep key/values copy them.
		if j.scratch == nil {
			j.scratch = make(map[string]string)
		}
		for k := range j.scratch {
			delete(j.scratch, k)
		}
		allKvs = j.scratch
		for k, v := range j.Stream""")],
 demo=D("health",["io","sync"],'''	s := NewStream()
	s.AddSink(&WriterSink{io.Discard})
	j := s.NewJob("j").KeyValue("a", "b")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				j.EventKv("e", Kvs{"x": "y"})
			}
		}()
	}
	wg.Wait()
''')),
dict(id="c33-trailing-colon",property="C33",pkg="cmd/healthd",top=True,
 needs="a list of hosts that names a host twice, with others after it",
 breaks="Addresses listed twice make the daemon monitor none of the hosts after them",
 edits=[("cmd/healthd/main.go","""	return strings.Split(hps, ",")
""","""	seen := map[string]bool{}
	all := strings.Split(hps, ",")
	for i, hp := range all {
		if seen[hp] {
			return all[:i]
		}
		seen[hp] = true
	}
	return all
""")],
 demo=D("main",["os","fmt"],'''	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", "a:1,a:1,b:1")
	m := map[string]bool{}
	for _, x := range getMonitoredHostPorts() {
		m[x] = true
	}
	if !m["a:1"] || !m["b:1"] {
		t.Fatal(fmt.Sprint(m))
	}
''')),
]
