def D(pkg, imports, body, extra=""):
    return "package %s\n\nimport (\n%s\t\"testing\"\n)\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (pkg, "".join('\t"%s"\n' % i for i in imports), extra, body)
LIB = '''type zzTrip struct {
	bodies []string
	fail   bool
}

func (z *zzTrip) RoundTrip(r *http.Request) (*http.Response, error) {
	b, _ := io.ReadAll(r.Body)
	z.bodies = append(z.bodies, string(b))
	if z.fail {
		return nil, errors.New("no network")
	}
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader("OK")), Request: r}, nil
}
'''
seeds=[
dict(id="c10-keeps-first-samples",property="C10",pkg=".",
 needs="more than five errors of one event in an interval",
 breaks="Only the first five errors are considered for the samples, so the samples are not the latest ones",
 edits=[("interval_aggregation.go","""	ec.Count++
	ec.addError(inputErr)
""","""	ec.Count++
	if ec.Count <= int64(len(ec.errorSamples)) {
		// there are enough samples otherwise
		ec.addError(inputErr)
	}
""")],
 demo=D("health",["errors"],'''	ec := &ErrorCounter{}
	for _, s := range []string{"a", "b", "c", "d", "e", "f"} {
		ec.incrementAndAddError(errors.New(s))
	}
	for _, e := range ec.getErrorSamples() {
		if e.Error() == "f" {
			return
		}
	}
	t.Fatal("the latest error is no sample")
''')),
dict(id="c12-snapshot-in-goroutine",property="C12",pkg=".",flags="-race",
 needs="an emission while a snapshot is being taken",
 breaks="The snapshot is made by a goroutine of its own, concurrently with the aggregation of later emissions: a data race",
 edits=[("aggregator.go","""			intervalsChan <- agg.memorySafeIntervals()
""","""			// a slow reader must not hold up the aggregation
			go func() { intervalsChan <- agg.memorySafeIntervals() }()
""")],
 demo=D("health",["fmt","time"],'''	s := NewJsonPollingSink(time.Hour, 5*time.Hour)
	defer s.ShutdownServer()
	done := make(chan bool)
	go func() {
		for i := 0; i < 3000; i++ {
			s.EmitEvent("j", fmt.Sprint("e", i), nil)
		}
		close(done)
	}()
	for {
		s.GetMetrics()
		select {
		case <-done:
			return
		default:
		}
	}
''')),
dict(id="c16-case-insensitive-order",property="C16",pkg=".",
 needs="two keys that differ in case only",
 breaks="Keys are sorted ignoring case, so keys that differ in case only come in the random order of the map",
 edits=[("writer_sink.go","""	sort.Strings(keys)
""","""	sort.Slice(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })
"""),("writer_sink.go",'''	"sort"
''','''	"sort"
	"strings"
''')],
 demo=D("health",["bytes","strings"],'''	for i := 0; i < 100; i++ {
		var b bytes.Buffer
		s := &WriterSink{&b}
		s.EmitEvent("j", "e", map[string]string{"User": "1", "user": "2"})
		if !strings.HasSuffix(b.String(), " kvs:[User:1 user:2]\\n") {
			t.Fatal(b.String())
		}
	}
''')),
dict(id="c17-zero-gauge-omitted",property="C17",pkg=".",
 needs="a gauge of zero",
 breaks="A gauge of zero is written without its value",
 edits=[("json_writer_sink.go","""		Value     float64
""","""		Value     float64 `json:",omitempty"`
""")],
 demo=D("health",["bytes","strings"],'''	var b bytes.Buffer
	s := &JsonWriterSink{&b}
	s.EmitGauge("j", "e", 0, nil)
	if !strings.Contains(b.String(), "\\"Value\\":0") {
		t.Fatal(b.String())
	}
''')),
dict(id="c18-sanitize-bytes",property="C18",pkg="sinks/librato",
 needs="a name with a character outside ASCII",
 breaks="Names are sanitized byte by byte, so a character of several bytes becomes several underscores",
 edits=[("sinks/librato/sink.go","""	var key bytes.Buffer
	for _, r := range k {
		if shouldSanitize(r) {
			key.WriteRune('_')
		} else {
			key.WriteRune(r)
		}
	}
""","""	var key bytes.Buffer
	for i := 0; i < len(k); i++ {
		if shouldSanitize(rune(k[i])) {
			key.WriteByte('_')
		} else {
			key.WriteByte(k[i])
		}
	}
""")],
 demo=D("librato",[],'''	if s := sanitizeKey("caf\\u00e9 x"); s != "caf__x" {
		t.Fatal(s)
	}
''')),
dict(id="c18-min-of-first-negative",property="C18",pkg="sinks/librato",
 needs="a metric whose first value is negative and whose later ones are larger",
 breaks="The maximum starts at zero when the first value is negative",
 edits=[("sinks/librato/sink.go","""		g = &gauge{Min: value, Max: value, Sum: value, Count: 1, SumSquares: value * value, Attributes: defaultTimerAttributes}
""","""		g = &gauge{Min: value, Max: math.Max(value, g.max()), Sum: value, Count: 1, SumSquares: value * value, Attributes: defaultTimerAttributes}
"""),("sinks/librato/sink.go","""func (s *Sink) inc(key string) {
""","""func (g *gauge) max() float64 {
	if g == nil {
		return 0
	}
	return g.Max
}

func (s *Sink) inc(key string) {
"""),("sinks/librato/sink.go",'''	"fmt"
''','''	"fmt"
	"math"
''')],
 demo=D("librato",[],'''	s := &Sink{timers: map[string]*gauge{}}
	s.measure("k", -3)
	s.measure("k", -2)
	if g := s.timers["k"]; g.Max != -2 || g.Min != -3 {
		t.Fatal(g)
	}
''')),
dict(id="c19-failed-flush-repeated",property="C19",pkg="sinks/librato",
 needs="a flush that fails, then a later one",
 breaks="After a failed flush the tallies are kept, so the next flush posts them again together with the new ones",
 edits=[("sinks/librato/sink.go","""		fmt.Println("Error sending to librato: ", err)
	}
""","""		fmt.Println("Error sending to librato: ", err)
		return
	}
""")],
 demo=D("librato",["errors","io","net/http","strings"],'''	z := &zzTrip{fail: true}
	s := &Sink{SanitizationFunc: sanitizeKey, timers: map[string]*gauge{}, counters: map[string]int64{}, httpClient: &http.Client{Transport: z}}
	s.processEvent("j", "e")
	s.purge()
	z.fail = false
	s.processEvent("j", "f")
	s.purge()
	if len(z.bodies) != 2 || strings.Contains(z.bodies[1], "j.e.count") {
		t.Fatal(z.bodies)
	}
''',LIB)),
dict(id="c19-reused-gauges",property="C19",pkg="sinks/librato",
 needs="a metric that is measured in one flush period and not, or only with larger values, in a later one",
 breaks="Gauges are kept and zeroed at a flush: the next periods report a count of zero or a minimum of zero",
 edits=[("sinks/librato/sink.go","""	s.timers = make(map[string]*gauge)
	s.counters = make(map[string]int64)
}
""","""	for _, g := range s.timers {
		*g = gauge{Attributes: g.Attributes}
	}
	s.counters = make(map[string]int64)
}
""")],
 demo=D("librato",["errors","io","net/http","strings"],'''	z := &zzTrip{}
	s := &Sink{SanitizationFunc: sanitizeKey, timers: map[string]*gauge{}, counters: map[string]int64{}, httpClient: &http.Client{Transport: z}}
	s.processGauge("j", "e", 7)
	s.purge()
	s.processEvent("j", "f")
	s.purge()
	if len(z.bodies) != 2 || strings.Contains(z.bodies[1], "gauge\\"") {
		t.Fatal(z.bodies)
	}
''',LIB)),
dict(id="c20-full-queue-drops",property="C20",pkg="sinks/bugsnag",
 needs="more than 25 errors while a notification is under way",
 breaks="Errors are not reported when the queue is full",
 edits=[("sinks/bugsnag/sink.go","""		if !inputErr.Emitted {
""","""		if !inputErr.Emitted && len(s.cmdChan) < cap(s.cmdChan) {
""")],
 demo=D("bugsnag",["errors","io","net/http","net/http/httptest","sync/atomic","time","github.com/gocraft/health","github.com/gocraft/health/stack"],'''	var n int64
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		time.Sleep(5 * time.Millisecond)
		atomic.AddInt64(&n, 1)
		io.WriteString(rw, "OK")
	}))
	defer srv.Close()
	s := NewSink(&Config{Endpoint: srv.URL})
	for i := 0; i < 60; i++ {
		s.EmitEventErr("j", "e", &health.UnmutedError{Err: errors.New("x"), Stack: stack.NewTrace(0)}, nil)
	}
	for i := 0; i < 300 && atomic.LoadInt64(&n) < 60; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if atomic.LoadInt64(&n) != 60 {
		t.Fatal(n)
	}
''')),
dict(id="c21-request-key-moved",property="C21",pkg="sinks/bugsnag",
 needs="key/values with the key 'request'",
 breaks="The key 'request' is removed from the key/values of the notification",
 edits=[("sinks/bugsnag/api.go","""		evt.Metadata.Request.Url = requestUrl
""","""		evt.Metadata.Request.Url = requestUrl
		delete(evt.Metadata.Kvs, "request") // it is shown with the request
""")],
 demo=D("bugsnag",["errors","github.com/gocraft/health/stack"],'''	p := newPayload(&Config{}, "j", "e", errors.New("x"), stack.NewTrace(0), map[string]string{"request": "/x", "a": "b"})
	if k := p.Events[0].Metadata.Kvs; k["request"] != "/x" || k["a"] != "b" {
		t.Fatal(k)
	}
''')),
dict(id="c22-skip-beyond-stack",property="C22",pkg="stack",
 needs="a level beyond the bottom of the call stack",
 breaks="Skipping more levels than the stack has panics instead of giving an empty trace",
 edits=[("stack/stack.go","""	stack := make([]uintptr, MaxStackDepth)
	length := runtime.Callers(2+skip, stack)
""","""	stack := make([]uintptr, MaxStackDepth+skip)
	length := runtime.Callers(2, stack) - skip
	stack = stack[skip:]
""")],
 demo=D("stack",[],'''	done := make(chan bool)
	go func() {
		defer func() { done <- recover() == nil }()
		NewTrace(20)
	}()
	if !<-done {
		t.Fatal("panic")
	}
''')),
dict(id="c23-report-in-background",property="C23",pkg="runtime_metrics",
 needs="a stop while a report is under way",
 breaks="Reports are made in goroutines of their own, so one may still go on after the stop returned",
 edits=[("runtime_metrics/runtime_metrics.go","""		case <-ticker.C:
			rm.Report()
""","""		case <-ticker.C:
			go rm.Report() // keep ticking if a sink is slow
""")],
 demo=D("runtime_metrics",["sync/atomic","time","github.com/gocraft/health"],'''	z := &zzSlow{}
	s := health.NewStream()
	s.AddSink(z)
	rm := NewRuntimeMetrics(s, &Options{Interval: 20 * time.Millisecond, Memory: true, GC: true})
	rm.Start()
	time.Sleep(30 * time.Millisecond)
	rm.Stop()
	n := atomic.LoadInt64(&z.n)
	time.Sleep(200 * time.Millisecond)
	if m := atomic.LoadInt64(&z.n); m != n {
		t.Fatal(n, m)
	}
''','''type zzSlow struct{ n int64 }

func (z *zzSlow) EmitEvent(job string, event string, kvs map[string]string)                       {}
func (z *zzSlow) EmitEventErr(job string, event string, err error, kvs map[string]string)         {}
func (z *zzSlow) EmitTiming(job string, event string, nanoseconds int64, kvs map[string]string)   {}
func (z *zzSlow) EmitComplete(job string, s health.CompletionStatus, n int64, kvs map[string]string) {}
func (z *zzSlow) EmitGauge(job string, event string, value float64, kvs map[string]string) {
	time.Sleep(15 * time.Millisecond)
	atomic.AddInt64(&z.n, 1)
}
''')),
]
HDX='''func zzNew() *HealthD {
	return &HealthD{stream: health.NewStream(), hostStatus: map[string]*HostStatus{"a": {HostPort: "a"}, "b": {HostPort: "b"}}, hostAggregations: map[hostAggregationKey]*health.IntervalAggregation{}, intervalsNeedingRecalculation: map[time.Time]struct{}{}, retain: 2 * time.Hour}
}

func zzResp(host, instance string, at time.Time, n int64) *pollResponse {
	ia := health.NewIntervalAggregation(at)
	ia.SerialNumber = n
	ia.Events["e"] = n
	r := &pollResponse{HostPort: host, Code: 200, Timestamp: at}
	r.InstanceId = instance
	r.IntervalDuration = time.Minute
	r.IntervalAggregations = []*health.IntervalAggregation{ia}
	return r
}
'''
H="github.com/gocraft/health"
seeds+=[
dict(id="c24-restart-replaces",hd=True,property="C24",pkg="healthd",
 needs="a process that is restarted within an interval (another instance under the same host and port)",
 breaks="Data of the instance before the restart is replaced by that of the instance after it",
 edits=[("healthd/healthd.go","""				InstanceId: resp.InstanceId,
""","")],
 demo=D("healthd",["time",H],'''	hd := zzNew()
	at := time.Now().UTC().Truncate(time.Minute)
	hd.consumePollResponse(zzResp("a", "one", at, 3))
	hd.consumePollResponse(zzResp("a", "two", at, 4))
	hd.recalculateIntervals()
	if n := hd.intervalAggregations[0].Events["e"]; n != 7 {
		t.Fatal(n)
	}
''',HDX)),
dict(id="c25-one-step-insertion",hd=True,property="C25",pkg="healthd",
 needs="an interval that arrives when two later ones are known",
 breaks="A new interval is only swapped with the last one, so the series can be out of order",
 edits=[("healthd/healthd.go","""	sort.Sort(ByInterval(agg.intervalAggregations))
""","""	if byInterval := ByInterval(agg.intervalAggregations); byInterval.Len() > 1 && byInterval.Less(byInterval.Len()-1, byInterval.Len()-2) {
		byInterval.Swap(byInterval.Len()-1, byInterval.Len()-2)
	}
"""),("healthd/healthd.go",'''	"sort"
''','')],
 demo=D("healthd",["time",H],'''	hd := zzNew()
	at := time.Now().UTC().Truncate(time.Minute)
	for _, k := range []time.Duration{2, 1, 0} {
		hd.consumePollResponse(zzResp("a", "one", at.Add(k*time.Minute), 3))
		hd.recalculateIntervals()
	}
	for i := 1; i < 3; i++ {
		if !hd.intervalAggregations[i-1].IntervalStart.Before(hd.intervalAggregations[i].IntervalStart) {
			t.Fatal("order")
		}
	}
''',HDX)),
dict(id="c26-junk-sorter",hd=True,property="C26",pkg="healthd",
 needs="sorting by count_junk where junk and error counts order the jobs differently",
 breaks="Sorting by count_junk compares the error counts",
 edits=[("healthd/api.go","""		return j1.CountJunk > j2.CountJunk
""","""		return j1.CountError > j2.CountError
""")],
 demo=D("healthd",[],'''	jobs := []*Job{{Name: "a", CountJunk: 1, CountError: 5}, {Name: "b", CountJunk: 4}}
	sortJobs(jobs, "count_junk")
	if jobs[0].Name != "b" {
		t.Fatal(jobs[0].Name)
	}
''')),
dict(id="c27-stale-instance",hd=True,property="C27",pkg="healthd",
 needs="a failed poll after a successful one",
 breaks="After a failed poll the status still shows the instance of the last success",
 edits=[("healthd/healthd.go","""		hs.LastInstanceId = resp.InstanceId
""","""		if resp.InstanceId != "" {
			hs.LastInstanceId = resp.InstanceId
		}
""")],
 demo=D("healthd",["errors","time",H],'''	hd := zzNew()
	hd.consumePollResponse(zzResp("a", "one", time.Now().UTC().Truncate(time.Minute), 3))
	hd.consumePollResponse(&pollResponse{HostPort: "a", Err: errors.New("x")})
	if id := hd.hostStatus["a"].LastInstanceId; id != "" {
		t.Fatal(id)
	}
''',HDX)),
dict(id="c28-torn-body-forgotten",hd=True,property="C28",pkg="healthd",
 needs="a host whose connection breaks within the body of its answer",
 breaks="Such an answer is not reported, so the status does not show the failure",
 edits=[("healthd/poll.go","""		response.Err = job.EventErr("poll.ioutil.read_all", err)
		goto POLL_FINISH
""","""		job.EventErr("poll.ioutil.read_all", err)
		return
""")],
 demo=D("healthd",["net/http","net/http/httptest","strings","time",H],'''	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		rw.Header().Set("Content-Length", "100")
		rw.Write([]byte("{"))
	}))
	defer srv.Close()
	c := make(chan *pollResponse, 1)
	poll(health.NewStream(), strings.TrimPrefix(srv.URL, "http://"), c)
	select {
	case r := <-c:
		if r.Err == nil {
			t.Fatal("no error")
		}
	case <-time.After(time.Second):
		t.Fatal("no response")
	}
''')),
dict(id="c29-latest-request-counts",hd=True,property="C29",pkg="healthd",
 needs="requests that keep coming in less than the threshold apart",
 breaks="The delay counts from the latest request, so a steady stream of requests puts off the recalculation for ever",
 edits=[("healthd/debouncer.go","""			if oldestNeedItDone.IsZero() {
				oldestNeedItDone = now()
			}
""","""			oldestNeedItDone = now()
""")],
 demo=D("healthd",["time"],'''	fire, need := make(chan struct{}, 100), make(chan struct{}, 100)
	go debouncer(fire, need, 100*time.Millisecond, 5*time.Millisecond)
	for i := 0; i < 20; i++ {
		need <- struct{}{}
		time.Sleep(20 * time.Millisecond)
	}
	if len(fire) == 0 {
		t.Fatal("never fired")
	}
''')),
dict(id="c30-shared-line-buffer",property="C30",pkg=".",flags="-race",
 needs="two goroutines that emit events at once to a writer sink",
 breaks="Events are formatted in a buffer shared by all goroutines",
 edits=[("writer_sink.go","""func (s *WriterSink) EmitEvent(job string, event string, kvs map[string]string) {
	var b bytes.Buffer
	b.WriteRune('[')
""","""var eventBuf bytes.Buffer // reused to spare the garbage collector

func (s *WriterSink) EmitEvent(job string, event string, kvs map[string]string) {
	b := &eventBuf
	b.Reset()
	b.WriteRune('[')
"""),("writer_sink.go","""	b.WriteString(event)
	writeMapConsistently(&b, kvs)
	b.WriteRune('\\n')
	s.Writer.Write(b.Bytes())
}

func (s *WriterSink) EmitEventErr""","""	b.WriteString(event)
	writeMapConsistently(b, kvs)
	b.WriteRune('\\n')
	s.Writer.Write(b.Bytes())
}

func (s *WriterSink) EmitEventErr""")],
 demo=D("health",["io","sync"],'''	s := NewStream()
	s.AddSink(&WriterSink{io.Discard})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 500; k++ {
				s.Event("some.event")
			}
		}()
	}
	wg.Wait()
''')),
dict(id="c30-hosts-not-copied",hd=True,property="C30",pkg="healthd",flags="-race",
 needs="a request for the hosts while answers of hosts are processed",
 breaks="The host list is encoded while the aggregator changes the statuses",
 edits=[("healthd/healthd.go","""		var host = *hs // copy mem
		ret = append(ret, &host)
""","""		ret = append(ret, hs)
""")],
 demo=D("healthd",["time",H],'''	hd := zzNew()
	list := hd.memorySafeHosts()
	at := time.Now().UTC().Truncate(time.Minute)
	hd.consumePollResponse(zzResp("a", "one", at, 3))
	for _, h := range list {
		if h.LastInstanceId != "" {
			t.Fatal("a status that was handed out has changed")
		}
	}
''',HDX)),
dict(id="c31-librato-break-select",property="C31",pkg="sinks/librato",
 needs="use of a Librato sink after it was stopped",
 breaks="Stopping only leaves the select statement: the goroutine goes on and panics at a later stop",
 edits=[("sinks/librato/sink.go","""LIBRATO_LOOP:
	for {
""","""	for {
"""),("sinks/librato/sink.go","""			break LIBRATO_LOOP
""","""			break
""")],
 demo=D("librato",["os/exec","os","time"],'''	if os.Getenv("ZZ_CHILD") == "" {
		// a panic in a goroutine of the sink ends the process
		c := exec.Command(os.Args[0], "-test.run", "^TestZZDemo$")
		c.Env = append(os.Environ(), "ZZ_CHILD=1")
		if out, err := c.CombinedOutput(); err != nil {
			t.Fatal(string(out))
		}
		return
	}
	for i := 0; i < 50; i++ {
		s := New("u", "k", "")
		s.Stop()
		s.Stop()
	}
	time.Sleep(100 * time.Millisecond)
''')),
]
