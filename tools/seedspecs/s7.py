import os
def D(pkg, imports, body, extra=""):
    return "package %s\n\nimport (\n%s\t\"testing\"\n)\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (pkg, "".join('\t"%s"\n' % i for i in imports), extra, body)
NET='''type zzNet struct {
	mu sync.Mutex
	n  int
	f  func(n int, r *http.Request) (*http.Response, error)
}

func (z *zzNet) RoundTrip(r *http.Request) (*http.Response, error) {
	z.mu.Lock()
	z.n++
	n := z.n
	z.mu.Unlock()
	return z.f(n, r)
}

func zzOK(s string) *http.Response {
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(s))}
}
'''
SINK='''type zzSink struct {
	nanos []int64
	kvs   []map[string]string
	evs   []string
}

func (z *zzSink) EmitEvent(job, event string, kvs map[string]string) {
	z.evs = append(z.evs, event)
	z.kvs = append(z.kvs, kvs)
}
func (z *zzSink) EmitEventErr(job, event string, err error, kvs map[string]string) {
	z.evs = append(z.evs, event)
	z.kvs = append(z.kvs, kvs)
}
func (z *zzSink) EmitTiming(job, event string, n int64, kvs map[string]string) {
	z.nanos = append(z.nanos, n)
}
func (z *zzSink) EmitGauge(job, event string, v float64, kvs map[string]string) {}
func (z *zzSink) EmitComplete(job string, s CompletionStatus, n int64, kvs map[string]string) {
	z.nanos = append(z.nanos, n)
}
'''
seeds=[
dict(id="c01-second-completion",property="C01",pkg=".",
 needs="a second completion of one job",
 breaks="A completion restarts the job's clock, so that a later completion of the job carries the time since the one before",
 edits=[("health.go","""func (j *Job) Complete(status CompletionStatus) {
	allKvs := j.mergedKeyValues(nil)
	for _, sink := range j.Stream.Sinks {
		sink.EmitComplete(j.JobName, status, time.Since(j.Start).Nanoseconds(), allKvs)
	}
""","""func (j *Job) Complete(status CompletionStatus) {
	allKvs := j.mergedKeyValues(nil)
	elapsed := time.Since(j.Start)
	for _, sink := range j.Stream.Sinks {
		sink.EmitComplete(j.JobName, status, elapsed.Nanoseconds(), allKvs)
	}
	j.Start = j.Start.Add(elapsed)
""")],
 demo=D("health",["time"],'''	z := &zzSink{}
	j := NewStream().AddSink(z).NewJob("j")
	time.Sleep(50 * time.Millisecond)
	j.Complete(Success)
	j.Complete(Success)
	if z.nanos[1] < z.nanos[0] {
		t.Fatal(z.nanos)
	}
''',SINK)),
dict(id="c02-call-covers-job",property="C02",pkg=".",
 needs="key/values on stream, job and call, where all keys of the job occur in the call",
 breaks="The call's map is passed on alone if it overrides all the job's keys, without the stream's key/values",
 edits=[("health.go","""	if kvCount > 1 {
""","""	if kvCount > 1 && len(j.KeyValues) > 0 && len(instanceKvs) > 0 {
		covered := true
		for k := range j.KeyValues {
			if _, ok := instanceKvs[k]; !ok {
				covered = false
			}
		}
		if covered {
			kvCount = 1 // no need to copy
		}
	}

	if kvCount > 1 {
""")],
 demo=D("health",[],'''	z := &zzSink{}
	s := NewStream().AddSink(z).KeyValue("a", "1")
	s.NewJob("j").KeyValue("b", "2").EventKv("e", Kvs{"b": "3", "c": "4"})
	if len(z.kvs[0]) != 3 {
		t.Fatal(z.kvs[0])
	}
''',SINK)),
dict(id="c03-runtime-error-escapes",property="C03",pkg=".",
 needs="a function that panics with a runtime error, such as an index out of range",
 breaks="Runtime errors are reported, but then panic on to the caller",
 edits=[("health.go","""			j.Complete(Panic)
""","""			j.Complete(Panic)
			if _, ok := r.(runtime.Error); ok {
				panic(r) // a bug, not a failure of the job
			}
""")],
 demo=D("health",[],'''	var m map[string]int
	if err := NewStream().Run("j", func() error { m["a"] = 1; return nil }); err == nil {
		t.Fatal("no error")
	}
''')),
dict(id="c05-sum-while-squares-finite",property="C05",pkg=".",
 needs="a timing of more than about 3.04 s",
 breaks="The squares of long timings overflow an int64",
 edits=[("interval_aggregation.go","""	floatNano := float64(nanos)
	a.NanosSumSquares += (floatNano * floatNano)
""","""	a.NanosSumSquares += float64(nanos * nanos)
""")],
 demo=D("health",[],'''	var a TimerAggregation
	a.ingest(4e9)
	if a.NanosSumSquares != 16e18 {
		t.Fatal(a.NanosSumSquares)
	}
''')),
dict(id="c07-series-shared",property="C07",pkg=".",
 needs="a snapshot after which the interval changes and the oldest one is dropped before anything else is emitted",
 breaks="The snapshot is copied on the next emission of its interval, but not when an interval is dropped: its entries move down",
 edits=[("aggregator.go","""	ret := make([]*IntervalAggregation, 0, len(a.intervalAggregations))
	curAgg := a.getIntervalAggregation()

	for _, intAgg := range a.intervalAggregations {
		if intAgg == curAgg {
			ret = append(ret, intAgg.Clone())
		} else {
			ret = append(ret, intAgg)
		}
	}

	return ret
""","""	a.getIntervalAggregation()
	a.shared = true // the next emission makes a copy
	return a.intervalAggregations
"""),("aggregator.go","""	if n > 0 && a.intervalAggregations[n-1].IntervalStart == intervalStart {
""","""	if n > 0 && a.intervalAggregations[n-1].IntervalStart == intervalStart {
		if a.shared {
			a.intervalAggregations = append(make([]*IntervalAggregation, 0, a.maxIntervals), a.intervalAggregations...)
			a.intervalAggregations[n-1] = a.intervalAggregations[n-1].Clone()
			a.shared = false
		}
"""),("aggregator.go","""	intervalAggregations []*IntervalAggregation
}
""","""	intervalAggregations []*IntervalAggregation

	// shared tells that intervalAggregations was handed out.
	shared bool
}
""")],
 demo=D("health",[],'''	a := newAggregator(1e9, 1e9)
	setNowMock("2011-09-09T23:36:13Z")
	defer resetNowMock()
	a.EmitEvent("j", "e")
	m := a.memorySafeIntervals()
	setNowMock("2011-09-09T23:36:14Z")
	a.EmitEvent("j", "f")
	if m[0].Events["e"] != 1 || m[0].Events["f"] != 0 {
		t.Fatal(m[0].Events)
	}
''')),
dict(id="c08-no-gauges-nil",property="C08",pkg=".",
 needs="a clone of an aggregation without gauges that is changed or encoded afterwards",
 breaks="The clone of an aggregation without gauges has a nil map of gauges",
 edits=[("interval_aggregation_clone.go","""	for k, v := range am.Gauges {
""","""	if len(am.Gauges) == 0 {
		dup.Gauges = nil
	}
	for k, v := range am.Gauges {
""")],
 demo=D("health",["time"],'''	a := NewIntervalAggregation(time.Now())
	b := a.Clone()
	if b.Gauges == nil {
		t.Fatal("nil")
	}
''')),
dict(id="c09-serial-stays",property="C09",pkg=".",
 needs="a merged-in aggregation whose serial number is 0 although it has data, such as one built by merging or decoded from JSON without the field",
 breaks="The serial number stays if the other's is 0",
 edits=[("interval_aggregation_merge.go","""	ia.SerialNumber++
""","""	if intAgg.SerialNumber > 0 { // else nothing was recorded
		ia.SerialNumber++
	}
""")],
 demo=D("health",["time"],'''	a, b := NewIntervalAggregation(time.Now()), NewIntervalAggregation(time.Now())
	b.Events["e"] = 3
	a.Merge(b)
	if a.SerialNumber == 0 {
		t.Fatal("the serial number did not increase")
	}
''')),
dict(id="c10-job-follows-overall",property="C10",pkg=".",
 needs="one error that is reported by a job and then by another, as when it is passed up",
 breaks="Whether an error is a repetition is decided for all jobs together: a job that reports what another just reported has no sample",
 edits=[("aggregator.go","""	errc.incrementAndAddError(inputErr)
	jobAgg := intAgg.getJobAggregation(job)
	jerrc := jobAgg.getCounterErrs(event)
	jerrc.incrementAndAddError(inputErr)
""","""	jobAgg := intAgg.getJobAggregation(job)
	jerrc := jobAgg.getCounterErrs(event)
	if last := errc.errorSamples[errc.errorSampleIndex]; last != nil && sameError(last, inputErr) {
		errc.Count++
		jerrc.Count++
	} else {
		errc.incrementAndAddError(inputErr)
		jerrc.incrementAndAddError(inputErr)
	}
""")],
 demo=D("health",["errors"],'''	a := newAggregator(60e9, 300e9)
	e := errors.New("x")
	a.EmitEventErr("j1", "e", e)
	a.EmitEventErr("j2", "e", e)
	if n := len(a.getIntervalAggregation().Jobs["j2"].EventErrs["e"].getErrorSamples()); n != 1 {
		t.Fatal(n)
	}
''')),
dict(id="c11-cached-by-serial",property="C11",pkg=".",
 needs="the retained number of intervals, and requests in two intervals in which the same number of emissions was made so far",
 breaks="The body is cached by number of intervals and latest serial number, so that another interval's is served when both agree",
 edits=[("json_polling_sink_http.go","""		metrics := s.GetMetrics()
""","""		metrics := s.GetMetrics()
		s.cacheMutex.Lock()
		defer s.cacheMutex.Unlock()
		if n := len(metrics); n > 0 && n == s.cachedLen && metrics[n-1].SerialNumber == s.cachedSerial {
			rw.Write(s.cached)
			return
		}
"""),("json_polling_sink_http.go","""		rw.Write(jsonData)
""","""		if n := len(metrics); n > 0 {
			s.cached, s.cachedLen, s.cachedSerial = jsonData, n, metrics[n-1].SerialNumber
		}
		rw.Write(jsonData)
"""),("json_polling_sink.go","""	intervalDuration  time.Duration
""","""	intervalDuration  time.Duration
	cacheMutex        sync.Mutex
	cached            []byte // body of the last response
	cachedLen         int
	cachedSerial      int64
"""),("json_polling_sink.go","""import (
	"time"
""","""import (
	"sync"
	"time"
""")],
 demo=D("health",["net/http","net/http/httptest","time"],'''	s := NewJsonPollingSink(200*time.Millisecond, 200*time.Millisecond)
	defer s.ShutdownServer()
	get := func() string {
		w := httptest.NewRecorder()
		r, _ := http.NewRequest("GET", "http://x/health", nil)
		s.ServeHTTP(w, r)
		return w.Body.String()
	}
	time.Sleep(time.Until(time.Now().Truncate(200 * time.Millisecond).Add(210 * time.Millisecond)))
	s.EmitEvent("j", "e", nil)
	a := get()
	time.Sleep(200 * time.Millisecond)
	s.EmitEvent("j", "f", nil)
	if b := get(); a == b {
		t.Fatal(b)
	}
''')),
dict(id="c12-overflow-reorders",property="C12",pkg=".",
 needs="more than 4096 emissions waiting, then gauges of one name",
 breaks="When the queue is full an emission is handed over by a goroutine, so that emissions of one goroutine may take effect out of order",
 edits=[("json_polling_sink.go","""func (s *JsonPollingSink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
	s.emit(&emitCmd{Kind: cmdKindGauge, Job: job, Event: event, Value: value})
""","""func (s *JsonPollingSink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
	cmd := &emitCmd{Kind: cmdKindGauge, Job: job, Event: event, Value: value}
	if len(s.cmdChan) == cap(s.cmdChan) {
		go s.emit(cmd) // don't make the caller wait
		return
	}
	s.emit(cmd)
""")],
 demo=D("health",["time"],'''	for try := 0; try < 200; try++ {
		s := &JsonPollingSink{
			intervalDuration:  time.Hour,
			cmdChan:           make(chan *emitCmd, 4096),
			doneChan:          make(chan int),
			doneDoneChan:      make(chan int),
			intervalsChanChan: make(chan chan []*IntervalAggregation),
		}
		for i := 0; i < 4096; i++ {
			s.EmitEvent("j", "e", nil)
		}
		done := make(chan bool)
		go func() {
			for i := 0; i < 50; i++ {
				s.EmitGauge("j", "g", float64(i), nil)
			}
			done <- true
		}()
		time.Sleep(time.Millisecond)
		go startAggregator(time.Hour, time.Hour, s)
		<-done
		time.Sleep(5 * time.Millisecond)
		m := s.GetMetrics()
		v := m[len(m)-1].Gauges["g"]
		s.ShutdownServer()
		if v != 49 {
			t.Fatal(v)
		}
	}
''')),
dict(id="c13-long-keys-cut",property="C13",pkg=".",
 needs="a key of more than 255 bytes",
 breaks="Keys are cut to 255 bytes, so that long ones lose their suffix",
 edits=[("statsd_sink.go","""		b.WriteByte(':')
		b.prefixLen = b.Len()
""","""		if b.Len() > 255 {
			b.Truncate(255) // the most StatsD servers take
		}
		b.WriteByte(':')
		b.prefixLen = b.Len()
""")],
 demo=D("health",["strings"],'''	s := &StatsDSink{options: defaultStatsDOptions, prefixBuffers: map[eventKey]prefixBuffer{}}
	e := strings.Repeat("x", 300)
	s.processEventErr("j", e)
	if !strings.Contains(s.udpBuf.String(), "j."+e+".error:1|c") {
		t.Fatal(s.udpBuf.String())
	}
''')),
dict(id="c14-kept-on-error",property="C14",pkg=".",
 needs="a packet that cannot be sent when the buffer is full",
 breaks="A packet that could not be sent is kept, and the next lines are added to it beyond 1440 bytes",
 edits=[("statsd_sink.go","""	if (lenb + lenUdpBuf) > maxUdpBytes {
		s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
		s.udpBuf.Truncate(0)
	}
""","""	if (lenb + lenUdpBuf) > maxUdpBytes {
		if _, err := s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr); err == nil {
			s.udpBuf.Truncate(0)
		}
	}
""")],
 demo=D("health",["net","strings"],'''	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &StatsDSink{options: defaultStatsDOptions, prefixBuffers: map[eventKey]prefixBuffer{}, udpConn: c.(*net.UDPConn), udpAddr: &net.UDPAddr{IP: net.ParseIP("127.0.0.1"), Port: 0}}
	for i := 0; i < 10; i++ {
		s.processEvent("j", strings.Repeat("x", 500))
	}
	if s.udpBuf.Len() > 1440 {
		t.Fatal(s.udpBuf.Len())
	}
''')),
dict(id="c15-stop-answers-first",property="C15",pkg=".",
 needs="a stop requested while a drain that was called before it is carried out",
 breaks="A stop that comes while a drain is carried out ends the loop without reporting the drain done and without its flush",
 edits=[("statsd_sink.go","""					case statsdCmdKindStop:
						stop = true
""","""					case statsdCmdKindStop:
						s.stopDoneChan <- struct{}{}
						break LOOP
""")],
 demo=D("health",["time"],'''	s, err := NewStatsDSink("127.0.0.1:9", nil)
	if err != nil {
		t.Fatal(err)
	}
	s.Stop()
	drained := make(chan bool)
	go func() {
		s.Drain()
		close(drained)
	}()
	time.Sleep(50 * time.Millisecond) // the drain waits
	go s.Stop()
	time.Sleep(50 * time.Millisecond) // and the stop behind it
	go s.loop()
	select {
	case <-drained:
	case <-time.After(3 * time.Second):
		t.Fatal("the drain does not return")
	}
''')),
dict(id="c16-chunked-lines",property="C16",pkg=".",
 needs="a line of more than 4096 bytes, as with a stack in the key/values",
 breaks="Lines longer than 4096 bytes are written in several writes",
 edits=[("writer_sink.go","""func (s *WriterSink) EmitEventErr(job string, event string, inputErr error, kvs map[string]string) {
	var b bytes.Buffer
""","""func (s *WriterSink) EmitEventErr(job string, event string, inputErr error, kvs map[string]string) {
	b := bufio.NewWriter(s.Writer)
	defer b.Flush()
"""),("writer_sink.go","""	b.WriteString(" err:")
	b.WriteString(inputErr.Error())
	writeMapConsistently(&b, kvs)
	b.WriteRune('\\n')
	s.Writer.Write(b.Bytes())
""","""	b.WriteString(" err:")
	b.WriteString(inputErr.Error())
	var m bytes.Buffer
	writeMapConsistently(&m, kvs)
	b.Write(m.Bytes())
	b.WriteRune('\\n')
"""),("writer_sink.go","""import (
	"bytes"
""","""import (
	"bufio"
	"bytes"
""")],
 demo=D("health",["errors","strings"],'''	z := &zzW{}
	(&WriterSink{z}).EmitEventErr("j", "e", errors.New("x"), map[string]string{"stack": strings.Repeat("s", 5000)})
	if z.n != 1 {
		t.Fatal(z.n)
	}
''','''type zzW struct{ n int }

func (z *zzW) Write(b []byte) (int, error) {
	z.n++
	return len(b), nil
}
''')),
dict(id="c17-unescaped-ampersand",property="C17",pkg=".",
 needs="an event name with a literal \\u0026, as in text that is JSON itself",
 breaks="Escaped ampersands are replaced in the encoded object, also where the text holds that escape literally",
 edits=[("json_writer_sink.go","""func (j *JsonWriterSink) EmitEvent(job string, event string, kvs map[string]string) {

	b, err := json.Marshal(struct {
		Job       string
		Event     string
		Timestamp string
		Kvs       map[string]string
	}{job, event, timestamp(), kvs})

	if err != nil {
		return
	}
	j.Write(b)
""","""func (j *JsonWriterSink) EmitEvent(job string, event string, kvs map[string]string) {

	b, err := json.Marshal(struct {
		Job       string
		Event     string
		Timestamp string
		Kvs       map[string]string
	}{job, event, timestamp(), kvs})

	if err != nil {
		return
	}
	j.Write(bytes.Replace(b, []byte(`\\u0026`), []byte("&"), -1)) // URLs are easier to read
"""),("json_writer_sink.go","""import (
""","""import (
	"bytes"
""")],
 demo=D("health",["bytes","encoding/json"],'''	var b bytes.Buffer
	(&JsonWriterSink{&b}).EmitEvent("j", `a\\u0026b`, nil)
	var m map[string]interface{}
	if err := json.Unmarshal(b.Bytes(), &m); err != nil || m["Event"] != `a\\u0026b` {
		t.Fatal(b.String(), err)
	}
''')),
dict(id="c18-long-names-cut",property="C18",pkg="sinks/librato",
 needs="a metric name of more than 255 characters",
 breaks="Metric names are cut to 255 characters, so that different metrics are counted together",
 edits=[("sinks/librato/sink.go","""	return key1.String(), key2.String()
""","""	return limit(key1.String()), limit(key2.String())
"""),("sinks/librato/sink.go","""func (s *Sink) inc(key string) {
""","""// limit cuts a name to what librato accepts.
func limit(key string) string {
	if len(key) > 255 {
		key = key[:255]
	}
	return key
}

func (s *Sink) inc(key string) {
""")],
 demo=D("librato",["strings"],'''	s := New("", "", "")
	defer s.Stop()
	a, b := s.eventKeys("j", strings.Repeat("x", 300), "count")
	if !strings.HasSuffix(a, ".count") || !strings.HasSuffix(b, ".count") {
		t.Fatal(a, b)
	}
''')),
dict(id="c19-refused-body-open",property="C19",pkg="sinks/librato",
 needs="a response of Librato with a status of 400 or above",
 breaks="The body of a response that refuses the metrics is not closed",
 edits=[("sinks/librato/sink.go","""	//fmt.Println(resp.Status)
""","""	if resp.StatusCode >= 400 {
		return fmt.Errorf("librato responded with %s", resp.Status)
	}
""")],
 demo=D("librato",["io","net/http","strings"],'''	s := New("", "", "")
	defer s.Stop()
	z := &zzB{Reader: strings.NewReader("")}
	s.httpClient = &http.Client{Transport: zzT{z}}
	s.counters["a"] = 1
	s.purge()
	if !z.closed {
		t.Fatal("not closed")
	}
''','''type zzB struct {
	io.Reader
	closed bool
}

func (z *zzB) Close() error {
	z.closed = true
	return nil
}

type zzT struct{ b *zzB }

func (z zzT) RoundTrip(*http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 401, Body: z.b}, nil
}
''')),
dict(id="c20-breaker",property="C20",pkg="sinks/bugsnag",
 needs="five notifications in a row that fail, then another error within a minute",
 breaks="After five failed notifications in a row errors are not sent for a minute",
 edits=[("sinks/bugsnag/sink.go","""	cmdChan := sink.cmdChan
	doneChan := sink.doneChan
""","""	cmdChan := sink.cmdChan
	doneChan := sink.doneChan
	failures, lastFailure := 0, time.Time{}
"""),("sinks/bugsnag/sink.go","""		case cmd := <-cmdChan:
			if err := Notify(sink.Config, cmd.Job, cmd.Event, cmd.Err, cmd.Err.Stack, cmd.Kvs); err != nil {
				fmt.Fprintf(os.Stderr, "bugsnag.Notify: could not notify bugsnag. err=%v\\n", err)
			}
""","""		case cmd := <-cmdChan:
			if failures >= 5 && time.Since(lastFailure) < time.Minute {
				continue // bugsnag is down, don't make the others wait
			}
			if err := Notify(sink.Config, cmd.Job, cmd.Event, cmd.Err, cmd.Err.Stack, cmd.Kvs); err != nil {
				fmt.Fprintf(os.Stderr, "bugsnag.Notify: could not notify bugsnag. err=%v\\n", err)
				failures, lastFailure = failures+1, time.Now()
			} else {
				failures = 0
			}
"""),("sinks/bugsnag/sink.go","""	"os"
""","""	"os"
	"time"
""")],
 demo=D("bugsnag",["errors","github.com/gocraft/health","io","net/http","strings","sync","time"],'''	n := &zzNet{f: func(n int, r *http.Request) (*http.Response, error) { return nil, errors.New("refused") }}
	http.DefaultTransport = n
	s := NewSink(&Config{APIKey: "k"})
	st := health.NewStream().AddSink(s)
	for i := 0; i < 8; i++ {
		st.EventErr("e", errors.New("x"))
	}
	time.Sleep(300 * time.Millisecond)
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.n != 8 {
		t.Fatal(n.n)
	}
''',NET)),
dict(id="c21-contains-ok",property="C21",pkg="sinks/bugsnag",
 needs="a response that contains OK without being OK, such as one that tells the key is NOT OK",
 breaks="Any response with OK in it is taken for success",
 edits=[("sinks/bugsnag/api.go","""	if string(body) != "OK" {
""","""	if !bytes.Contains(body, []byte("OK")) {
""")],
 demo=D("bugsnag",["errors","github.com/gocraft/health/stack","io","net/http","strings","sync"],'''	http.DefaultTransport = &zzNet{f: func(n int, r *http.Request) (*http.Response, error) { return zzOK("NOT OK"), nil }}
	if Notify(&Config{Endpoint: "http://x/"}, "j", "e", errors.New("x"), stack.NewTrace(0), nil) == nil {
		t.Fatal("no error")
	}
''',NET)),
dict(id="c22-shared-counters",property="C22",pkg="stack",
 needs="a trace that is read after another was taken",
 breaks="Traces share one buffer of program counters, so that taking a trace changes the ones before",
 edits=[("stack/stack.go","""	stack := make([]uintptr, MaxStackDepth)
	length := runtime.Callers(2+skip, stack)
""","""	stack, _ := buffers.Get().([]uintptr)
	if len(stack) != MaxStackDepth {
		stack = make([]uintptr, MaxStackDepth)
	}
	defer buffers.Put(stack)
	length := runtime.Callers(2+skip, stack)
"""),("stack/stack.go","""type Trace struct {
""","""var buffers sync.Pool

type Trace struct {
"""),("stack/stack.go","""	"runtime"
""","""	"runtime"
	"sync"
""")],
 demo=D("stack",["bytes"],'''	a := NewTrace(0)
	s := a.Stack()
	func() { NewTrace(0) }()
	for i := 0; i < 50; i++ {
		func() { NewTrace(0) }()
	}
	if !bytes.Equal(s, a.Stack()) {
		t.Fatalf("%s\\n%s", s, a.Stack())
	}
''')),
dict(id="c23-unchanged-skipped",property="C23",pkg="runtime_metrics",
 needs="a second report in which a value is what it was in the first",
 breaks="Gauges whose value has not changed since the last report are not emitted",
 edits=[("runtime_metrics/runtime_metrics.go","""	rm.stream.Gauge(key, val)
""","""	if last, ok := rm.last[key]; ok && last == val {
		return
	}
	rm.last[key] = val
	rm.stream.Gauge(key, val)
"""),("runtime_metrics/runtime_metrics.go","""		stopStopChan: make(chan bool),
""","""		stopStopChan: make(chan bool),
		last:         make(map[string]float64),
"""),("runtime_metrics/runtime_metrics.go","""	stopStopChan chan bool
""","""	stopStopChan chan bool
	last         map[string]float64
""")],
 demo=D("runtime_metrics",["time"],'''	r := &testReceiver{gauges: map[string]float64{}}
	m := NewRuntimeMetrics(r, &Options{Interval: time.Hour, Cgo: true})
	m.Report()
	delete(r.gauges, "num_cgo_call")
	m.Report()
	if _, ok := r.gauges["num_cgo_call"]; !ok {
		t.Fatal("no gauge")
	}
''')),
dict(id="c24-body-limit",property="C24",pkg="healthd",hd=True,
 needs="a host whose answer has more than 256 KB, as with a few hundred jobs",
 breaks="Answers are read up to 256 KB only, so that the data of a host with many jobs are not counted",
 edits=[("healthd/poll.go","""	body, err = ioutil.ReadAll(resp.Body)
""","""	body, err = ioutil.ReadAll(io.LimitReader(resp.Body, 256*1024))
"""),("healthd/poll.go","""	"io/ioutil"
""","""	"io"
	"io/ioutil"
""")],
 demo=D("healthd",["encoding/json","fmt","github.com/gocraft/health","io","net/http","strings","sync","time"],'''	a := health.NewIntervalAggregation(time.Now())
	for i := 0; i < 1000; i++ {
		a.Jobs[fmt.Sprint("job", i)] = &health.JobAggregation{CountError: 1}
	}
	b, _ := json.MarshalIndent(&health.HealthAggregationsResponse{IntervalDuration: time.Minute, IntervalAggregations: []*health.IntervalAggregation{a}}, "", "\\t")
	http.DefaultTransport = &zzNet{f: func(n int, r *http.Request) (*http.Response, error) { return zzOK(string(b)), nil }}
	c := make(chan *pollResponse, 1)
	poll(health.NewStream(), "a", c)
	if r := <-c; r.Err != nil || len(r.IntervalAggregations) != 1 {
		t.Fatal(r.Err)
	}
''',NET)),
dict(id="c25-drops-before-inserting",property="C25",pkg="healthd",hd=True,
 needs="the full number of intervals, and a late answer with an interval older than all of them",
 breaks="The oldest retained interval makes room for one that is older still",
 edits=[("healthd/healthd.go","""	// Otherwise, just append it and sort to get ordering right.
""","""	if n := len(agg.intervalAggregations); n > 0 && n == agg.maxIntervals {
		agg.intervalAggregations = agg.intervalAggregations[1:]
	}

	// Otherwise, just append it and sort to get ordering right.
""")],
 demo=D("healthd",["github.com/gocraft/health","time"],'''	hd := &HealthD{maxIntervals: 2}
	b := time.Now()
	for _, d := range []time.Duration{2, 3, 1} {
		hd.setAggregation(health.NewIntervalAggregation(b.Add(d * time.Minute)))
	}
	if !hd.intervalAggregations[0].IntervalStart.Equal(b.Add(2 * time.Minute)) {
		t.Fatal(hd.intervalAggregations[0].IntervalStart)
	}
''')),
dict(id="c26-ties-lost",property="C26",pkg="healthd",hd=True,
 needs="a limit below the number of jobs, and jobs that are equal in the requested key",
 breaks="With a limit the best jobs are selected one after another, and of jobs with equal keys only the first is taken",
 edits=[("healthd/api.go","""	sortJobs(jobs, sort)

""","""	if by, ok := jobSorters[sort]; ok && limit > 0 && limit < len(jobs) {
		// A few of many: select instead of sorting.
		top := make([]*Job, 0, limit)
		for len(top) < limit {
			var best *Job
			for _, job := range jobs {
				if (len(top) == 0 || by(top[len(top)-1], job)) && (best == nil || by(job, best)) {
					best = job
				}
			}
			if best == nil {
				break
			}
			top = append(top, best)
		}
		return top
	}
	sortJobs(jobs, sort)

""")],
 demo=D("healthd",["github.com/gocraft/health","time"],'''	a := health.NewIntervalAggregation(time.Now())
	for _, n := range []string{"a", "b", "c"} {
		a.Jobs[n] = &health.JobAggregation{CountError: 1}
	}
	if n := len(filterJobs(a, "count_error", 2)); n != 2 {
		t.Fatal(n)
	}
''')),
dict(id="c27-stale-code",property="C27",pkg="healthd",hd=True,
 needs="a host that cannot be reached after it had answered",
 breaks="The response code of the last answer is kept when a poll gets none",
 edits=[("healthd/healthd.go","""		hs.LastCode = resp.Code
""","""		if resp.Code != 0 {
			hs.LastCode = resp.Code
		}
""")],
 demo=D("healthd",["errors"],'''	hd := &HealthD{hostStatus: map[string]*HostStatus{"a": {HostPort: "a"}}}
	hd.consumePollResponse(&pollResponse{HostPort: "a", Code: 500})
	hd.consumePollResponse(&pollResponse{HostPort: "a", Err: errors.New("refused")})
	if c := hd.hostStatus["a"].LastCode; c != 0 {
		t.Fatal(c)
	}
''')),
dict(id="c29-drained-after-firing",property="C29",pkg="healthd",hd=True,
 needs="a request that arrives while the debouncer waits to hand over its firing",
 breaks="Requests that arrived until the firing was taken are thrown away",
 edits=[("healthd/debouncer.go","""			oldestNeedItDone = time.Time{} // Zero the object
""","""			oldestNeedItDone = time.Time{} // Zero the object
			for len(needitdone) > 0 {
				<-needitdone // done as well
			}
""")],
 demo=D("healthd",["time"],'''	doit, req := make(chan struct{}), make(chan struct{}, 8)
	go debouncer(doit, req, 100*time.Millisecond, 10*time.Millisecond)
	req <- struct{}{}
	time.Sleep(300 * time.Millisecond)
	req <- struct{}{}
	<-doit
	select {
	case <-doit:
	case <-time.After(2 * time.Second):
		t.Fatal("the second request is never served")
	}
''')),
dict(id="c32-height-once",property="C32",pkg="cmd/healthtop",top=True,
 needs="a terminal that is made smaller while healthtop runs",
 breaks="The terminal's height is asked for once, so that rows are cut and asked for as for the first size",
 edits=[("cmd/healthtop/jobs.go","""	n := goterm.Height() - 2
""","""	height.Do(func() { lines = goterm.Height() })
	n := lines - 2
"""),("cmd/healthtop/jobs.go","""// Returns the max amount of metrics/rows we can display
""","""var (
	height sync.Once
	lines  int
)

// Returns the max amount of metrics/rows we can display
"""),("cmd/healthtop/jobs.go","""	"strings"
	"time"
""","""	"strings"
	"sync"
	"time"
""")],
 demo=D("main",["github.com/buger/goterm"],'''	goterm.SetSize(80, 40)
	maxRows()
	goterm.SetSize(80, 20)
	if n := maxRows(); n != 18 {
		t.Fatal(n)
	}
''')),
dict(id="c33-health-port-only",property="C33",pkg="cmd/healthd",top=True,
 needs="HEALTH_HOSTPORT with a host",
 breaks="The daemon serves its own health on all interfaces at the port of HEALTH_HOSTPORT, not at the given host",
 edits=[("cmd/healthd/main.go","""	jsonPollingSink.StartServer(healthHostPort)
""","""	jsonPollingSink.StartServer(healthHostPort[strings.LastIndex(healthHostPort, ":"):])
""")],
 demo=D("main",["net","os","time"],'''	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	l.Close()
	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", "127.0.0.1:1")
	os.Setenv("HEALTHD_SERVER_HOSTPORT", "127.0.0.1:0")
	os.Setenv("HEALTH_HOSTPORT", "127.0.0.2:"+port)
	go main()
	time.Sleep(time.Second)
	if _, err := net.Dial("tcp", "127.0.0.2:"+port); err != nil {
		t.Fatal(err)
	}
	if _, err := net.Dial("tcp", "127.0.0.3:"+port); err == nil {
		t.Fatal("serves at other addresses")
	}
''')),
dict(id="c34-latest-interval-only",property="C34",pkg="healthd",hd=True,
 needs="completions between the last poll in an interval and the interval's end",
 breaks="After the first poll only the latest interval of an answer is looked at, so that what happened in an interval after its last poll is never counted",
 edits=[("healthd/healthd.go","""		for _, intAgg := range resp.IntervalAggregations {
""","""		aggregations := resp.IntervalAggregations
		if n := len(aggregations); n > 1 && hd.known[resp.HostPort+resp.InstanceId] {
			aggregations = aggregations[n-1:] // we have the others
		}
		if hd.known == nil {
			hd.known = make(map[string]bool)
		}
		hd.known[resp.HostPort+resp.InstanceId] = true

		for _, intAgg := range aggregations {
"""),("healthd/healthd.go","""	// map from HostPort to status
""","""	// processes we have data of
	known map[string]bool

	// map from HostPort to status
""")],
 demo=D("healthd",["github.com/gocraft/health","time"],'''	hd := &HealthD{stream: health.NewStream(), retain: time.Hour, hostStatus: map[string]*HostStatus{"a": {HostPort: "a"}}, hostAggregations: map[hostAggregationKey]*health.IntervalAggregation{}, intervalsNeedingRecalculation: map[time.Time]struct{}{}}
	b := time.Now().Truncate(time.Minute)
	answer := func(e ...int64) {
		r := &pollResponse{HostPort: "a", Code: 200}
		r.IntervalDuration = time.Minute
		for i, n := range e {
			a := health.NewIntervalAggregation(b.Add(time.Duration(i) * time.Minute))
			a.SerialNumber = n
			a.Events["e"] = n
			r.IntervalAggregations = append(r.IntervalAggregations, a)
		}
		hd.consumePollResponse(r)
		hd.recalculateIntervals()
	}
	answer(1)
	answer(3, 1)
	if n := hd.intervalAggregations[0].Events["e"]; n != 3 {
		t.Fatal(n)
	}
''')),
dict(id="c35-batches",property="C35",pkg="healthd",hd=True,
 needs="more than 16 hosts, several of which take seconds to answer",
 breaks="Hosts are polled 16 at a time, each batch after the one before, so that slow hosts hold up the others beyond the next poll",
 edits=[("healthd/healthd.go","""			poll(hd.stream, hs.HostPort, responses)
		}(hs)
	}
	wg.Wait()
""","""			poll(hd.stream, hs.HostPort, responses)
		}(hs)
		if n++; n%16 == 0 {
			wg.Wait() // not too many connections at once
		}
	}
	wg.Wait()
"""),("healthd/healthd.go","""	var wg sync.WaitGroup
""","""	var wg sync.WaitGroup
	n := 0
""")],
 demo=D("healthd",["fmt","github.com/gocraft/health","io","net/http","strings","sync","time"],'''	net := &zzNet{f: func(n int, r *http.Request) (*http.Response, error) {
		time.Sleep(2 * time.Second)
		return zzOK("{}"), nil
	}}
	http.DefaultTransport = net
	hd := &HealthD{stream: health.NewStream(), hostStatus: map[string]*HostStatus{}}
	for i := 0; i < 70; i++ {
		hd.hostStatus[fmt.Sprint(i)] = &HostStatus{HostPort: fmt.Sprint(i)}
	}
	c := make(chan *pollResponse, 100)
	go hd.poll(c)
	time.Sleep(time.Second)
	net.mu.Lock()
	defer net.mu.Unlock()
	if net.n != 70 {
		t.Fatal(net.n)
	}
''',NET)),
]
