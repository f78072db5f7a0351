import os
def D(pkg, imports, body, extra=""):
    return "package %s\n\nimport (\n%s\t\"testing\"\n)\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (pkg, "".join('\t"%s"\n' % i for i in imports), extra, body)
NET='''type zzNet struct {
	mu sync.Mutex
	n  int
	f  func(n int, r *http.Request) (*http.Response, error)
}

func (z *zzNet) RoundTrip(r *http.Request) (*http.Response, error) {
	z.mu.Lock()
	defer z.mu.Unlock()
	z.n++
	return z.f(z.n, r)
}

func zzOK(s string) *http.Response {
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(s))}
}
'''
seeds=[
dict(id="c06-idle-empties",property="C06",pkg=".",
 needs="a pause longer than the retention time between two emissions or ticks",
 breaks="After a pause all retained intervals are dropped, though there is room for them",
 edits=[("aggregator.go","""	n := len(a.intervalAggregations)
	if n == a.maxIntervals {
""","""	n := len(a.intervalAggregations)
	if n > 0 && interval.Sub(a.intervalAggregations[n-1].IntervalStart) > a.retain {
		a.intervalAggregations = a.intervalAggregations[:0]
		n = 0
	}
	if n == a.maxIntervals {
""")],
 demo=D("health",[],'''	a := newAggregator(1e9, 5e9)
	setNowMock("2011-09-09T23:36:13Z")
	defer resetNowMock()
	a.EmitEvent("j", "e")
	setNowMock("2011-09-09T23:37:13Z")
	a.EmitEvent("j", "e")
	if len(a.intervalAggregations) != 2 {
		t.Fatal(len(a.intervalAggregations))
	}
''')),
dict(id="c07-live-while-fresh",property="C07",pkg=".",
 needs="a snapshot taken exactly when a new interval has begun and holds nothing yet, and an emission afterwards",
 breaks="An empty current interval is handed out itself, not as a copy",
 edits=[("aggregator.go","""		if intAgg == curAgg {
""","""		if intAgg == curAgg && intAgg.SerialNumber > 0 {
""")],
 demo=D("health",["time"],'''	a := newAggregator(time.Hour, 5*time.Hour)
	m := a.memorySafeIntervals()
	a.EmitEvent("j", "e")
	if len(m[0].Events) != 0 {
		t.Fatal("the snapshot changed")
	}
''')),
dict(id="c10-any-known-sample",property="C10",pkg=".",
 needs="an error that comes back after another one",
 breaks="An error that is among the samples already is not added again, so that the samples are not the latest runs",
 edits=[("interval_aggregation.go","""		n := len(ec.errorSamples)
""","""		n := len(ec.errorSamples)
		if prev := ec.errorSamples[(ec.errorSampleIndex+n-1)%n]; prev == inputErr {
			return // two errors that alternate
		}
""")],
 demo=D("health",["errors","fmt"],'''	var ec ErrorCounter
	a, b := errors.New("a"), errors.New("b")
	for _, e := range []error{a, b, a} {
		ec.incrementAndAddError(e)
	}
	if s := fmt.Sprint(ec.getErrorSamples()); s != "[a b a]" {
		t.Fatal(s)
	}
''')),
dict(id="c11-slash-path",property="C11",pkg=".",
 needs="a request whose path is /health with a trailing slash or in a longer path",
 breaks="Other paths than /health are answered with the metrics",
 edits=[("json_polling_sink_http.go","""	if r.URL.Path == "/health" {
""","""	if path.Clean(r.URL.Path) == "/health" {
"""),("json_polling_sink_http.go","""	"net/http"
	"time"
""","""	"net/http"
	"path"
	"time"
""")],
 demo=D("health",["net/http","net/http/httptest","time"],'''	s := NewJsonPollingSink(time.Minute, time.Hour)
	w := httptest.NewRecorder()
	r, _ := http.NewRequest("GET", "/x/../health/", nil)
	s.ServeHTTP(w, r)
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
''')),
dict(id="c18-key-cache",property="C18",pkg="sinks/librato",
 needs="two pairs of job and event names which give the same text when joined by a dot, such as a.b + c and a + b.c",
 breaks="The second pair is counted under the event name of the first",
 edits=[("sinks/librato/sink.go","""	var key1 bytes.Buffer // event
	var key2 bytes.Buffer // job.event
""","""	cached := job + "." + event + "." + suffix
	if keys, ok := s.keys[cached]; ok {
		return keys[0], keys[1]
	}

	var key1 bytes.Buffer // event
	var key2 bytes.Buffer // job.event
"""),("sinks/librato/sink.go","""	return key1.String(), key2.String()
""","""	if s.keys == nil {
		s.keys = make(map[string][2]string)
	}
	s.keys[cached] = [2]string{key1.String(), key2.String()}
	return key1.String(), key2.String()
"""),("sinks/librato/sink.go","""	counters map[string]int64
}
""","""	counters map[string]int64

	// keys holds the keys of all names seen so far.
	keys map[string][2]string
}
""")],
 demo=D("librato",[],'''	s := &Sink{SanitizationFunc: sanitizeKey}
	s.eventKeys("a.b", "c", "count")
	if k, _ := s.eventKeys("a", "b.c", "count"); k != "b.c.count" {
		t.Fatal(k)
	}
''')),
dict(id="c19-zero-tallies-left",property="C19",pkg="sinks/librato",
 needs="a name counted more than 255 times in one period and no data in the next",
 breaks="Counters are kept when there is no timer or gauge to reset",
 edits=[("sinks/librato/sink.go","""	s.timers = make(map[string]*gauge)
	s.counters = make(map[string]int64)
}

func (s *Sink) send() error {
""","""	if len(s.timers) > 0 {
		s.timers = make(map[string]*gauge)
	}
	for k := range s.counters {
		if s.counters[k] < 1<<8 {
			delete(s.counters, k)
		} else {
			s.counters[k] = 0 // likely to be used again
		}
	}
}

func (s *Sink) send() error {
""")],
 demo=D("librato",["io","net/http","strings","sync"],'''	n := &zzNet{f: func(int, *http.Request) (*http.Response, error) { return zzOK(""), nil }}
	s := &Sink{timers: map[string]*gauge{}, counters: map[string]int64{}, httpClient: &http.Client{Transport: n}}
	for i := 0; i < 1000; i++ {
		s.inc("a")
	}
	s.purge()
	s.purge()
	if n.n != 1 {
		t.Fatal("a period without data makes a request")
	}
''',NET)),
dict(id="c20-same-text-once",property="C20",pkg="sinks/bugsnag",
 needs="two different unmuted errors with the same text and event in succession",
 breaks="Only the first of them is notified",
 edits=[("sinks/bugsnag/sink.go","""PROCESSING_LOOP:
	for {
""","""	var last *cmdEventErr

PROCESSING_LOOP:
	for {
"""),("sinks/bugsnag/sink.go","""		case cmd := <-cmdChan:
""","""		case cmd := <-cmdChan:
			if last != nil && last.Job == cmd.Job && last.Event == cmd.Event && last.Err.Error() == cmd.Err.Error() {
				continue
			}
			last = cmd
""")],
 demo=D("bugsnag",["errors","github.com/gocraft/health","io","net/http","strings","sync","time"],'''	n := &zzNet{f: func(int, *http.Request) (*http.Response, error) { return zzOK("OK"), nil }}
	http.DefaultTransport = n
	s := health.NewStream()
	s.AddSink(NewSink(&Config{}))
	j := s.NewJob("j")
	j.EventErr("e", errors.New("x"))
	j.EventErr("e", errors.New("x"))
	time.Sleep(500 * time.Millisecond)
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.n != 2 {
		t.Fatal(n.n)
	}
''',NET)),
dict(id="c24-one-per-instance",property="C24",pkg="healthd",hd=True,
 needs="two hosts whose processes have the same instance identifier (such as processes 1 of two containers with the same host name)",
 breaks="Only one of them is counted",
 edits=[("healthd/healthd.go","""		intAggsAtTime := []*health.IntervalAggregation{}
""","""		intAggsAtTime := []*health.IntervalAggregation{}
		instances := map[string]bool{}
"""),("healthd/healthd.go","""			if key.Time == k {
				intAggsAtTime = append(intAggsAtTime, intAgg)
""","""			if key.Time == k && !instances[key.InstanceId] {
				instances[key.InstanceId] = true
				intAggsAtTime = append(intAggsAtTime, intAgg)
""")],
 demo=D("healthd",["github.com/gocraft/health","time"],'''	hd := &HealthD{stream: health.NewStream(), maxIntervals: 9, hostAggregations: map[hostAggregationKey]*health.IntervalAggregation{}, intervalsNeedingRecalculation: map[time.Time]struct{}{}}
	at := time.Unix(600, 0)
	for _, h := range []string{"a", "b"} {
		ia := health.NewIntervalAggregation(at)
		ia.Events["e"] = 1
		hd.hostAggregations[hostAggregationKey{at, "1", h}] = ia
	}
	hd.intervalsNeedingRecalculation[at] = struct{}{}
	hd.recalculateIntervals()
	if n := hd.intervalAggregations[0].Events["e"]; n != 2 {
		t.Fatal(n)
	}
''')),
dict(id="c25-rounds-up",property="C25",pkg="healthd",hd=True,
 needs="an interval duration which does not divide the two hours of retention, such as 7 minutes",
 breaks="One interval more than fits the retention time is kept",
 edits=[("healthd/healthd.go","""			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
""","""			hd.maxIntervals = int((hd.retain + hd.intervalDuration - 1) / hd.intervalDuration)
""")],
 demo=D("healthd",["github.com/gocraft/health","time"],'''	hd := &HealthD{stream: health.NewStream(), retain: 2 * time.Hour, hostAggregations: map[hostAggregationKey]*health.IntervalAggregation{}, intervalsNeedingRecalculation: map[time.Time]struct{}{}}
	r := &pollResponse{HostPort: "a", Code: 200}
	r.IntervalDuration = 7 * time.Minute
	for i := 0; i < 30; i++ {
		r.IntervalAggregations = append(r.IntervalAggregations, health.NewIntervalAggregation(time.Unix(int64(i)*420, 0)))
	}
	hd.consumePollResponse(r)
	hd.recalculateIntervals()
	if n := len(hd.intervalAggregations); n != 17 {
		t.Fatal(n)
	}
''')),
dict(id="c29-sleeps-always",property="C29",pkg="healthd",hd=True,
 needs="a burst of more requests than sleep steps fit the threshold",
 breaks="The debouncer takes one request per sleep step, so that those of one burst cause further firings",
 edits=[("healthd/debouncer.go","""		default:
			// This sleep time is the max error that we'll be off by.
			time.Sleep(sleepTime)
		}
""","""		default:
		}
		// This sleep time is the max error that we'll be off by.
		time.Sleep(sleepTime)
""")],
 demo=D("healthd",["time"],'''	out, in := make(chan struct{}, 9), make(chan struct{}, 64)
	for i := 0; i < 40; i++ {
		in <- struct{}{}
	}
	go debouncer(out, in, 300*time.Millisecond, 40*time.Millisecond)
	time.Sleep(2 * time.Second)
	if len(out) != 1 {
		t.Fatal(len(out))
	}
''')),
dict(id="c34-same-length-skipped",property="C34",pkg="healthd",hd=True,
 needs="a host whose answer changes without changing its length, such as a count that goes from 1 to 2",
 breaks="An answer as long as the host's last one is taken for unchanged, and its data are dropped",
 edits=[("healthd/poll.go","""	if err := json.Unmarshal(body, &response.HealthAggregationsResponse); err != nil {
""","""	if n, ok := lastLength.Swap(hostPort, len(body)); ok && n == len(body) {
		// Nothing new. Decode the small part that we need for the status.
		if i := bytes.Index(body, []byte(`"aggregations"`)); i > 0 {
			body = append(bytes.TrimRight(body[:i], ", \\t\\n"), '}')
		}
	}

	if err := json.Unmarshal(body, &response.HealthAggregationsResponse); err != nil {
"""),("healthd/poll.go","""// poll checks a server
""","""// lastLength holds the length of each host's last answer.
var lastLength sync.Map

// poll checks a server
"""),("healthd/poll.go","""import (
""","""import (
	"bytes"
	"sync"

""")],
 demo=D("healthd",["github.com/gocraft/health","net/http","net/http/httptest","strings","time"],'''	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	srv := httptest.NewServer(http.HandlerFunc(s.ServeHTTP))
	defer srv.Close()
	c := make(chan *pollResponse, 1)
	for i := int64(1); i < 4; i++ {
		s.EmitEvent("j", "e", nil)
		time.Sleep(50 * time.Millisecond)
		poll(health.NewStream(), strings.TrimPrefix(srv.URL, "http://"), c)
		if r := <-c; r.Err != nil || len(r.IntervalAggregations) == 0 || r.IntervalAggregations[len(r.IntervalAggregations)-1].Events["e"] != i {
			t.Fatal(r.Err, i)
		}
	}
''')),
dict(id="c35-slots-leak",property="C35",pkg="healthd",hd=True,
 needs="64 polls that fail to connect, over time or at once",
 breaks="Every poll that cannot connect keeps one of 64 slots, and when none is left no host is polled any more",
 edits=[("healthd/poll.go","""	start := time.Now()

	client""","""	slots <- struct{}{}

	start := time.Now()

	client"""),("healthd/poll.go","""	defer resp.Body.Close()
	body, err = ioutil.ReadAll(resp.Body)
""","""	defer resp.Body.Close()
	body, err = ioutil.ReadAll(resp.Body)
	<-slots
"""),("healthd/poll.go","""// poll checks a server
""","""// slots limits the number of open connections.
var slots = make(chan struct{}, 64)

// poll checks a server
""")],
 demo=D("healthd",["errors","github.com/gocraft/health","io","net/http","strings","sync","time"],'''	n := &zzNet{f: func(int, *http.Request) (*http.Response, error) { return nil, errors.New("refused") }}
	http.DefaultTransport = n
	done := make(chan bool)
	go func() {
		c := make(chan *pollResponse, 1)
		for i := 0; i < 100; i++ {
			poll(health.NewStream(), "a", c)
			<-c
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("no host is polled any more")
	}
''',NET)),
]
