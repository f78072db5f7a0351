import os
_s = open("/verif/tools/seedspecs/s7.py").read() if os.path.exists("/verif/tools/seedspecs/s7.py") else ""
exec(_s[:_s.index("seeds=[")])
HDNEW='hd := &HealthD{stream: health.NewStream(), retain: time.Hour, hostStatus: map[string]*HostStatus{}, hostAggregations: map[hostAggregationKey]*health.IntervalAggregation{}, intervalsNeedingRecalculation: map[time.Time]struct{}{}}'
seeds=[
dict(id="c06-aligned-to-epoch",property="C06",pkg=".",
 needs="an interval duration that does not divide a day, as 7 s",
 breaks="Intervals are aligned to 1970 instead of the zero time, so that they do not start at the time rounded down",
 edits=[("aggregator.go","""	intervalStart := now().Truncate(a.intervalDuration)
""","""	t := now()
	intervalStart := time.Unix(0, t.UnixNano()-t.UnixNano()%int64(a.intervalDuration))
""")],
 demo=D("health",["time"],"""	a := newAggregator(7*time.Second, time.Hour)
	for {
		before := time.Now()
		s := a.getIntervalAggregation().IntervalStart
		if after := time.Now(); before.Truncate(7*time.Second).Equal(after.Truncate(7*time.Second)) {
			if !s.Equal(after.Truncate(7 * time.Second)) {
				t.Fatal(s)
			}
			return
		}
	}
""")),
dict(id="c11-length-in-characters",property="C11",pkg=".",
 needs="a name with a character of more than one byte",
 breaks="The response's length is given in characters, so that the body is cut short",
 edits=[("json_polling_sink_http.go","""		rw.Write(jsonData)
""","""		rw.Header().Set("Content-Length", fmt.Sprint(len([]rune(string(jsonData)))))
		rw.Write(jsonData)
""")],
 demo=D("health",["encoding/json","io","net/http","net/http/httptest","time"],"""	s := NewJsonPollingSink(time.Hour, time.Hour)
	s.EmitEvent("j", "\\u00e9\\u00e9\\u00e9", nil)
	for len(s.GetMetrics()[0].Events) == 0 {
	}
	srv := httptest.NewServer(s)
	defer srv.Close()
	r, err := http.Get(srv.URL + "/health")
	if err != nil {
		t.Fatal(err)
	}
	b, _ := io.ReadAll(r.Body)
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		t.Fatal(err)
	}
""")),
dict(id="c24-lower-serial-known",property="C24",pkg="healthd",hd=True,
 needs="a process that comes back under the same instance name within an interval",
 breaks="An answer with a lower serial number than the one before is taken for known",
 edits=[("healthd/healthd.go","""			if ok && existingIntAgg.SerialNumber == intAgg.SerialNumber {
""","""			if ok && existingIntAgg.SerialNumber >= intAgg.SerialNumber {
""")],
 demo=D("healthd",["github.com/gocraft/health","time"],"""	"""+HDNEW+"""
	b := time.Now().Truncate(time.Minute)
	for _, serial := range []int64{5, 2} {
		r := &pollResponse{HostPort: "a", Code: 200}
		r.IntervalDuration = time.Minute
		a := health.NewIntervalAggregation(b)
		a.SerialNumber = serial
		a.Events["e"] = serial
		r.IntervalAggregations = append(r.IntervalAggregations, a)
		hd.consumePollResponse(r)
		hd.recalculateIntervals()
		if n := hd.intervalAggregations[0].Events["e"]; n != serial {
			t.Fatal(n)
		}
	}
""")),
dict(id="c25-same-second",property="C25",pkg="healthd",hd=True,
 needs="intervals shorter than a second",
 breaks="Of the intervals that begin in the same second only one is served",
 edits=[("healthd/healthd.go","""		if existingAgg.IntervalStart == intAgg.IntervalStart {
""","""		if existingAgg.IntervalStart.Unix() == intAgg.IntervalStart.Unix() {
""")],
 demo=D("healthd",["github.com/gocraft/health","time"],"""	"""+HDNEW+"""
	hd.maxIntervals = 10
	b := time.Now().Truncate(time.Minute)
	for i := 0; i < 4; i++ {
		hd.setAggregation(health.NewIntervalAggregation(b.Add(time.Duration(i) * 100 * time.Millisecond)))
	}
	if n := len(hd.intervalAggregations); n != 4 {
		t.Fatal(n)
	}
""")),
dict(id="c26-names-without-case",property="C26",pkg="healthd",hd=True,
 needs="job names that begin with capital and small letters",
 breaks="Names are ordered as if all letters were small",
 edits=[("healthd/api.go","""		return j1.Name < j2.Name
""","""		return strings.ToLower(j1.Name) < strings.ToLower(j2.Name)
"""),("healthd/api.go","""	"strconv"
""","""	"strconv"
	"strings"
""")],
 demo=D("healthd",["github.com/gocraft/health","time"],"""	a := health.NewIntervalAggregation(time.Now())
	a.Jobs["a"] = &health.JobAggregation{}
	a.Jobs["B"] = &health.JobAggregation{}
	if js := filterJobs(a, "name", 0); js[0].Name != "B" {
		t.Fatal(js[0].Name)
	}
""")),
dict(id="c14-closed-on-error",property="C14",pkg=".",
 needs="a packet that could not be sent, and later emissions",
 breaks="After a packet could not be sent the connection is closed, so that nothing is sent any more",
 edits=[("statsd_sink.go","""	if s.udpBuf.Len() > 0 {
		s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
""","""	if s.udpBuf.Len() > 0 {
		if _, err := s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr); err != nil {
			s.udpConn.Close()
		}
""")],
 demo=D("health",["net","time"],"""	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s, err := NewStatsDSink(c.LocalAddr().String(), nil)
	if err != nil {
		t.Fatal(err)
	}
	s.udpConn.SetWriteDeadline(time.Now().Add(-time.Second))
	s.EmitEvent("j", "e", nil)
	s.Drain()
	s.udpConn.SetWriteDeadline(time.Time{})
	s.EmitEvent("j", "f", nil)
	s.Drain()
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, _, err := c.ReadFrom(make([]byte, 2000)); err != nil {
		t.Fatal(err)
	}
""")),
dict(id="c20-empty-text",property="C20",pkg="sinks/bugsnag",
 needs="an error whose text is empty",
 breaks="Errors without a text are not notified",
 edits=[("sinks/bugsnag/sink.go","""		if !inputErr.Emitted {
""","""		if !inputErr.Emitted && inputErr.Error() != "" {
""")],
 demo=D("bugsnag",["errors","github.com/gocraft/health","io","net/http","strings","sync","sync/atomic","time"],"""	var seen int32
	http.DefaultTransport = &zzNet{f: func(n int, r *http.Request) (*http.Response, error) {
		atomic.AddInt32(&seen, 1)
		return zzOK("OK"), nil
	}}
	s := health.NewStream().AddSink(NewSink(&Config{Endpoint: "http://x/"}))
	s.EventErr("e", errors.New(""))
	time.Sleep(time.Second)
	if n := atomic.LoadInt32(&seen); n != 1 {
		t.Fatal(n)
	}
""",NET)),
dict(id="c22-at-most-64",property="C22",pkg="stack",
 needs="MaxStackDepth above 64 and a deeper stack",
 breaks="Traces hold at most 64 frames, whatever MaxStackDepth is",
 edits=[("stack/stack.go","""	stack := make([]uintptr, MaxStackDepth)
""","""	depth := MaxStackDepth
	if depth > 64 {
		depth = 64
	}
	stack := make([]uintptr, depth)
""")],
 demo=D("stack",[],"""	MaxStackDepth = 100
	if n := len(zzDeep(90).Frames()); n < 90 {
		t.Fatal(n)
	}
""","""func zzDeep(n int) *Trace {
	if n == 0 {
		return NewTrace(0)
	}
	t := zzDeep(n - 1)
	return t
}
""")),
dict(id="c02-many-call-keys",property="C02",pkg=".",
 needs="a call with 64 or more key/values of its own",
 breaks="A call with many key/values is passed on with these alone",
 edits=[("health.go","""	if kvCount > 1 {
		allKvs = make""","""	if kvCount > 1 && len(instanceKvs) < 64 {
		allKvs = make""")],
 demo=D("health",["fmt"],"""	z := &zzSink{}
	kvs := Kvs{}
	for i := 0; i < 64; i++ {
		kvs[fmt.Sprint(i)] = "x"
	}
	NewStream().AddSink(z).NewJob("j").KeyValue("a", "1").EventKv("e", kvs)
	if z.kvs[0]["a"] != "1" {
		t.Fatal(len(z.kvs[0]))
	}
""",SINK)),
]
