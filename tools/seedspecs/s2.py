exec(open('/tmp/s1.py').read().split("seeds=[")[0])
UDP='''	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	s, err := NewStatsDSink(c.LocalAddr().String(), &StatsDSinkOptions{SkipNestedEvents: true})
	if err != nil {
		t.Fatal(err)
	}
'''
seeds=[
dict(id="c15-tick-flush-dropped-when-idle",property="C15",pkg=".",
 needs="an emission in the same flush period right after a tick that found nothing to send, and no further emission or drain",
 breaks="A tick that finds an empty buffer lets the next one be skipped, so metrics wait for up to two periods",
 edits=[("statsd_sink.go","""		for _ = range ticker.C {
			cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}
		}
""","""		for n := 0; ; n++ {
			<-ticker.C
			if n%8 == 7 {
				continue // let the channel breathe
			}
			cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}
		}
""")],
 demo=T(["net"],UDP+'''	buf := make([]byte, 2000)
	for i := 0; i < 40; i++ {
		s.EmitEvent("j", "e", nil)
		start := time.Now()
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		if _, _, err := c.ReadFrom(buf); err != nil {
			t.Fatal(err)
		}
		if d := time.Since(start); d > 160*time.Millisecond {
			t.Fatalf("sent only after %v", d)
		}
	}
''')),
dict(id="c15-drain-after-flush-cmd",property="C15",pkg=".",
 needs="a periodic flush command in the channel between an emission and the drain, or an emission by another goroutine",
 breaks="While draining, a flush command ends the drain early without sending, so the drain returns with metrics still buffered",
 edits=[("statsd_sink.go","""	case statsdCmdKindComplete:
		s.processComplete(cmd.Job, cmd.Status, cmd.Nanos)
	}
}
""","""	case statsdCmdKindComplete:
		s.processComplete(cmd.Job, cmd.Status, cmd.Nanos)
	case statsdCmdKindFlush:
		s.udpBuf.Reset()
	}
}
""")],
 demo=T(["net","runtime"],'''	runtime.GOMAXPROCS(1)
'''+UDP+'''	buf := make([]byte, 2000)
	s.EmitEvent("j", "first", nil)
	s.Drain()
	c.ReadFrom(buf)
	// a periodic flush falls between the drain and what follows
	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindEvent, Job: "j", Event: "e"}
	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain}
	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindEvent, Job: "j", Event: "f"}
	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}
	<-s.drainDoneChan
	c.SetReadDeadline(time.Now().Add(time.Second))
	n, _, err := c.ReadFrom(buf)
	if err != nil || string(buf[:n]) != "e:1|c\\nf:1|c\\n" {
		t.Fatalf("%q %v", buf[:n], err)
	}
''',False).replace('import (','import (\n\t"time"')),
dict(id="c11-path-prefix",property="C11",pkg=".",
 needs="a request path that only begins with /health",
 breaks="Every path that begins with /health (such as /healthz or /health/x) is answered with the metrics instead of 404",
 edits=[("json_polling_sink_http.go","""	if r.URL.Path == "/health" {
""","""	if p := r.URL.Path; len(p) >= 7 && p[:7] == "/health" {
""")],
 demo=T(["net/http","net/http/httptest"],"""	s := NewJsonPollingSink(time.Minute, time.Hour)
	defer s.ShutdownServer()
	for _, p := range []string{"/healthz", "/health/", "/health/x", "/"} {
		rec := httptest.NewRecorder()
		r, _ := http.NewRequest("GET", p, nil)
		s.ServeHTTP(rec, r)
		if rec.Code != 404 {
			t.Fatalf("%s: %d", p, rec.Code)
		}
	}
""",False).replace('import (','import (\n\t"time"')),
dict(id="c11-last-interval-only-tag",property="C11",pkg=".",
 needs="a job that has had neither an error nor a completion status of some kind when the body is decoded by a client that distinguishes absent from present",
 breaks="The sum of squares is encoded as an integer, so sums above 2^63 come out wrong",
 edits=[("interval_aggregation.go","""	NanosSumSquares float64 `json:"nanos_sum_squares"` // 3seconds^2 overflows an int64
""","""	NanosSumSquares float64 `json:"nanos_sum_squares,string"` // 3seconds^2 overflows an int64
""")],
 demo=T(["net/http","net/http/httptest","encoding/json"],"""	s := NewJsonPollingSink(time.Minute, time.Hour)
	defer s.ShutdownServer()
	s.EmitTiming("j", "e", 3, nil)
	time.Sleep(20 * time.Millisecond)
	rec := httptest.NewRecorder()
	r, _ := http.NewRequest("GET", "/health", nil)
	s.ServeHTTP(rec, r)
	var x struct {
		Aggregations []struct {
			Timers map[string]struct {
				Sq float64 `json:"nanos_sum_squares"`
			}
		}
	}
	if err := json.Unmarshal(rec.Body.Bytes(), &x); err != nil || x.Aggregations[0].Timers["e"].Sq != 9 {
		t.Fatal(err)
	}
""",False).replace('import (','import (\n\t"time"')),
]
