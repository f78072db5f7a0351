package root

import (
	"encoding/json"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// respWriter records a response.
type respWriter struct {
	h      http.Header
	status int
	body   []byte
	extra  int
}

func newResp() *respWriter { return &respWriter{h: http.Header{}} }

func (r *respWriter) Header() http.Header { return r.h }
func (r *respWriter) WriteHeader(s int) {
	if r.status == 0 {
		r.status = s
	} else {
		r.extra++
	}
}
func (r *respWriter) Write(b []byte) (int, error) {
	if r.status == 0 {
		r.status = 200
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

func isJSON(r *respWriter) bool {
	ct := r.h.Get("Content-Type")
	return len(ct) >= 16 && ct[:16] == "application/json"
}

// serveHealth asks for path and gives the response.
func serveHealth(s *health.JsonPollingSink, method, path string) *respWriter {
	rw := newResp()
	s.ServeHTTP(rw, &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}})
	if l := rw.h.Get("Content-Length"); l != "" {
		zz.Assert(l == strconv.Itoa(len(rw.body)), "length of the body")
	}
	return rw
}

// The form of the response as clients know it.
type wireTimer struct {
	Count int64   `json:"count"`
	Sum   int64   `json:"nanos_sum"`
	SumSq float64 `json:"nanos_sum_squares"`
	Min   int64   `json:"nanos_min"`
	Max   int64   `json:"nanos_max"`
}

type wireMaps struct {
	Timers map[string]wireTimer `json:"timers"`
	Gauges map[string]float64   `json:"gauges"`
	Events map[string]int64     `json:"events"`
	Errs   map[string]struct {
		Count int64 `json:"count"`
	} `json:"event_errs"`
}

type wireJob struct {
	wireMaps
	wireTimer
	Success    int64 `json:"count_success"`
	Validation int64 `json:"count_validation_error"`
	Panic      int64 `json:"count_panic"`
	Error      int64 `json:"count_error"`
	Junk       int64 `json:"count_junk"`
}

type wireAgg struct {
	wireMaps
	Start  time.Time          `json:"interval_start"`
	Serial int64              `json:"serial_number"`
	Jobs   map[string]wireJob `json:"jobs"`
}

type wireResponse struct {
	Instance string        `json:"instance_id"`
	Interval time.Duration `json:"interval_duration"`
	Aggs     []wireAgg     `json:"aggregations"`
}

func (t wireTimer) timer() health.TimerAggregation {
	return health.TimerAggregation{Count: t.Count, NanosSum: t.Sum, NanosSumSquares: t.SumSq, NanosMin: t.Min, NanosMax: t.Max}
}

func (m wireMaps) snap() mapsSnap {
	r := mapsSnap{m.Events, map[string]int64{}, map[string][]error{}, map[string]health.TimerAggregation{}, m.Gauges}
	for k, v := range m.Errs {
		r.errs[k] = v.Count
	}
	for k, v := range m.Timers {
		r.timers[k] = v.timer()
	}
	return r
}

func (a wireAgg) snap() *snap {
	r := &snap{mapsSnap: a.wireMaps.snap(), start: a.Start.UnixNano(), serial: a.Serial, jobs: map[string]jobSnap{}}
	for k, j := range a.Jobs {
		r.jobs[k] = jobSnap{j.wireMaps.snap(), j.wireTimer.timer(), [5]int64{j.Success, j.Validation, j.Panic, j.Error, j.Junk}}
	}
	return r
}

// sameWire compares the decoded response with the metrics.
func sameWire(body []byte, id string, d time.Duration, m []*health.IntervalAggregation) {
	var got wireResponse
	err := json.Unmarshal(body, &got)
	zz.Assert(err == nil, "body is valid JSON")
	zz.Assert(got.Instance == id, "instance identifier")
	zz.Assert(got.Interval == d, "interval duration")
	zz.Assert(len(got.Aggs) == len(m), "number of intervals")
	for i := range m {
		a := snapOf(m[i])
		for k := range a.samples {
			a.samples[k] = nil
		}
		for _, j := range a.jobs {
			for k := range j.samples {
				j.samples[k] = nil
			}
		}
		a.same(got.Aggs[i].snap(), "decoded metrics")
	}
}

// C11_body checks the response for arbitrary names.
func C11_body() {
	zz.Bound("names", "job and event 0..2 arbitrary ASCII characters, or text with multi-byte characters; instance identifier likewise 1 ASCII character")
	zz.Bound("content", "1 emission of any kind and a fixed set; nanoseconds 0..9, four gauge values")
	health.Identifier = "host." + zz.ASCII("id", 1, 1)
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	text := func(n string) string {
		if zz.Choice(n+".wide", 2) == 1 {
			return "é\u2028%s<&>\"\\漢"
		}
		return zz.ASCII(n, 0, 2)
	}
	e := em{kind: zz.Choice("kind", nKinds), job: text("job")}
	if e.kind != kComplete {
		e.event = text("event")
	}
	switch e.kind {
	case kTiming, kComplete:
		e.nanos = zz.IntN("nanos", 0, 9)
	case kGauge:
		e.bits = []uint64{0, 0xbff8000000000000, 0x7e37e43c8800759c, 1}[zz.Choice("gauge", 4)]
	}
	id := health.Identifier
	emit(s, e)
	zz.Quiesce()
	m := s.GetMetrics()
	rw := serveHealth(s, "GET", "/health")
	zz.Assert(rw.status == 200 && rw.extra == 0, "status 200")
	zz.Assert(isJSON(rw), "JSON content type")
	sameWire(rw.body, id, time.Minute, m)
	zz.Reach("end")
	zz.Obs("body", string(rw.body))
}

// C11_intervals checks several intervals, each of all kinds.
func C11_intervals() {
	zz.Bound("intervals", "1..3 intervals with all kinds of emissions, numbers of several magnitudes, or none at all")
	zz.Bound("values", "nanoseconds and gauges of both signs and several magnitudes")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	n := zz.Choice("n", 4)
	nanos := []int64{1, -5, 1 << 40, 9007199254740993, -9223372036854775808}[zz.Choice("nanos", 5)]
	for i := 0; i < n; i++ {
		for k := 0; k < nKinds; k++ {
			emit(s, em{kind: k, job: "j%d", event: "e%" + eventNames[k], nanos: nanos + int64(i), bits: 0x4009000000000000 + uint64(i), status: health.CompletionStatus(i)})
		}
		zz.Quiesce()
		time.Sleep(time.Minute)
		zz.Quiesce()
	}
	m := s.GetMetrics()
	zz.Assert(len(m) == n+1 || n == 0, "intervals present")
	rw := serveHealth(s, "GET", "/health")
	zz.Assert(rw.status == 200 && isJSON(rw), "status and type")
	sameWire(rw.body, health.Identifier, time.Minute, m)
	zz.Reach("end")
}

// C11_again asks several times, with emissions and interval edges in between.
func C11_again() {
	zz.Bound("requests", "3 requests, each preceded by 0..1 (thorough 0..2) emissions of different names, and 0..2 elapsed intervals; 1 or 2 intervals retained; one sink, asked beside another")
	keep := time.Duration(1 + zz.Choice("keep", 2))
	s := health.NewJsonPollingSink(time.Minute, keep*time.Minute)
	other := health.NewJsonPollingSink(time.Minute, keep*time.Minute)
	other.EmitGauge("other", "g", 1, nil)
	max := 2
	if zz.Thorough() {
		max = 3
	}
	for i := 0; i < 3; i++ {
		for k, n := 0, zz.Choice("n", max); k < n; k++ {
			if i == 1 {
				s.EmitGauge("j", "g", float64(k), nil)
			} else {
				s.EmitEvent("j", eventNames[i], nil)
			}
		}
		zz.Quiesce()
		m := s.GetMetrics()
		sameWire(serveHealth(s, "GET", "/health").body, health.Identifier, time.Minute, m)
		sameWire(serveHealth(other, "GET", "/health").body, health.Identifier, time.Minute, other.GetMetrics())
		for k, n := 0, zz.Choice("edges", 3); k < n; k++ {
			time.Sleep(time.Minute)
			zz.Quiesce()
		}
	}
	zz.Reach("end")
}

// C11_path asks for arbitrary paths.
func C11_path() {
	zz.Bound("paths", "every path of 0..8 bytes; methods GET and POST")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	s.EmitEvent("j", "e", nil)
	zz.Quiesce()
	p := zz.String("path", 0, 8)
	rw := serveHealth(s, []string{"GET", "POST"}[zz.Choice("method", 2)], p)
	zz.Assert(isJSON(rw), "JSON content type")
	if p == "/health" {
		zz.Assert(rw.status == 200, "status 200")
	} else {
		zz.Assert(rw.status == 404, "status 404")
		var v map[string]string
		zz.Assert(json.Unmarshal(rw.body, &v) == nil && len(v) == 1 && v["error"] != "", "JSON error body")
	}
	zz.Reach("end")
	zz.Obs("status", rw.status)
}
