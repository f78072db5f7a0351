// Package hd holds the harnesses for healthd.
package hd

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/braintree/manners"
	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
	"github.com/gocraft/health/zzverif/zz"
)

// answer is what a monitored host answers.
type answer struct {
	code int
	body string
	fail bool // no connection
	torn bool // the body cannot be read to its end
}

type torn struct{}

func (torn) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

// hosts stands for the network: it answers polls.
type hosts struct {
	mu     sync.Mutex
	answer map[string]func() answer
	polls  map[string]int
	slow   map[string]time.Duration // hosts that answer at once must not do so at the same time
	open   int
}

type body struct {
	io.Reader
	h *hosts
}

func (b *body) Close() error {
	b.h.mu.Lock()
	b.h.open--
	b.h.mu.Unlock()
	return nil
}

func (h *hosts) RoundTrip(r *http.Request) (*http.Response, error) {
	zz.Assert(r.Method == "GET" && r.URL.Path == "/health", "request of a poll")
	name := r.URL.Host
	if d := h.slow[name]; d > 0 {
		t := time.NewTimer(d)
		select {
		case <-t.C:
		case <-r.Context().Done():
			t.Stop()
			return nil, r.Context().Err()
		}
	}
	f := h.answer[name]
	zz.Assert(f != nil, "only monitored hosts are polled")
	a := f()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.polls[name]++
	if a.fail {
		return nil, errors.New("connection refused")
	}
	h.open++
	b := &body{strings.NewReader(a.body), h}
	if a.torn {
		b.Reader = io.MultiReader(b.Reader, torn{})
	}
	return &http.Response{Status: "x", StatusCode: a.code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: b, Request: r}, nil
}

func newHosts() *hosts {
	h := &hosts{answer: map[string]func() answer{}, polls: map[string]int{}, slow: map[string]time.Duration{}}
	http.DefaultTransport = h
	http.DefaultClient = &http.Client{}
	return h
}

// respWriter records a response of healthd.
type respWriter struct {
	h    http.Header
	code int
	b    []byte
}

func (r *respWriter) Header() http.Header { return r.h }
func (r *respWriter) WriteHeader(c int)   { r.code = c }
func (r *respWriter) Write(b []byte) (int, error) {
	r.b = append(r.b, b...)
	return len(b), nil
}

// get asks healthd's API.
func get(path, query string) (int, string) {
	w := &respWriter{h: http.Header{}, code: 200}
	r := &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: query}}
	s := manners.Servers[len(manners.Servers)-1]
	s.Handler.ServeHTTP(w, r)
	if l := w.h.Get("Content-Length"); l != "" {
		zz.Assert(l == strconv.Itoa(len(w.b)), "length of the body")
	}
	return w.code, string(w.b)
}

func start(names ...string) *healthd.HealthD {
	return healthd.StartNewHealthD(names, ":1", health.NewStream())
}

// The formats of healthd's API.
type timerW struct {
	Count      int64
	NanosSum   int64   `json:"nanos_sum"`
	NanosSumSq float64 `json:"nanos_sum_squares"`
	NanosMin   int64   `json:"nanos_min"`
	NanosMax   int64   `json:"nanos_max"`
}

type errW struct {
	Count   int64
	Samples []string `json:"error_samples"`
}

type mapsW struct {
	Timers map[string]*timerW
	Gauges map[string]float64
	Events map[string]int64
	Errs   map[string]*errW `json:"event_errs"`
}

type jobW struct {
	mapsW
	timerW
	CountSuccess         int64 `json:"count_success"`
	CountValidationError int64 `json:"count_validation_error"`
	CountPanic           int64 `json:"count_panic"`
	CountError           int64 `json:"count_error"`
	CountJunk            int64 `json:"count_junk"`
}

type aggW struct {
	Start  time.Time `json:"interval_start"`
	Serial int64     `json:"serial_number"`
	mapsW
	Jobs map[string]*jobW
}

type aggsW struct {
	InstanceId       string        `json:"instance_id"`
	IntervalDuration time.Duration `json:"interval_duration"`
	Aggregations     []*aggW
}

type hostW struct {
	HostPort         string        `json:"host_port"`
	Check            time.Time     `json:"last_check_time"`
	Instance         string        `json:"last_instance_id"`
	IntervalDuration time.Duration `json:"last_interval_duration"`
	Err              string        `json:"last_err"`
	Nanos            int64         `json:"last_nanos"`
	Code             int           `json:"last_code"`
	First            time.Time     `json:"first_successful_response"`
	Last             time.Time     `json:"last_successful_response"`
}

func parse(text string, v interface{}) {
	err := json.Unmarshal([]byte(text), v)
	zz.Assert(err == nil, "response is JSON")
}

func getAggs() *aggsW {
	code, text := get("/healthd/aggregations", "")
	zz.Assert(code == 200, "aggregations are served")
	var a aggsW
	parse(text, &a)
	return &a
}

func getHosts() []hostW {
	code, text := get("/healthd/hosts", "")
	zz.Assert(code == 200, "hosts are served")
	var r struct{ Hosts []hostW }
	parse(text, &r)
	return r.Hosts
}

// encode makes a host's answer with the repository's own types.
func encode(instance string, d time.Duration, aggs ...*health.IntervalAggregation) string {
	r := &health.HealthAggregationsResponse{InstanceId: instance, IntervalDuration: d, IntervalAggregations: aggs}
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	return string(b)
}
