// Package sinks holds the harnesses for the Librato and Bugsnag sinks.
package sinks

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"sync"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// kinds of emission
const (
	kEvent = iota
	kErr
	kTiming
	kGauge
	kComplete
	nKinds
)

type em struct {
	kind   int
	job    string
	event  string
	nanos  int64
	value  float64
	status health.CompletionStatus
}

type textErr struct{ s string }

func (e textErr) Error() string { return e.s }

func emit(s health.Sink, e em) {
	switch e.kind {
	case kEvent:
		s.EmitEvent(e.job, e.event, nil)
	case kErr:
		s.EmitEventErr(e.job, e.event, textErr{"x"}, nil)
	case kTiming:
		s.EmitTiming(e.job, e.event, e.nanos, nil)
	case kGauge:
		s.EmitGauge(e.job, e.event, e.value, nil)
	case kComplete:
		s.EmitComplete(e.job, e.status, e.nanos, nil)
	}
}

// request is one HTTP request as the transport saw it.
type request struct {
	method, url, ctype, user, key string
	body                          string
}

// body is a response body that notes how it is used.
type body struct {
	r      io.Reader
	closed int
}

func (b *body) Read(p []byte) (int, error) { return b.r.Read(p) }
func (b *body) Close() error               { b.closed++; return nil }

type torn struct{}

func (torn) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

// how a request is answered
const (
	answerOK = iota
	answer500
	answerFail
	answerOther
	answerTorn // the body cannot be read to its end
	nAnswers
)

// transport answers requests in the given ways.
type transport struct {
	mu     sync.Mutex
	reqs   []request
	bodies []*body
	how    func(i int) int
	block  chan bool
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	var text []byte
	if r.Body != nil {
		text, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	u, k, _ := r.BasicAuth()
	t.mu.Lock()
	i := len(t.reqs)
	t.reqs = append(t.reqs, request{r.Method, r.URL.String(), r.Header.Get("Content-Type"), u, k, string(text)})
	t.mu.Unlock()
	if t.block != nil {
		<-t.block
	}
	how := answerOK
	if t.how != nil {
		how = t.how(i)
	}
	b := &body{r: strings.NewReader("OK")}
	resp := &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: b, Request: r}
	switch how {
	case answer500:
		resp.Status, resp.StatusCode = "500 Internal Server Error", 500
		b.r = strings.NewReader("oops")
	case answerOther:
		b.r = strings.NewReader("OK\n")
	case answerTorn:
		b.r = io.MultiReader(strings.NewReader("OK"), torn{})
	case answerFail:
		return nil, errors.New("connection refused")
	}
	t.mu.Lock()
	t.bodies = append(t.bodies, b)
	t.mu.Unlock()
	return resp, nil
}

// newTransport takes the place of the network.
func newTransport() *transport {
	t := &transport{}
	http.DefaultTransport = t
	http.DefaultClient = &http.Client{}
	return t
}

// allClosed states that every response body was closed.
func (t *transport) allClosed() {
	for _, b := range t.bodies {
		zz.Assert(b.closed > 0, "every response body is closed")
	}
}
