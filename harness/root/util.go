// Package root holds the harnesses for the main package.
package root

import (
	"math"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// kinds of emission
const (
	kEvent = iota
	kErr
	kTiming
	kGauge
	kComplete
	nKinds
)

// rec is one call of a sink.
type rec struct {
	sink    int
	kind    int
	job     string
	event   string
	err     error
	emitted bool
	nanos   int64
	bits    uint64
	status  health.CompletionStatus
	kvs     map[string]string
}

type recLog struct{ recs []rec }

// recSink records what a sink is given.
type recSink struct {
	id  int
	log *recLog
}

func cp(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	r := make(map[string]string)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *recSink) add(r rec, kvs map[string]string) {
	r.sink = s.id
	r.kvs = cp(kvs)
	s.log.recs = append(s.log.recs, r)
}

func (s *recSink) EmitEvent(job string, event string, kvs map[string]string) {
	s.add(rec{kind: kEvent, job: job, event: event}, kvs)
}
func (s *recSink) EmitEventErr(job string, event string, err error, kvs map[string]string) {
	em := false
	if u, ok := err.(*health.UnmutedError); ok {
		em = u.Emitted
	}
	s.add(rec{kind: kErr, job: job, event: event, err: err, emitted: em}, kvs)
}
func (s *recSink) EmitTiming(job string, event string, nanos int64, kvs map[string]string) {
	s.add(rec{kind: kTiming, job: job, event: event, nanos: nanos}, kvs)
}
func (s *recSink) EmitComplete(job string, status health.CompletionStatus, nanos int64, kvs map[string]string) {
	s.add(rec{kind: kComplete, job: job, status: status, nanos: nanos}, kvs)
}
func (s *recSink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
	s.add(rec{kind: kGauge, job: job, event: event, bits: math.Float64bits(value)}, kvs)
}

const long100 = "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ.0123456789-abcdefghijklmnopqrstuvwxyz-ABCDEFGH"

// name gives an arbitrary name: up to max arbitrary bytes, or a long one with arbitrary ends.
func name(n string, max int) string {
	if zz.Choice(n+".long", 2) == 1 {
		return zz.String(n+".a", 1, 1) + long100 + long100 + long100 + zz.String(n+".z", 1, 1)
	}
	return zz.String(n, 0, max)
}

type textErr struct{ s string }

func (e textErr) Error() string { return e.s }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

// sameBits compares floats by their bits, treating all NaNs alike.
func sameBits(a, b uint64) bool {
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	return a == b || (x != x && y != y)
}

func sameKvs(got, want map[string]string) bool {
	if len(got) != len(want) {
		return false
	}
	for k, v := range want {
		g, ok := got[k]
		if !ok || g != v {
			return false
		}
	}
	return true
}

func f64(bits uint64) float64 { return math.Float64frombits(bits) }

func isNaNBits(b uint64) bool { f := f64(b); return f != f }
