package root

import (
	"encoding/json"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// wireEm is the form of an emission as readers know it.
type wireEm struct {
	Job         *string
	Event       *string
	Status      *string
	Timestamp   string
	Err         *string
	Nanoseconds *int64
	Value       *float64
	Kvs         map[string]string
}

// checkObject compares one written object with the emission.
func checkObject(text string, e em, now time.Time, l []kvp) {
	var got wireEm
	err := json.Unmarshal([]byte(text), &got)
	zz.Assert(err == nil, "one JSON object")
	zz.Assert(got.Job != nil && *got.Job == e.job, "job")
	if e.kind == kComplete {
		zz.Assert(got.Status != nil && *got.Status == statusNames[e.status] && got.Event == nil, "status")
	} else {
		zz.Assert(got.Event != nil && *got.Event == e.event && got.Status == nil, "event")
	}
	ts, err := time.Parse(time.RFC3339Nano, got.Timestamp)
	zz.Assert(err == nil && ts.Equal(now), "timestamp is the current time")
	zz.Assert(got.Timestamp[len(got.Timestamp)-1] == 'Z', "timestamp in UTC")
	zz.Assert((got.Err != nil) == (e.kind == kErr), "error text only for errors")
	if e.kind == kErr {
		zz.Assert(*got.Err == e.err.Error(), "error text")
	}
	timed := e.kind == kTiming || e.kind == kComplete
	zz.Assert((got.Nanoseconds != nil) == timed, "nanoseconds only where applicable")
	if timed {
		zz.Assert(*got.Nanoseconds == e.nanos, "nanoseconds")
	}
	zz.Assert((got.Value != nil) == (e.kind == kGauge), "gauge value only for gauges")
	if e.kind == kGauge {
		zz.Assert(*got.Value == f64(e.bits), "gauge value")
	}
	zz.Assert(len(got.Kvs) == len(l), "number of key/values")
	for _, x := range l {
		v, ok := got.Kvs[x.k]
		zz.Assert(ok && v == x.v, "key/values")
	}
}

func wideText(n string, max int) string {
	if zz.Choice(n+".wide", 2) == 1 {
		return "é\u2028%s<&>\"\\漢\x7f\x00"
	}
	return zz.ASCII(n, 0, max)
}

// C17_object makes one emission with arbitrary contents.
func C17_object() {
	max := 1
	if zz.Thorough() {
		max = 2
	}
	zz.Bound("texts", "job, event and error text 0..1 (thorough 0..2) arbitrary ASCII characters or text with multi-byte and special characters")
	zz.Bound("values", "nanoseconds of several magnitudes, four gauges, the five statuses")
	zz.Bound("time", "five instants, local time zone two hours off UTC")
	someTime(true)
	c := &chunks{}
	s := &health.JsonWriterSink{Writer: c}
	e := em{kind: zz.Choice("kind", nKinds), job: wideText("job", max)}
	if e.kind != kComplete {
		e.event = wideText("event", max)
	}
	switch e.kind {
	case kErr:
		e.err = textErr{wideText("text", max)}
	case kGauge:
		e.bits = []uint64{0, 0xbff8000000000000, 0x7e37e43c8800759c, 1}[zz.Choice("gauge", 4)]
	case kTiming, kComplete:
		e.nanos = []int64{0, -1, 123, 9007199254740993, 9223372036854775807}[zz.Choice("nanos", 5)]
		if e.kind == kComplete {
			e.status = health.CompletionStatus(zz.Choice("status", 5))
		}
	}
	var kvs map[string]string
	var l []kvp
	if zz.Choice("kvs", 2) == 1 {
		kvs, l = map[string]string{"k": "v"}, []kvp{{"k", "v"}}
	}
	emitKv(s, e, kvs)
	zz.Assert(len(c.w) == 1, "exactly one write")
	checkObject(c.w[0], e, time.Now(), l)
	zz.Reach("end")
	zz.Obs("text", c.w[0])
}

// C17_numbers uses arbitrary nanoseconds.
func C17_numbers() {
	zz.Bound("numbers", "timings and completions with any int64 nanoseconds, gauges with any finite float64 (its printed form taken as a function of the value)")
	c := &chunks{}
	s := &health.JsonWriterSink{Writer: c}
	e := em{kind: []int{kTiming, kComplete, kGauge}[zz.Choice("kind", 3)], job: "j", event: "e"}
	if e.kind == kGauge {
		e.bits = zz.Uint64("gauge")
		v := f64(e.bits)
		zz.Assume(v-v == 0)
	} else {
		e.nanos = zz.Int64("nanos")
	}
	emitKv(s, e, nil)
	zz.Assert(len(c.w) == 1, "exactly one write")
	checkObject(c.w[0], e, time.Now(), nil)
	zz.Reach("end")
}

// C17_kvs uses key/value maps.
func C17_kvs() {
	zz.Bound("key/values", "no map or 0..2 (thorough 3) entries with arbitrary 1-character ASCII keys and values or multi-byte ones, all five kinds")
	n := 2
	if zz.Thorough() {
		n = 3
	}
	c := &chunks{}
	s := &health.JsonWriterSink{Writer: c}
	e := em{kind: zz.Choice("kind", nKinds), job: "j", event: "e", err: &ptrErr{"x"}, nanos: 5}
	var kvs map[string]string
	var l []kvp
	if k := zz.Choice("n", n+2); k > 0 {
		kvs = map[string]string{}
		for i := 1; i < k; i++ {
			x := kvp{zz.ASCII("key", 1, 1), zz.ASCII("value", 1, 1)}
			if _, ok := kvs[x.k]; ok {
				zz.Assume(false)
			}
			kvs[x.k] = x.v
			l = append(l, x)
		}
	}
	emitKv(s, e, kvs)
	zz.Assert(len(c.w) == 1, "exactly one write")
	checkObject(c.w[0], e, time.Now(), l)
	zz.Reach("end")
}

// C17_history makes several emissions through one sink.
func C17_history() {
	zz.Bound("history", "3 emissions of any kinds with texts and numbers of different lengths, time passing in between")
	c := &chunks{}
	s := &health.JsonWriterSink{Writer: c}
	var es []em
	var ls [][]kvp
	var ts []time.Time
	for i := 0; i < 3; i++ {
		k := zz.Choice("size", 2)
		e := em{kind: zz.Choice("kind", nKinds), job: []string{"a long job name", "j"}[k], event: []string{"e", "an event"}[k],
			nanos: []int64{999999999999, 7}[k], bits: []uint64{0x40c81cd6e631f8a1, 0x3ff0000000000000}[k], err: textErr{"x"}}
		kvs, l := map[string]string(nil), []kvp(nil)
		if zz.Choice("kvs", 2) == 1 {
			x := kvp{"k", eventNames[i]}
			kvs, l = map[string]string{x.k: x.v}, []kvp{x}
		}
		emitKv(s, e, kvs)
		es, ls, ts = append(es, e), append(ls, l), append(ts, time.Now())
		time.Sleep(333 * time.Millisecond)
	}
	zz.Assert(len(c.w) == 3, "one write each")
	for i := range es {
		checkObject(c.w[i], es[i], ts[i], ls[i])
	}
	zz.Reach("end")
}

// C17_concurrent emits from two goroutines.
func C17_concurrent() {
	zz.Bound("concurrency", "two goroutines with one emission each, of the same kind or an event or error after any kind, key/values with two entries or none; every interleaving of the synchronisation operations within the bound, data races by happens-before")
	w := chanWriter{make(chan string, 4)}
	s := &health.JsonWriterSink{Writer: w}
	concurrent(s, w, func(e em, m map[string]string, l []kvp) string {
		c := &chunks{}
		emitKv(&health.JsonWriterSink{Writer: c}, e, m)
		return c.w[0]
	})
	zz.Reach("end")
}
