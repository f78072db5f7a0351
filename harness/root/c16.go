package root

import (
	"strconv"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// chunks records the writes made to it.
type chunks struct{ w []string }

func (c *chunks) Write(b []byte) (int, error) {
	c.w = append(c.w, string(b))
	return len(b), nil
}

func emitKv(s health.Sink, e em, kvs map[string]string) {
	switch e.kind {
	case kEvent:
		s.EmitEvent(e.job, e.event, kvs)
	case kErr:
		s.EmitEventErr(e.job, e.event, e.err, kvs)
	case kTiming:
		s.EmitTiming(e.job, e.event, e.nanos, kvs)
	case kGauge:
		s.EmitGauge(e.job, e.event, f64(e.bits), kvs)
	case kComplete:
		s.EmitComplete(e.job, e.status, e.nanos, kvs)
	}
}

// kvp is one key with its value.
type kvp struct{ k, v string }

// anyKvs gives no map or one with up to n arbitrary entries, and its entries sorted by key.
func anyKvs(tag string, n int) (map[string]string, []kvp) {
	c := zz.Choice(tag+".n", n+2)
	if c == 0 {
		return nil, nil
	}
	m := map[string]string{}
	l := []kvp{}
	for i := 1; i < c; i++ {
		x := kvp{zz.String(tag+".key", 1, 1), zz.String(tag+".value", 1, 1)}
		m[x.k] = x.v
		p := 0
		for p < len(l) && l[p].k < x.k {
			p++
		}
		if p < len(l) && l[p].k == x.k {
			l[p].v = x.v
		} else {
			l = append(l, kvp{})
			copy(l[p+1:], l[p:])
			l[p] = x
		}
	}
	return m, l
}

func nanosText(n int64) string {
	if n > 2000000 {
		return strconv.FormatInt(n/1000000, 10) + " ms"
	}
	if n > 2000 {
		return strconv.FormatInt(n/1000, 10) + " μs"
	}
	return strconv.FormatInt(n, 10) + " ns"
}

var statusNames = []string{"success", "validation_error", "panic", "error", "junk"}

// logLine is the expected line.
func logLine(e em, m map[string]string, l []kvp) string {
	s := "[" + time.Now().UTC().Format("2006-01-02T15:04:05.999999999Z07:00") + "]: job:" + e.job
	switch e.kind {
	case kEvent:
		s += " event:" + e.event
	case kErr:
		s += " event:" + e.event + " err:" + e.err.Error()
	case kTiming:
		s += " event:" + e.event + " time:" + nanosText(e.nanos)
	case kGauge:
		s += " event:" + e.event + " gauge:" + strconv.FormatFloat(f64(e.bits), 'g', -1, 64)
	case kComplete:
		s += " status:" + statusNames[e.status] + " time:" + nanosText(e.nanos)
	}
	if m != nil {
		s += " kvs:["
		for i, x := range l {
			if i > 0 {
				s += " "
			}
			s += x.k + ":" + x.v
		}
		s += "]"
	}
	return s + "\n"
}

// someTime goes to one of a few instants, with a local time zone that is not UTC.
func someTime(all bool) {
	n := 2
	if all {
		n = 5
	}
	time.Local = time.FixedZone("ZZ", 2*3600)
	time.Sleep([]time.Duration{100 * time.Millisecond, 22*time.Hour + 59*time.Minute + 59*time.Second + 999999999, 0, 1, 400 * 24 * time.Hour}[zz.Choice("time", n)])
}

// C16_line makes one emission with arbitrary contents.
func C16_line() {
	zz.Bound("texts", "job, event and error text 0..1 (thorough 0..2) arbitrary bytes")
	zz.Bound("values", "any int64 nanoseconds, any float64 gauge (its printed form taken as a function of the value), the five statuses")
	zz.Bound("time", "five instants (two for timings, gauges and completions), local time zone two hours off UTC")
	max := 1
	if zz.Thorough() {
		max = 2
	}
	e := em{kind: zz.Choice("kind", nKinds), job: zz.String("job", 0, max), nanos: 1}
	someTime(e.kind < kTiming)
	c := &chunks{}
	s := &health.WriterSink{Writer: c}
	if e.kind != kComplete {
		e.event = zz.String("event", 0, max)
	}
	switch e.kind {
	case kErr:
		e.err = textErr{zz.String("text", 0, max)}
	case kTiming:
		e.nanos = zz.Int64("nanos")
	case kGauge:
		e.bits = zz.Uint64("gauge")
	case kComplete:
		e.nanos = zz.Int64("nanos")
		e.status = health.CompletionStatus(zz.Choice("status", 5))
	}
	kvs, l := map[string]string(nil), []kvp(nil)
	if zz.Choice("kvs", 2) == 1 {
		l = []kvp{{zz.String("key", 1, 1), "v"}}
		kvs = map[string]string{l[0].k: "v"}
	}
	emitKv(s, e, kvs)
	zz.Assert(len(c.w) == 1, "exactly one write")
	zz.Assert(c.w[0] == logLine(e, kvs, l), "the line")
	zz.Reach("end")
	if e.kind != kGauge {
		zz.Obs("line", c.w[0])
	}
}

// C16_kvs uses larger key/value maps in every iteration order.
func C16_kvs() {
	zz.Bound("key/values", "no map or 0..3 entries with arbitrary 1-byte keys and values, every iteration order of the map, all five kinds")
	c := &chunks{}
	s := &health.WriterSink{Writer: c}
	e := em{kind: zz.Choice("kind", nKinds), job: "j", event: "e", err: textErr{"x"}, nanos: 5}
	kvs, l := anyKvs("kv", 3)
	zz.MapOrder(true)
	emitKv(s, e, kvs)
	zz.MapOrder(false)
	zz.Assert(len(c.w) == 1 && c.w[0] == logLine(e, kvs, l), "the line")
	zz.Reach("end")
	zz.Obs("line", c.w[0])
}

// C16_longkeys sorts keys of which some are prefixes of others.
func C16_longkeys() {
	zz.Bound("long keys", "two keys of 0..3 arbitrary bytes")
	c := &chunks{}
	s := &health.WriterSink{Writer: c}
	a, b := zz.String("a", 0, 3), zz.String("b", 0, 3)
	zz.Assume(a < b)
	zz.MapOrder(true)
	s.EmitEvent("j", "e", map[string]string{b: "2", a: "1"})
	zz.Assert(len(c.w) == 1 && c.w[0] == logLine(em{kind: kEvent, job: "j", event: "e"}, map[string]string{}, []kvp{{a, "1"}, {b, "2"}}), "the line")
	zz.Reach("end")
}

// C16_history makes several emissions through one sink.
func C16_history() {
	n := 3
	if zz.Thorough() {
		n = 4
	}
	zz.Bound("history", "3 (thorough 4) emissions of any kinds with texts and numbers of different lengths, time passing in between")
	c := &chunks{}
	s := &health.WriterSink{Writer: c}
	want := []string{}
	for i := 0; i < n; i++ {
		k := zz.Choice("size", 2)
		e := em{kind: zz.Choice("kind", nKinds), job: []string{"a long job name", "j"}[k], event: []string{"e", "an event"}[k],
			nanos: []int64{999999999999, 7}[k], bits: []uint64{0x40c81cd6e631f8a1, 0x3ff0000000000000}[k], err: textErr{"x"}}
		kvs, l := map[string]string(nil), []kvp(nil)
		if zz.Choice("kvs", 2) == 1 {
			x := kvp{"k", zz.String("value", 1, 1)}
			kvs, l = map[string]string{x.k: x.v}, []kvp{x}
		}
		emitKv(s, e, kvs)
		want = append(want, logLine(e, kvs, l))
		time.Sleep(333 * time.Millisecond)
	}
	zz.Assert(len(c.w) == n, "one write each")
	for i := range want {
		zz.Assert(c.w[i] == want[i], "the lines")
	}
	zz.Reach("end")
}

// chanWriter passes every write on through a channel.
type chanWriter struct{ c chan string }

func (w chanWriter) Write(b []byte) (int, error) {
	w.c <- string(b)
	return len(b), nil
}

// C16_concurrent emits from two goroutines.
func C16_concurrent() {
	zz.Bound("concurrency", "two goroutines with one emission each, of the same kind or an event or error after any kind, arbitrary 1-byte names, key/values with two entries or none; every interleaving of the synchronisation operations within the bound, data races by happens-before")
	w := chanWriter{make(chan string, 4)}
	s := &health.WriterSink{Writer: w}
	concurrent(s, w, func(e em, m map[string]string, l []kvp) string { return logLine(e, m, l) })
	zz.Reach("end")
}

func concurrent(s health.Sink, w chanWriter, line func(em, map[string]string, []kvp) string) {
	var es [2]em
	var want [2]string
	kvs := map[string]string(nil)
	l := []kvp(nil)
	if zz.Choice("kvs", 2) == 1 {
		kvs, l = map[string]string{"b": "2", "a": "1"}, []kvp{{"a", "1"}, {"b", "2"}}
	}
	kind := 0
	for i := range es {
		if i == 0 || zz.Choice("same", 2) == 0 {
			kind = zz.Choice("kind", nKinds-3*i)
		}
		es[i] = em{kind: kind, job: zz.ASCII("job", 1, 1), event: "e", err: textErr{"x"}, nanos: int64(i), bits: 0x3ff0000000000000}
		want[i] = line(es[i], kvs, l)
	}
	done := make(chan bool, 2)
	zz.DetectRaces()
	zz.ExploreSchedules(10, 2)
	for i := range es {
		e := es[i]
		go func() {
			emitKv(s, e, kvs)
			done <- true
		}()
	}
	<-done
	<-done
	zz.StopExploring()
	zz.Assert(len(w.c) == 2, "one write each")
	a, b := <-w.c, <-w.c
	zz.Assert(a == want[0] && b == want[1] || a == want[1] && b == want[0], "both lines whole")
}
