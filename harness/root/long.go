package root

import (
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

const oddText = "é\u2028%s<&>\"\\漢\x7f\x00\\u0026\\u003c\\n&amp;%2F😀 'x'\t\r\n"

// alike gives texts that are easily taken for one another.
func alike() []string {
	long := strings.Repeat(long100, 50)
	return []string{
		"name", "Name", " name", "name ", "name\n", "na me", "na-me", "na.me", "na_me", "na:me", "na/me", "na\x00me", "name\x00",
		"é", "e\u0301", "É", "\xe9", "\xff", "\xfe", "\ufffd", "1", "01", "", " ", "general", "nil", "<nil>", "%d", "%s",
		long, long + "a", long + "b", long[:256], long[:255], long[:257], oddText, "0a1", "_name", "__name__", "Overall",
	}
}

// texts gives concrete texts of many lengths and with unusual characters.
func texts() []string {
	long := strings.Repeat(long100, 701)
	return []string{"n", "", " ", "\n", "%", "a:b c\td|e@f#g[h]i{j}k", oddText, strings.Repeat("é漢😀", 20), long[:127], long[:129], long[:256], long[:1025], long[:4097], long[:8193], long[:65537], long}
}

// C01_texts emits with many concrete texts.
func C01_texts() {
	zz.Bound("texts", "job, event, key, value and error text: each out of 16 texts of 0..70100 bytes with unusual characters, one at a time")
	ts := texts()
	t := ts[zz.Choice("text", len(ts))]
	log := &recLog{}
	s := health.NewStream().AddSink(&recSink{0, log}).AddSink(&recSink{1, log})
	var jn, k, v = "j", "k", "v"
	switch zz.Choice("where", 4) {
	case 0:
		jn = t
	case 1:
		k = t
	case 2:
		v = t
	}
	j := s.NewJob(jn)
	kvs := map[string]string{k: v}
	ids := []int{0, 1}
	want := rec{job: jn, event: t, kvs: kvs}
	step := func(kind int, f func()) {
		n := len(log.recs)
		f()
		want.kind = kind
		checkFanOut(log, n, ids, want)
	}
	step(kEvent, func() { j.EventKv(t, kvs) })
	step(kErr, func() {
		want.err = j.EventErrKv(t, textErr{t}, kvs)
		zz.Assert(want.err.Error() == t, "text of the returned error")
	})
	want.nanos = 5
	step(kTiming, func() { j.TimingKv(t, 5, kvs) })
	want.nanos, want.bits = 0, 0x4014000000000000
	step(kGauge, func() { j.GaugeKv(t, 5, kvs) })
	want.event, want.bits = "", 0
	step(kComplete, func() { j.CompleteKv(health.Success, kvs) })
	zz.Reach("end")
}

// C02_texts merges key/values whose keys are easily taken for one another.
func C02_texts() {
	zz.Bound("texts", "stream, job and call each with one key out of 40 texts that are easily taken for one another, or the same one")
	ts := alike()
	a := ts[zz.Choice("a", len(ts))]
	b := ts[zz.Choice("b", len(ts))]
	log := &recLog{}
	s := health.NewStream().AddSink(&recSink{0, log})
	s.KeyValue(a, "stream")
	j := s.NewJob("j")
	j.KeyValue(b, "job "+b)
	c := []string{a, b}[zz.Choice("c", 2)]
	j.EventKv("e", map[string]string{c: "call"})
	want := put(put(put(nil, a, "stream"), b, "job "+b), c, "call")
	zz.Assert(isExactly(log.recs[0].kvs, want), "sinks receive the union, call over job over stream")
	s.Event("e")
	zz.Assert(isExactly(log.recs[1].kvs, put(nil, a, "stream")), "the stream's own emissions have only the stream's key/values")
	zz.Reach("end")
}

// C05_texts emits under names that are easily taken for one another.
func C05_texts() {
	zz.Bound("texts", "emissions of all kinds under every one of 40 names that are easily taken for one another, as job, as event or as both, in one interval")
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	ts := alike()
	where := zz.Choice("where", 3)
	kind := zz.Choice("kind", nKinds)
	var ems []em
	for i, t := range ts {
		for n := 0; n <= i%2; n++ {
			e := em{kind: kind, job: "j", event: "e", nanos: int64(i), bits: uint64(i)}
			if where != 1 {
				e.job = t
			}
			if where != 0 {
				e.event = t
			}
			if kind == kComplete {
				e.event = ""
			}
			ems = append(ems, e)
			emit(s, e)
		}
	}
	zz.Quiesce()
	checkAgg(s.GetMetrics()[0], ems)
	zz.Reach("end")
}

// C09_texts merges aggregations under names that are easily taken for one another.
func C09_texts() {
	zz.Bound("texts", "two histories of one emission of every kind under each of 40 names, the merged-in one in the opposite order and without every third")
	ts := alike()
	var a, b []em
	kind := zz.Choice("kind", nKinds)
	for i, t := range ts {
		e := em{kind: kind, job: t, event: t, nanos: int64(i), bits: uint64(i)}
		if kind == kComplete {
			e.event = ""
		}
		a = append(a, e)
		if i%3 > 0 {
			e.nanos += 100
			e.bits += 100
			b = append([]em{e}, b...)
		}
	}
	ma, mb := aggOf(a), aggOf(b)
	ma.Merge(mb)
	checkMerged(ma, a, b)
	zz.Reach("end")
}

// C10_texts reports errors whose texts are easily taken for one another.
func C10_texts() {
	zz.Bound("texts", "5 errors with consecutive texts out of 40 that are easily taken for one another or out of 16 of 0..70100 bytes, each once or twice in a row")
	ts := append(alike(), texts()...)
	from := zz.Choice("from", len(ts)-4)
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	var errs []error
	twice := zz.Choice("twice", 2)
	for i := 0; i < 5; i++ {
		for k := 0; k <= twice; k++ {
			e := textErr{ts[from+i]}
			s.EmitEventErr("j", "e", e, nil)
			errs = append(errs, e)
		}
	}
	zz.Quiesce()
	m := s.GetMetrics()[0]
	checkSamples(m.EventErrs["e"], errs, "overall")
	checkSamples(m.Jobs["j"].EventErrs["e"], errs, "job")
	zz.Reach("end")
}

// C11_texts checks the response for many concrete names.
func C11_texts() {
	zz.Bound("texts", "job, event and instance identifier each out of 16 texts of 0..70100 bytes with unusual characters (valid UTF-8); all kinds")
	ts := texts()
	t := ts[zz.Choice("text", len(ts))]
	job, event := t, t
	switch zz.Choice("where", 3) {
	case 1:
		job = "j"
	case 2:
		event = "e"
	}
	health.Identifier = t
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	for k := 0; k < nKinds; k++ {
		emit(s, em{kind: k, job: job, event: event, nanos: 7, bits: 0x4014000000000000})
	}
	zz.Quiesce()
	m := s.GetMetrics()
	rw := serveHealth(s, "GET", "/health")
	zz.Assert(rw.status == 200 && isJSON(rw), "status and type")
	sameWire(rw.body, t, time.Minute, m)
	zz.Reach("end")
}

// C11_alike checks the response for names that are easily taken for one another.
func C11_alike() {
	zz.Bound("texts", "an interval with one emission of any kind under every one of 36 names (valid UTF-8) that are easily taken for one another")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	kind := zz.Choice("kind", nKinds)
	for i, t := range alike() {
		if t == "\xe9" || t == "\xff" || t == "\xfe" {
			continue
		}
		emit(s, em{kind: kind, job: t, event: t, nanos: int64(i), bits: uint64(i) << 56})
	}
	zz.Quiesce()
	m := s.GetMetrics()
	sameWire(serveHealth(s, "GET", "/health").body, health.Identifier, time.Minute, m)
	zz.Reach("end")
}

// C13_texts sends names of many lengths and with unusual characters.
func C13_texts() {
	zz.Bound("texts", "job, event and prefix: each out of the 12 texts of up to 1025 bytes with unusual characters, or 40 that are easily taken for one another; any kind; lines beyond a packet excluded")
	ts := append(texts()[:12], alike()...)
	t := ts[zz.Choice("text", len(ts))]
	var o *health.StatsDSinkOptions
	e := em{kind: zz.Choice("kind", nKinds), job: "j", event: "e", nanos: 7, bits: 0x4014000000000000}
	switch zz.Choice("where", 3) {
	case 0:
		e.job = t
	case 1:
		e.event = t
	case 2:
		o = &health.StatsDSinkOptions{Prefix: t}
	}
	if e.kind == kComplete {
		e.event = ""
	}
	s := newStatsD(o)
	want := ""
	for i := 0; i < 2; i++ {
		emit(s, e)
		for _, l := range statsdLines(o, e) {
			if len(l) <= 1440 {
				want += l
			}
		}
	}
	s.Drain()
	zz.Assert(strings.Join(zz.Packets(), "") == want, "lines of the emissions")
	zz.Reach("end")
}

// C13_alike sends under names that are easily taken for one another.
func C13_alike() {
	zz.Bound("texts", "one emission of any kind under each of the 40 names in turn (but those beyond a packet), as job, event or both, twice over")
	kind, where := zz.Choice("kind", nKinds), zz.Choice("where", 3)
	s := newStatsD(nil)
	want := ""
	for k := 0; k < 2; k++ {
		for i, t := range alike() {
			if len(t) > 1000 {
				continue
			}
			e := em{kind: kind, job: "j", event: "e", nanos: int64(i), bits: uint64(i) << 56}
			if where != 1 {
				e.job = t
			}
			if where != 0 {
				e.event = t
			}
			emit(s, e)
			for _, l := range statsdLines(nil, e) {
				if len(l) <= 1440 {
					want += l
				}
			}
		}
	}
	s.Drain()
	zz.Assert(strings.Join(zz.Packets(), "") == want, "lines of the emissions")
	zz.Reach("end")
}

// textEm is an emission with one of its texts chosen.
func textEm(t string) (e em, kvs map[string]string, l []kvp) {
	e = em{kind: zz.Choice("kind", nKinds), job: "j", event: "e", err: textErr{"x"}, nanos: 7, bits: 0x4014000000000000}
	x := kvp{"k", "v"}
	switch zz.Choice("where", 5) {
	case 0:
		e.job = t
	case 1:
		e.event = t
	case 2:
		e.err = textErr{t}
	case 3:
		x.k = t
	case 4:
		x.v = t
	}
	return e, map[string]string{x.k: x.v}, []kvp{x}
}

// C16_texts writes lines of many lengths and with unusual characters.
func C16_texts() {
	zz.Bound("texts", "job, event, error text, key or value out of 16 texts of 0..70100 bytes with unusual characters; all kinds")
	ts := texts()
	c := &chunks{}
	s := &health.WriterSink{Writer: c}
	e, kvs, l := textEm(ts[zz.Choice("text", len(ts))])
	emitKv(s, e, kvs)
	zz.Assert(len(c.w) == 1, "exactly one write")
	zz.Assert(c.w[0] == logLine(e, kvs, l), "the line")
	zz.Reach("end")
}

// C17_texts writes objects of many lengths and with unusual characters.
func C17_texts() {
	zz.Bound("texts", "job, event, error text, key or value out of 16 texts of 0..70100 bytes with unusual characters (valid UTF-8); all kinds")
	ts := texts()
	c := &chunks{}
	s := &health.JsonWriterSink{Writer: c}
	e, kvs, l := textEm(ts[zz.Choice("text", len(ts))])
	emitKv(s, e, kvs)
	zz.Assert(len(c.w) == 1, "exactly one write")
	checkObject(c.w[0], e, time.Now(), l)
	zz.Reach("end")
}
