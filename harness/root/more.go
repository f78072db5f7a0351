package root

import (
	"encoding/json"
	"errors"
	"fmt"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// C01_again reports one error several times, and runs a job some time after it was made.
func C01_again() {
	zz.Bound("again", "an error (plain, muted or unmuted) reported 3 times in a row on job or stream, with or without key/values, each time as returned the time before; then a run of the job that returns or panics, 0..2^40 ns after the job was made")
	log := &recLog{}
	s := health.NewStream().AddSink(&recSink{0, log}).AddSink(&recSink{1, log})
	j := s.NewJob("j")
	made := time.Now()
	var err error = textErr{"x"}
	switch zz.Choice("error", 3) {
	case 1:
		err = health.Mute(err)
	case 2:
		err = &health.UnmutedError{Err: err}
	}
	ids := []int{0, 1}
	for i := 0; i < 3; i++ {
		n := len(log.recs)
		var er health.EventReceiver = j
		want := rec{kind: kErr, job: "j", event: eventNames[i]}
		if zz.Choice("stream", 2) == 1 {
			er = s
			want.job = "general"
		}
		if zz.Choice("kv", 2) == 1 {
			want.kvs = map[string]string{"k": "v"}
			err = er.EventErrKv(want.event, err, want.kvs)
		} else {
			err = er.EventErr(want.event, err)
		}
		want.err = err
		checkFanOut(log, n, ids, want)
	}
	time.Sleep(time.Duration(zz.IntN("before", 1, 1<<40)))
	n := len(log.recs)
	want := rec{kind: kComplete, job: "j", status: health.Success}
	var res error
	switch zz.Choice("run", 3) {
	case 1:
		res = textErr{"r"}
		want.status = health.Error
	case 2:
		want.status = health.Panic
	}
	j.Run(func() error {
		time.Sleep(5)
		if want.status == health.Panic {
			panic("p")
		}
		return res
	})
	if want.status == health.Panic {
		zz.Assert(len(log.recs) == n+4, "panic event and completion")
		n += 2
	}
	want.nanos = int64(time.Since(made))
	checkFanOut(log, n, ids, want)
	zz.Reach("end")
}

// C02_empty emits with empty keys and values.
func C02_empty() {
	zz.Bound("empty texts", "stream, job and call with 0..1 key/values each, key and value empty or 1 arbitrary byte")
	log := &recLog{}
	s := health.NewStream().AddSink(&recSink{0, log})
	j := s.NewJob("j")
	var want []kv
	text := func(n string) string { return zz.String(n, 0, 1) }
	if zz.Choice("stream", 2) == 1 {
		k, v := text("sk"), text("sv")
		s.KeyValue(k, v)
		want = put(want, k, v)
	}
	if zz.Choice("job", 2) == 1 {
		k, v := text("jk"), text("jv")
		j.KeyValue(k, v)
		want = put(want, k, v)
	}
	call := map[string]string{}
	if zz.Choice("call", 2) == 1 {
		k, v := text("ck"), text("cv")
		call[k] = v
		want = put(want, k, v)
	}
	emitKind(j, zz.Choice("form", 5), call)
	zz.Assert(isExactly(log.recs[0].kvs, want), "sinks receive the union, call over job over stream")
	zz.Reach("end")
}

// C09_samples merges error counters with samples.
func C09_samples() {
	zz.Bound("samples", "target with 0..3 errors, merged-in with 1..7 errors under one name, the errors of each side different from one another, 0 or 1 of them the same on both sides")
	mk := func(tag string, n, shared int) []em {
		var es []em
		for i := 0; i < n; i++ {
			t := fmt.Sprint(tag, i)
			if i == shared {
				t = "shared"
			}
			es = append(es, em{kind: kErr, job: "j", event: "e", err: textErr{t}})
		}
		if n == 0 {
			es = append(es, em{kind: kEvent, job: "j", event: "e"})
		}
		return es
	}
	na, nb := zz.Choice("na", 4), 1+zz.Choice("nb", 7)
	sa, sb := -1, -1
	if zz.Bool("shared") {
		if na > 0 {
			sa = zz.Choice("sa", na)
		}
		sb = zz.Choice("sb", nb)
	}
	ma, mb := aggOf(mk("a", na, sa)), aggOf(mk("b", nb, sb))
	a, b := snapOf(ma), snapOf(mb)
	ma.Merge(mb)
	check := func(ec *health.ErrorCounter, before, from mapsSnap, what string) {
		zz.Assert(ec != nil && ec.Count == int64(na+nb), what+": number of errors")
		if !health.ZZHaveSamples {
			return
		}
		got := ec.ZZSamples()
		has := func(l []error, e error) bool {
			for _, x := range l {
				if sameErr(x, e) {
					return true
				}
			}
			return false
		}
		for _, e := range from.samples["e"] {
			zz.Assert(has(got, e), what+": the merged-in samples are among the target's")
		}
		for _, e := range got {
			zz.Assert(has(from.samples["e"], e) || has(before.samples["e"], e), what+": every sample is one of the two sides'")
		}
		if len(before.samples["e"])+len(from.samples["e"]) <= 5 {
			for _, e := range before.samples["e"] {
				zz.Assert(has(got, e), what+": the target's samples stay if there is room")
			}
		}
	}
	check(ma.EventErrs["e"], a.mapsSnap, b.mapsSnap, "overall")
	check(ma.Jobs["j"].EventErrs["e"], a.jobs["j"].mapsSnap, b.jobs["j"].mapsSnap, "job")
	zz.Reach("end")
}

// C10_rounds reports more errors than the ring of samples holds, several times over.
func C10_rounds() {
	max := 17
	if zz.Thorough() {
		max = 40
	}
	zz.Bound("rounds", "1..17 (thorough 1..40) errors, each different from the one before; one of them, at any place, equal to the one before it or to the one five before; looked at once more in the middle")
	n := 1 + zz.Choice("n", max)
	k := zz.Choice("place", n)
	how := zz.Choice("how", 3)
	mid := zz.Choice("mid", 2) * (n / 2)
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	var errs []error
	for i := 0; i < n; i++ {
		t := fmt.Sprint("e", i)
		if i == k && how == 1 && i >= 1 {
			t = fmt.Sprint("e", i-1)
		}
		if i == k && how == 2 && i >= 5 {
			t = fmt.Sprint("e", i-5)
		}
		e := textErr{t}
		s.EmitEventErr("j", "e", e, nil)
		errs = append(errs, e)
		if i+1 == mid {
			zz.Quiesce()
			checkSamples(s.GetMetrics()[0].EventErrs["e"], errs, "overall in the middle")
		}
	}
	zz.Quiesce()
	m := s.GetMetrics()[0]
	checkSamples(m.EventErrs["e"], errs, "overall")
	checkSamples(m.Jobs["j"].EventErrs["e"], errs, "job")
	zz.Reach("end")
}

// C11_soon asks again soon, with an emission in between.
func C11_soon() {
	zz.Bound("soon", "2 requests, 0, 1 ms, 0.4 s, 1 s or 20 s apart, with 1 emission of any kind in between")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	zz.Quiesce()
	serveHealth(s, "GET", "/health")
	emit(s, em{kind: zz.Choice("kind", nKinds), job: "j", event: "e", nanos: 5, err: textErr{"x"}})
	zz.Quiesce()
	time.Sleep([]time.Duration{0, time.Millisecond, 400 * time.Millisecond, time.Second, 20 * time.Second}[zz.Choice("pause", 5)])
	zz.Quiesce()
	m := s.GetMetrics()
	rw := serveHealth(s, "GET", "/health")
	zz.Assert(rw.status == 200 && isJSON(rw), "status and type")
	sameWire(rw.body, health.Identifier, time.Minute, m)
	zz.Reach("end")
}

// C12_kinds runs two goroutines that emit with numbers.
func C12_kinds() {
	zz.Bound("kinds", "two goroutines with 1 emission each of one kind, after 1 earlier one, under different names and with different numbers")
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	kind := zz.Choice("kind", nKinds)
	mk := func(i int) em {
		n := fmt.Sprint("n", i)
		return em{kind: kind, job: "j" + n, event: "e" + n, nanos: int64(i), bits: 0x3ff0000000000000 + uint64(i)<<40, status: health.CompletionStatus(i), err: textErr{n}}
	}
	ems := []em{mk(0), mk(1), mk(2)}
	emit(s, ems[0])
	zz.Quiesce()
	zz.DetectRaces()
	explore()
	done := make(chan bool, 2)
	for _, e := range ems[1:] {
		go func() {
			emit(s, e)
			done <- true
		}()
	}
	ok := zz.Within(10*time.Second, func() { <-done; <-done })
	zz.StopExploring()
	zz.Assert(ok, "emissions return")
	zz.Quiesce()
	checkAgg(s.GetMetrics()[0], ems)
	zz.Reach("end")
}

// badWriter fails, or takes less than it is given, at one of its writes.
type badWriter struct {
	chunks
	at, how int
}

func (w *badWriter) Write(b []byte) (int, error) {
	n := len(w.w)
	w.chunks.Write(b)
	if n == w.at {
		switch w.how {
		case 0:
			return 0, errors.New("failed")
		case 1:
			return len(b), errors.New("failed")
		case 2:
			return len(b) / 2, errors.New("short")
		case 3:
			return 0, nil
		}
	}
	return len(b), nil
}

func badly(s health.Sink, w *badWriter, line func(em, map[string]string, []kvp) string) {
	w.at, w.how = zz.Choice("at", 2), zz.Choice("how", 4)
	var want []string
	for i := 0; i < 2; i++ {
		e := em{kind: zz.Choice("kind", nKinds), job: "j", event: eventNames[i], nanos: 5, err: textErr{"x"}}
		emitKv(s, e, nil)
		want = append(want, line(e, nil, nil))
		zz.Assert(len(w.w) == i+1, "one write each, whether it succeeds or not")
		zz.Assert(w.w[i] == want[i], "the lines")
	}
}

// C16_failing emits to a writer that fails.
func C16_failing() {
	zz.Bound("failing", "2 emissions of any kinds, one of whose writes fails with nothing, half or all of it written, or tells that it wrote nothing")
	w := &badWriter{}
	badly(&health.WriterSink{Writer: w}, w, logLine)
	zz.Reach("end")
}

// C17_failing emits to a writer that fails.
func C17_failing() {
	zz.Bound("failing", "2 emissions of any kinds, one of whose writes fails with nothing, half or all of it written, or tells that it wrote nothing")
	w := &badWriter{}
	now := time.Now()
	badly(&health.JsonWriterSink{Writer: w}, w, func(e em, m map[string]string, l []kvp) string {
		t := w.w[len(w.w)-1]
		checkObject(t, e, now, l)
		return t
	})
	var v interface{}
	zz.Assert(json.Unmarshal([]byte(w.w[1]), &v) == nil, "one JSON object")
	zz.Reach("end")
}

// C02_many emits with many key/values.
func C02_many() {
	zz.Bound("many", "40 or 1100 key/values of each of stream, job and call, every third of which is in the next of these too; 1 emission of any form")
	n := []int{40, 1100}[zz.Choice("n", 2)]
	log := &recLog{}
	s := health.NewStream().AddSink(&recSink{0, log})
	j := s.NewJob("j")
	want := map[string]string{}
	call := map[string]string{}
	set := func(tag string, f func(k, v string)) {
		for i := 0; i < n; i++ {
			k := fmt.Sprint("k", i)
			if i%3 != 0 {
				k = fmt.Sprint(tag, i)
			}
			f(k, tag)
			want[k] = tag
		}
	}
	set("s", func(k, v string) { s.KeyValue(k, v) })
	set("j", func(k, v string) { j.KeyValue(k, v) })
	form := zz.Choice("form", 5)
	set("c", func(k, v string) { call[k] = v })
	emitKind(j, form, call)
	got := log.recs[0].kvs
	zz.Assert(len(got) == len(want), "number of key/values")
	for k, v := range want {
		g, ok := got[k]
		zz.Assert(ok && g == v, "sinks receive the union, call over job over stream")
	}
	zz.Reach("end")
}

// C06_odd uses intervals whose starts depend on what time they are counted from.
func C06_odd() {
	zz.Bound("odd", "intervals of 7 s, 45 s or 130 s, 3 retained; 4 emissions, each 0, 1/3, 1 or 2.5 intervals after the one before")
	d := []time.Duration{7 * time.Second, 45 * time.Second, 130 * time.Second}[zz.Choice("d", 3)]
	s := health.NewJsonPollingSink(d, 3*d)
	zz.Quiesce()
	time.Sleep(100 * time.Millisecond)
	at := map[int64]int64{}
	for i := 0; i < 4; i++ {
		time.Sleep([]time.Duration{0, d / 3, d, d * 5 / 2}[zz.Choice("pause", 4)])
		zz.Quiesce()
		start := time.Now().Truncate(d)
		s.EmitEvent("j", "e", nil)
		at[start.UnixNano()]++
		zz.Quiesce()
		m := s.GetMetrics()
		zz.Assert(len(m) > 0 && m[len(m)-1].IntervalStart.Equal(start), "the interval starts at the time rounded down to its duration")
		for _, ia := range m {
			zz.Assert(ia.Events["e"] == at[ia.IntervalStart.UnixNano()], "emissions are recorded in their interval")
		}
	}
	zz.Reach("end")
}
