package sinks

import (
	"encoding/json"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/librato"
	"github.com/gocraft/health/zzverif/zz"
)

// metric is a posted metric as Librato knows it.
type metric struct {
	Value *int64   `json:"value"`
	Count *int64   `json:"count"`
	Sum   *float64 `json:"sum"`
	Min   *float64 `json:"min"`
	Max   *float64 `json:"max"`
	SumSq *float64 `json:"sum_squares"`
}

type post struct {
	Time   int64             `json:"measure_time"`
	Period int64             `json:"period"`
	Source string            `json:"source"`
	Gauges map[string]metric `json:"gauges"`
}

// tally is the expected content of a metric.
type tally struct {
	key               string
	counter           bool
	n                 int64
	sum, min, max, sq float64
}

func clean(s string) string {
	r := ""
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == ':' || c == '-' || c == '_' {
			r += string(c)
		} else {
			r += "_"
		}
	}
	return r
}

// tallies computes the metrics expected for emissions.
func tallies(prefix string, ems []em) []*tally {
	var all []*tally
	if prefix != "" {
		prefix += "."
	}
	get := func(key string) *tally {
		for _, t := range all {
			if t.key == key {
				return t
			}
		}
		t := &tally{key: key}
		all = append(all, t)
		return t
	}
	inc := func(key string) {
		t := get(key)
		t.counter = true
		t.n++
	}
	measure := func(key string, v float64) {
		t := get(key)
		t.n++
		if t.n == 1 {
			t.sum, t.min, t.max, t.sq = v, v, v, v*v
			return
		}
		t.sum += v
		t.sq += v * v
		if v < t.min {
			t.min = v
		}
		if v > t.max {
			t.max = v
		}
	}
	for _, e := range ems {
		k1, k2 := prefix+clean(e.event), prefix+clean(e.job)+"."+clean(e.event)
		ms := float64(e.nanos) / 1000000
		switch e.kind {
		case kEvent:
			inc(k1 + ".count")
			inc(k2 + ".count")
		case kErr:
			inc(k1 + ".error.count")
			inc(k2 + ".error.count")
		case kTiming:
			measure(k1+".timing", ms)
			measure(k2+".timing", ms)
		case kGauge:
			measure(k1+".gauge", e.value)
			measure(k2+".gauge", e.value)
		case kComplete:
			measure(prefix+clean(e.job)+"."+[]string{"success", "validation_error", "panic", "error", "junk"}[e.status]+".timing", ms)
		}
	}
	return all
}

// decode reads a posted body.
func decode(text string) *post {
	var p post
	err := json.Unmarshal([]byte(text), &p)
	zz.Assert(err == nil, "body is JSON")
	return &p
}

// checkPost compares a posted body with the emissions.
func checkPost(text string, prefix string, ems []em) *post {
	p := decode(text)
	want := tallies(prefix, ems)
	zz.Assert(len(p.Gauges) == len(want), "exactly the metrics of the emissions")
	for _, t := range want {
		m, ok := p.Gauges[t.key]
		zz.Assert(ok, "metric present")
		if t.counter {
			zz.Assert(m.Value != nil && *m.Value == t.n && m.Count == nil, "counter value")
			continue
		}
		zz.Assert(m.Value == nil && m.Count != nil && *m.Count == t.n, "number of measurements")
		zz.Assert(m.Sum != nil && *m.Sum == t.sum, "sum")
		zz.Assert(m.SumSq != nil && *m.SumSq == t.sq, "sum of squares")
		zz.Assert(m.Min != nil && *m.Min == t.min, "minimum")
		zz.Assert(m.Max != nil && *m.Max == t.max, "maximum")
	}
	return p
}

// C18_names makes one emission with arbitrary names.
func C18_names() {
	zz.Bound("names", "one of job and event 0..1 (0..2 for events without prefix, thorough always) arbitrary bytes, the other fixed and holding multi-byte and invalid characters; with or without prefix")
	const wide = "é/漢 a-Z_0:9.\xff"
	tr := newTransport()
	prefix := []string{"", "pre.fix"}[zz.Choice("prefix", 2)]
	s := librato.New("user", "key", prefix)
	e := em{kind: zz.Choice("kind", nKinds), job: wide, nanos: 1500000, value: 2.5}
	if e.kind != kComplete {
		e.event = wide
	} else {
		e.status = health.CompletionStatus(zz.Choice("status", 5))
	}
	max := 1
	if e.kind == kEvent && prefix == "" || zz.Thorough() {
		max = 2
	}
	if e.kind != kComplete && zz.Choice("any", 2) == 1 {
		e.event = zz.String("event", 0, max)
	} else {
		e.job = zz.String("job", 0, max)
	}
	emit(s, e)
	time.Sleep(16 * time.Second)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 1, "one request")
	checkPost(tr.reqs[0].body, prefix, []em{e})
	zz.Reach("end")
}

// C18_tally makes several emissions whose names may coincide.
func C18_tally() {
	const n = 3
	zz.Bound("emissions", "3 of any kind, any durations, gauges any finite value below 1e100 in size, names of one letter that may coincide, also once sanitized")
	tr := newTransport()
	s := librato.New("user", "key", "p")
	letters := []string{"a", "/", "_"}
	var ems []em
	for i := 0; i < n; i++ {
		e := em{kind: zz.Choice("kind", nKinds), job: "j"}
		switch e.kind {
		case kTiming:
			e.nanos = zz.Int64("nanos")
		case kGauge:
			e.value = zz.Float64In("gauge", 1e100)
		case kComplete:
			e.nanos = zz.Int64("nanos")
			e.status = health.CompletionStatus(zz.Choice("status", 5))
		}
		if e.kind != kComplete {
			e.event = letters[zz.Choice("event", 3)]
		}
		if i > 0 {
			e.job = []string{"j", "k"}[zz.Choice("job", 2)]
		}
		emit(s, e)
		ems = append(ems, e)
	}
	time.Sleep(16 * time.Second)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 1, "one request")
	checkPost(tr.reqs[0].body, "p", ems)
	zz.Reach("end")
}

// C18_joined makes two emissions whose names may coincide once they are joined.
func C18_joined() {
	zz.Bound("names", "2 emissions of any kind; job and event out of a, a.a, a., .a, error, success and the empty text")
	names := []string{"a", "a.a", "a.", ".a", "error", "success", ""}
	tr := newTransport()
	s := librato.New("user", "key", "")
	var ems []em
	for i := 0; i < 2; i++ {
		e := em{kind: zz.Choice("kind", nKinds), job: names[zz.Choice("job", len(names))], nanos: int64(i+1) * 1500000, value: 2.5}
		if e.kind != kComplete {
			e.event = names[zz.Choice("event", len(names))]
		}
		emit(s, e)
		ems = append(ems, e)
	}
	time.Sleep(16 * time.Second)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 1, "one request")
	checkPost(tr.reqs[0].body, "", ems)
	zz.Reach("end")
}

// texts gives concrete texts of many lengths, with unusual characters, and easily taken for one another.
func texts() []string {
	long := strings.Repeat("abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ.0123456789-abcdefghijklmnopqrstuvwxyz-ABCDEFGH", 701)
	return []string{"name", "Name", " name", "name ", "name\n", "na me", "na-me", "na.me", "na_me", "na:me", "na/me", "na\x00me", "1", "%d",
		"é\u2028%s<&>\"\\漢\x7f\x00\\u0026\\u003c\\n&amp;%2F😀 'x'\t\r\n", "é", "e\u0301", "\ufffd", "a+b", "[a]", "{a}", "(a)", "a,b", "a;b", "a=b", "a|b", "~", "^", "$", "!", "?", "*", "#", "@", "\"", "'", "\\",
		long[:63], long[:64], long[:65], long[:127], long[:129], long[:254], long[:255], long[:256], long[:257], long[:300], long[:1025], long[:4097], long}
}

// C18_texts makes emissions under many concrete names.
func C18_texts() {
	zz.Bound("texts", "job, event or prefix out of 50 texts of 0..70100 bytes, with unusual characters or easily taken for one another; all kinds")
	ts := texts()
	t := ts[zz.Choice("text", len(ts))]
	tr := newTransport()
	job, event, prefix := "j", "e", ""
	switch zz.Choice("where", 4) {
	case 0:
		job = t
	case 1:
		event = t
	case 2:
		job, event = t, t
	case 3:
		prefix = clean(t)
	}
	s := librato.New("user", "key", prefix)
	var ems []em
	for k := 0; k < nKinds; k++ {
		e := em{kind: k, job: job, event: event, nanos: 1500000, value: 2.5}
		if k == kComplete {
			e.event = ""
		}
		ems = append(ems, e)
		emit(s, e)
	}
	time.Sleep(16 * time.Second)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 1, "one request")
	checkPost(tr.reqs[0].body, prefix, ems)
	zz.Reach("end")
}

// C18_alike makes emissions under all of them in one interval.
func C18_alike() {
	zz.Bound("texts", "one emission of any kind under each of 50 names, as job, event or both, in one interval")
	tr := newTransport()
	s := librato.New("user", "key", "")
	kind, where := zz.Choice("kind", nKinds), zz.Choice("where", 3)
	var ems []em
	for i, t := range texts() {
		if len(t) > 2000 {
			continue
		}
		e := em{kind: kind, job: "j", event: "e", nanos: int64(i) * 1000000, value: float64(i)}
		if where != 1 {
			e.job = t
		}
		if where != 0 {
			e.event = t
		}
		if kind == kComplete {
			e.event = ""
		}
		ems = append(ems, e)
		emit(s, e)
	}
	time.Sleep(16 * time.Second)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 1, "one request")
	checkPost(tr.reqs[0].body, "", ems)
	zz.Reach("end")
}

// C18_wide makes emissions under hundreds of different names in one interval.
func C18_wide() {
	n := []int{150, 301}[zz.Choice("names", 2)]
	zz.Bound("names in one interval", "150 or 301 different ones, of any kind of emission")
	kind := zz.Choice("kind", nKinds)
	tr := newTransport()
	s := librato.New("user", "key", "")
	var ems []em
	for i := 0; i < n; i++ {
		e := em{kind: kind, job: "j" + string(rune('0'+i/100)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10)), nanos: int64(i+1) * 1500000, value: 2.5}
		if kind != kComplete {
			e.event = "e"
		}
		emit(s, e)
		ems = append(ems, e)
	}
	time.Sleep(16 * time.Second)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 1, "one request")
	checkPost(tr.reqs[0].body, "", ems)
	zz.Reach("end")
}
