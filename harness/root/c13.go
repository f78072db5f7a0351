package root

import (
	"bytes"
	"strconv"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

func newStatsD(o *health.StatsDSinkOptions) *health.StatsDSink {
	s, err := health.NewStatsDSink(zz.UDPAddr(), o)
	zz.Assert(err == nil, "sink can be created")
	return s
}

func okByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.'
}

func cleanKey(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !okByte(c) {
			b[i] = '$'
		}
	}
	return string(b)
}

func brackets(b *bytes.Buffer, s string) {
	b.WriteByte('<')
	b.WriteString(s)
	b.WriteByte('>')
}

// statsdLines gives the lines expected for an emission.
func statsdLines(o *health.StatsDSinkOptions, e em) []string {
	if o == nil {
		o = &health.StatsDSinkOptions{}
	}
	key := func(parts ...string) string {
		r := ""
		for _, p := range parts {
			if p == "" {
				continue
			}
			if r != "" {
				r += "."
			}
			if o.SanitizationFunc != nil {
				r += "<" + p + ">"
			} else {
				r += cleanKey(p)
			}
		}
		return r
	}
	ms := func() string {
		if e.nanos >= 10000000 {
			return strconv.FormatInt(e.nanos/1000000, 10)
		}
		return strconv.FormatFloat(float64(e.nanos)/1000000, 'f', 2, 64)
	}
	var rest, suffix string
	switch e.kind {
	case kEvent:
		rest = ":1|c\n"
	case kErr:
		rest, suffix = ":1|c\n", "error"
	case kTiming:
		rest = ":" + ms() + "|ms\n"
	case kGauge:
		v := f64(e.bits)
		prec := 2
		if v < 0.1 && v > -0.1 {
			prec = -1
		}
		rest = ":" + strconv.FormatFloat(v, 'f', prec, 64) + "|g\n"
	case kComplete:
		return []string{key(o.Prefix, e.job, e.status.String()) + ":" + ms() + "|ms\n"}
	}
	var r []string
	if !o.SkipTopLevelEvents {
		r = append(r, key(o.Prefix, e.event, suffix)+rest)
	}
	if !o.SkipNestedEvents {
		r = append(r, key(o.Prefix, e.job, e.event, suffix)+rest)
	}
	return r
}

// anyOptions gives all kinds of options.
func anyOptions() *health.StatsDSinkOptions {
	if zz.Choice("options", 2) == 0 {
		return nil
	}
	o := &health.StatsDSinkOptions{SkipNestedEvents: zz.Choice("skipNested", 2) == 1, SkipTopLevelEvents: zz.Choice("skipTop", 2) == 1}
	switch zz.Choice("prefix", 3) {
	case 1:
		o.Prefix = "pre.fix"
	case 2:
		o.Prefix = zz.String("prefix", 1, 1)
	}
	if zz.Choice("sanitizer", 2) == 1 {
		o.SanitizationFunc = brackets
	}
	return o
}

// C13_lines sends one arbitrary emission.
func C13_lines() {
	zz.Bound("names", "event 0..1 arbitrary byte (fixed for timings), job empty or fixed, prefix none, fixed or 1 arbitrary byte")
	zz.Bound("values", "any int64 nanoseconds, any of the five statuses, any float64 gauge (its printed form taken as a function of the value)")
	zz.Bound("options", "none, or every combination of skip flags with the default or an own sanitization")
	o := anyOptions()
	s := newStatsD(o)
	e := em{kind: zz.Choice("kind", nKinds), job: []string{"", "my job"}[zz.Choice("job", 2)]}
	switch e.kind {
	case kEvent, kErr, kGauge:
		e.event = zz.String("event", 0, 1)
	case kTiming:
		e.event = "an-event"
	}
	switch e.kind {
	case kTiming, kComplete:
		e.nanos = zz.Int64("nanos")
		if e.kind == kComplete {
			e.status = health.CompletionStatus(zz.Choice("status", 5))
		}
	case kGauge:
		e.bits = zz.Uint64("gauge")
	}
	emit(s, e)
	s.Drain()
	got := strings.Join(zz.Packets(), "")
	zz.Assert(got == strings.Join(statsdLines(o, e), ""), "lines of the emission")
	zz.Reach("end")
}

// C13_values checks the printed values for exact numbers.
func C13_values() {
	zz.Bound("values", "chosen nanoseconds and gauges around the changes of format")
	s := newStatsD(nil)
	ns := []int64{0, 1, 4999, 5000, 5001, 9999999, 10000000, 10999999, 123456789012345, -1, -20000000, 9223372036854775807, -9223372036854775808}
	gs := []float64{0, 0.1, -0.1, 0.09, -0.09, 1.005, 2.5, 123456.789, 1e20, -3, 0.00000012, 99.995}
	nw := []string{"0.00", "0.00", "0.00", "0.01", "0.01", "10.00", "10", "10", "123456789", "-0.00", "-20.00", "9223372036854", "-9223372036854.78"}
	gw := []string{"0", "0.10", "-0.10", "0.09", "-0.09", "1.00", "2.50", "123456.79", "100000000000000000000.00", "-3.00", "0.00000012", "100.00"}
	i := zz.Choice("value", len(ns)+len(gs))
	if i < len(ns) {
		want := nw[i]
		if i == 3 {
			want = strconv.FormatFloat(0.005, 'f', 2, 64)
		}
		s.EmitTiming("j", "e", ns[i], nil)
		s.Drain()
		zz.Assert(strings.Join(zz.Packets(), "") == "e:"+want+"|ms\nj.e:"+want+"|ms\n", "timing in milliseconds")
		s.EmitComplete("j", health.Success, ns[i], nil)
		s.Drain()
		zz.Assert(strings.Join(zz.Packets(), "") == "j.success:"+want+"|ms\n", "completion time in milliseconds")
	} else {
		want := gw[i-len(ns)]
		if gs[i-len(ns)] == 1.005 || gs[i-len(ns)] == 99.995 {
			want = strconv.FormatFloat(gs[i-len(ns)], 'f', 2, 64)
		}
		s.EmitGauge("j", "e", gs[i-len(ns)], nil)
		s.Drain()
		zz.Assert(strings.Join(zz.Packets(), "") == "e:"+want+"|g\nj.e:"+want+"|g\n", "gauge value")
	}
	zz.Reach("end")
}

// C13_history sends sequences that may reuse keys.
func C13_history() {
	n := 2
	if zz.Thorough() {
		n = 3
	}
	zz.Bound("history", "2 (thorough 3) emissions of any kind, job and event empty or 1 arbitrary byte so that keys may coincide, numbers of different lengths; a drain between them or not; with or without prefix")
	var o *health.StatsDSinkOptions
	if zz.Choice("prefix", 2) == 1 {
		o = &health.StatsDSinkOptions{Prefix: "p"}
	}
	s := newStatsD(o)
	want := ""
	for i := 0; i < n; i++ {
		e := em{kind: zz.Choice("kind", nKinds), job: zz.String("job", 0, 1)}
		if e.kind != kComplete {
			e.event = zz.String("event", 0, 1)
		} else {
			e.status = []health.CompletionStatus{health.Success, health.Error}[zz.Choice("status", 2)]
		}
		e.nanos = []int64{123456789012, 5000000, 7}[i]
		e.bits = []uint64{0x40c81cd6e631f8a1, 0x4008000000000000, 0xbff0000000000000}[i]
		emit(s, e)
		want += strings.Join(statsdLines(o, e), "")
		if zz.Choice("drain", 2) == 1 {
			s.Drain()
		}
	}
	s.Drain()
	got := strings.Join(zz.Packets(), "")
	zz.Assert(got == want, "lines of all emissions")
	zz.Reach("end")
	zz.Obs("got", got)
}

// C13_same repeats emissions under one key with values of any size.
func C13_same() {
	zz.Bound("history", "3 timings, gauges or completions under the same names with different lengths of the value, in any order of lengths")
	s := newStatsD(nil)
	kind := []int{kTiming, kGauge, kComplete, kEvent}[zz.Choice("kind", 4)]
	want := ""
	for i := 0; i < 3; i++ {
		k := zz.Choice("size", 3)
		e := em{kind: kind, job: "job", event: "ev ent", nanos: []int64{1, 20000000, 9000000000000000}[k], bits: []uint64{0x4008000000000000, 0x40fe240c9fbe76c9, 0xbf50624dd2f1a9fc}[k]}
		emit(s, e)
		want += strings.Join(statsdLines(nil, e), "")
		if i == 1 {
			time.Sleep(150 * time.Millisecond)
		}
	}
	s.Drain()
	zz.Assert(strings.Join(zz.Packets(), "") == want, "lines of all emissions")
	zz.Reach("end")
}

// C13_names uses arbitrary names.
func C13_names() {
	zz.Bound("names", "job and event 0..2 arbitrary bytes, events, errors and completions, default sanitization")
	s := newStatsD(nil)
	e := em{kind: []int{kEvent, kErr, kComplete}[zz.Choice("kind", 3)], job: zz.String("job", 0, 2), nanos: 5}
	if e.kind != kComplete {
		e.event = zz.String("event", 0, 2)
	}
	emit(s, e)
	s.Drain()
	got := strings.Join(zz.Packets(), "")
	zz.Assert(got == strings.Join(statsdLines(nil, e), ""), "lines of the emission")
	zz.Reach("end")
	zz.Obs("got", got)
}

// C13_split sends two emissions whose names are different splits of the same text.
func C13_split() {
	zz.Bound("split", "two events, errors or timings whose job and event are two splits of the same 4 arbitrary bytes, with the byte at the split dropped or not; top-level form off or on")
	o := &health.StatsDSinkOptions{SkipTopLevelEvents: zz.Choice("skipTop", 2) == 1}
	s := newStatsD(o)
	text := zz.ASCII("text", 4, 4)
	drop := zz.Choice("drop", 2)
	kind := []int{kEvent, kErr, kTiming}[zz.Choice("kind", 3)]
	want := ""
	i, k := zz.Choice("first", 4), zz.Choice("second", 4)
	for _, p := range []int{i, k} {
		e := em{kind: kind, job: text[:p], event: text[p+drop:], nanos: 5}
		emit(s, e)
		want += strings.Join(statsdLines(o, e), "")
	}
	s.Drain()
	got := strings.Join(zz.Packets(), "")
	zz.Assert(got == want, "lines of both emissions")
	zz.Reach("end")
}
