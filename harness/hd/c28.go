package hd

import (
	"encoding/json"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// whole is an answer without measurements that mentions everything a host reports.
// @1@ and the like stand for the values that a broken host gets wrong.
const whole = `@0@{"instance_id":@1@"bad"@,"interval_duration":@2@60000000000@,"aggregations":@3@[@4@{"interval_start":@5@"TIME"@,"serial_number":@6@1@,` +
	`"jobs":@7@{"j":@8@{"count":@9@0@,"nanos_sum":0,"nanos_sum_squares":0,"nanos_min":0,"nanos_max":0,"count_success":0,` +
	`"timers":@10@{"t":@11@{}@}@,"gauges":@12@{}@,"events":@13@{"e":@14@0@}@,"event_errs":@15@{"x":@16@{"count":0,"error_samples":@17@[]@}@}@}@}@,` +
	`"timers":@18@{"t":@19@{}@}@,"gauges":@20@{}@,"events":@21@{"e":@22@0@}@,"event_errs":@23@{"x":@24@{"count":0,"error_samples":@25@[]@}@}@}@]@}@`

const holes = 26

// fill gives whole with the value at hole replaced.
func fill(hole int, value, at string) string {
	var out strings.Builder
	s := whole
	var stack []bool // whether the open values are left out
	skip := 0
	for {
		i := strings.IndexByte(s, '@')
		if i < 0 {
			break
		}
		if skip == 0 {
			out.WriteString(s[:i])
		}
		s = s[i+1:]
		n, k := 0, 0
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			n = n*10 + int(s[k]-'0')
			k++
		}
		if k < len(s) && k > 0 && s[k] == '@' { // opens
			s = s[k+1:]
			stack = append(stack, n == hole)
			if n == hole {
				out.WriteString(value)
				skip++
			}
			continue
		}
		if stack[len(stack)-1] {
			skip--
		}
		stack = stack[:len(stack)-1]
	}
	out.WriteString(s)
	return strings.Replace(out.String(), "TIME", at, 1)
}

// good is the answer of a host that works.
func good(at time.Time, n int64) *health.IntervalAggregation {
	ia := health.NewIntervalAggregation(at)
	ia.SerialNumber = 1
	ia.Events["e"] = n
	ia.Timers["t"] = &health.TimerAggregation{Count: 2, NanosSum: n, NanosMin: 1, NanosMax: n - 1}
	ia.EventErrs["x"] = &health.ErrorCounter{Count: n}
	j := &health.JobAggregation{CountSuccess: 2}
	j.TimerAggregation = health.TimerAggregation{Count: 2, NanosSum: 40, NanosSumSquares: 1000, NanosMin: 1, NanosMax: n - 1}
	j.Timers = map[string]*health.TimerAggregation{"t": ia.Timers["t"]}
	j.Events = map[string]int64{"e": n}
	j.EventErrs = map[string]*health.ErrorCounter{"x": ia.EventErrs["x"]}
	ia.Jobs["j"] = j
	return ia
}

// survive runs healthd with a host that works and one that answers text.
func survive(n int64, text func(at time.Time) answer, others bool) {
	h := newHosts()
	at := time.Now().Truncate(time.Minute)
	h.answer["good:1"] = func() answer {
		return answer{code: 200, body: encode("p", time.Minute, good(at, n))}
	}
	bad := text(at)
	h.answer["bad:1"] = func() answer { return bad }
	if zz.Choice("first", 2) == 0 {
		h.slow["good:1"] = time.Second
	} else {
		h.slow["bad:1"] = time.Second
	}
	hd := start("bad:1", "good:1")
	time.Sleep(9 * time.Second)
	for r := 0; r < 2; r++ {
		zz.Quiesce()
		a := getAggs()
		var g *aggW
		for _, x := range a.Aggregations {
			zz.Assert(x != nil, "aggregation")
			if x.Start.Equal(at) {
				g = x
			}
		}
		zz.Assert(g != nil, "data of the other host is served")
		if !others {
			zz.Assert(len(a.Aggregations) == 1, "only the other host's data")
		}
		maps := func(m mapsW) {
			zz.Assert(m.Events["e"] == n, "event of the other host")
			zz.Assert(m.Timers["t"] != nil && *m.Timers["t"] == timerW{2, n, 0, 1, n - 1}, "timer of the other host")
			zz.Assert(m.Errs["x"] != nil && m.Errs["x"].Count == n, "errors of the other host")
		}
		maps(g.mapsW)
		j := g.Jobs["j"]
		zz.Assert(j != nil && j.timerW == timerW{2, 40, 1000, 1, n - 1} && j.CountSuccess == 2, "job of the other host")
		maps(j.mapsW)
		for _, path := range []string{"/healthd/aggregations/overall", "/healthd/jobs"} {
			code, text := get(path, "")
			zz.Assert(code == 200, "served")
			var x map[string]interface{}
			parse(text, &x)
		}
		hs := getHosts()
		zz.Assert(len(hs) == 2 && hs[0].HostPort == "bad:1" && hs[1].HostPort == "good:1", "hosts")
		zz.Assert(hs[0].Code == bad.code || bad.fail && hs[0].Code == 0, "code of the bad host")
		if unusable(bad) {
			zz.Assert(hs[0].Err != "", "an answer that is no JSON object is recorded as an error")
			zz.Reach("recorded")
		}
		zz.Assert(hs[1].Code == 200 && hs[1].Err == "", "status of the other host")
		if r == 0 {
			time.Sleep(10 * time.Second)
		}
	}
	ok := zz.Within(time.Minute, hd.Stop)
	zz.Assert(ok, "stop returns")
	zz.Reach("end")
}

// unusable tells whether an answer cannot be read or is no object in JSON.
func unusable(a answer) bool {
	if a.fail || a.torn {
		return true
	}
	var x map[string]json.RawMessage
	return json.Unmarshal([]byte(a.body), &x) != nil
}

// C28_values replaces any value of an answer.
func C28_values() {
	values := []string{"null", "{}", "[]", "[null]", `{"j":null}`, "0", "1e999", `""`, "true", "-1"}
	zz.Bound("values", "every value of an answer (26 places, from the whole body to error samples within jobs) replaced by null, {}, [], [null], {\"j\":null}, 0, 1e999, \"\", true or -1; polled twice, before or after the host that works")
	hole := zz.Choice("hole", holes)
	v := values[zz.Choice("value", len(values))]
	if v == "-1" && (hole == 9 || hole == 14 || hole == 22) {
		return // a number that counts
	}
	survive(zz.IntN("n", 10, 99), func(at time.Time) answer {
		return answer{code: 200, body: fill(hole, v, at.Format(time.RFC3339))}
	}, true)
}

// C28_hole puts any few characters in the place of any value.
func C28_hole() {
	max := 1
	if zz.Thorough() {
		max = 2
	}
	zz.Bound("characters", "every value of an answer replaced by 0..1 (thorough 0..2) arbitrary ASCII characters")
	hole := zz.Choice("hole", holes)
	v := zz.ASCII("value", 0, max)
	if hole == 2 || hole == 9 || hole == 14 || hole == 22 { // numbers that count
		for i := range v {
			zz.Assume(v[i] == '0' || v[i] > '9' || v[i] < '1')
		}
	}
	survive(7, func(at time.Time) answer {
		return answer{code: 200, body: fill(hole, v, at.Format(time.RFC3339))}
	}, true)
}

// C28_duration sends any interval duration.
func C28_duration() {
	zz.Bound("duration", "any 64-bit interval duration that is not positive, or one minute; status codes 200, 204, 404 and 500")
	d := zz.Int64("duration")
	zz.Assume(d <= 0 || d == int64(time.Minute))
	n := zz.IntN("n", 10, 99)
	code := []int{200, 204, 404, 500}[zz.Choice("code", 4)]
	survive(n, func(at time.Time) answer {
		empty := health.NewIntervalAggregation(at)
		return answer{code: code, body: encode("bad", time.Duration(d), empty, empty)}
	}, false)
}

// C28_bytes answers any few bytes.
func C28_bytes() {
	max := 2
	if zz.Thorough() {
		max = 3
	}
	zz.Bound("bytes", "bodies of 0..2 (thorough 0..3) arbitrary bytes, a whole answer cut off anywhere in its last characters, broken connections and bodies")
	text := ""
	a := answer{code: 200}
	switch zz.Choice("kind", 4) {
	case 0:
		text = zz.String("body", 0, max)
	case 1:
		a.fail = true
	case 2:
		text = "{}"
		a.torn = true
	case 3:
		text = fill(-1, "", "2000-01-01T00:00:00Z")
		text = text[:len(text)-1-zz.Choice("cut", 8)]
	}
	a.body = text
	survive(7, func(at time.Time) answer { return a }, false)
}
