package hd

import (
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// C27_status polls hosts with any outcome.
func C27_status() {
	const rounds = 2
	zz.Bound("history", "2 hosts polled twice; each poll fails to connect, has a body that breaks off or is no JSON, or answers with any status code 200..599 except redirects, any of two instances and any interval duration of 1..9 s")
	h := newHosts()
	want := map[string]*hostW{}
	names := []string{"a:1", "b:1"}
	var reals []string
	for i, name := range names {
		w := &hostW{HostPort: name}
		want[name] = w
		delay := time.Duration(i+1) * time.Second / 4
		h.slow[name] = delay
		reals = append(reals, name)
		h.answer[name] = func() answer {
			w.Check = time.Now().Add(-delay)
			w.Instance, w.IntervalDuration, w.Code, w.Nanos, w.Err = "", 0, 0, 0, ""
			a := answer{code: 200}
			d := time.Duration(zz.IntN("duration."+name, 1, 9)) * 1000000000
			kind := zz.Choice("answer."+name, 5)
			instance := []string{"p", "p", "p", "p", "q"}[kind]
			a.body = encode(instance, d)
			switch kind {
			case 0:
				w.Err = "refused"
				a.fail = true
				return a
			case 1:
				a.torn = true
				w.Err = "reset"
			case 2:
				a.body = "<html>"
				w.Err = "invalid"
			case 3:
				a.code = int(zz.IntN("code."+name, 200, 599))
				zz.Assume(a.code != 301 && a.code != 302 && a.code != 303 && a.code != 307 && a.code != 308)
			}
			w.Code = a.code
			w.Nanos = int64(delay)
			if kind >= 3 {
				w.Instance, w.IntervalDuration = instance, d
			}
			if a.code == 200 && w.Err == "" {
				w.Last = time.Now()
				if w.First.IsZero() {
					w.First = w.Last
				}
			}
			return a
		}
	}
	start(reals...)
	check := func() {
		got := getHosts()
		zz.Assert(len(got) == len(names), "one status per monitored host")
		for i, name := range names {
			g, w := got[i], want[name]
			zz.Assert(g.HostPort == name, "hosts in order")
			zz.Assert(g.Check.Equal(w.Check), "time of the poll")
			zz.Assert(g.Instance == w.Instance, "instance")
			zz.Assert(g.IntervalDuration == w.IntervalDuration, "interval duration")
			zz.Assert(g.Code == w.Code, "code")
			zz.Assert(g.Nanos == w.Nanos, "duration of the poll")
			zz.Assert((g.Err == "") == (w.Err == ""), "error exactly if the poll failed")
			zz.Assert(strings.Contains(g.Err, w.Err), "text of the error")
			zz.Assert(g.First.Equal(w.First), "first success")
			zz.Assert(g.Last.Equal(w.Last), "last success")
		}
	}
	zz.Quiesce()
	check() // nothing polled yet
	zz.Reach("before")
	time.Sleep(9 * time.Second)
	for r := 0; r < rounds; r++ {
		zz.Quiesce()
		check()
		if r < rounds-1 {
			time.Sleep(10 * time.Second)
		}
	}
	zz.Reach("end")
}

// C27_timeout polls a host that does not answer.
func C27_timeout() {
	zz.Bound("timeout", "a host that answers after 1..20 s beside one that answers at once, for 3 polls")
	h := newHosts()
	n := 1 + zz.Choice("seconds", 20)
	h.slow["slow:1"] = time.Duration(n)*time.Second + time.Second/2
	h.slow["fast:1"] = time.Second / 10
	t0 := time.Now()
	ok := func() answer {
		ia := health.NewIntervalAggregation(t0)
		ia.SerialNumber = 1
		ia.Events["e"] = 1
		return answer{code: 200, body: encode("p", time.Minute, ia)}
	}
	h.answer["slow:1"], h.answer["fast:1"] = ok, ok
	start("slow:1", "fast:1")
	for r := 0; r < 3; r++ {
		time.Sleep(9 * time.Second)
		zz.Quiesce()
		hs := getHosts()
		zz.Assert(len(hs) == 2, "two hosts")
		zz.Assert(hs[0].Code == 200 && hs[0].Err == "" && hs[0].Last.Equal(t0.Add(time.Duration(r)*10*time.Second+time.Second/10)), "the fast host is polled in time")
		if n < 5 {
			zz.Assert(hs[1].Code == 200 && hs[1].Err == "", "answer in time")
		} else {
			zz.Assert(hs[1].Code == 0 && hs[1].Err != "" && hs[1].First.IsZero(), "no answer in time")
		}
		time.Sleep(time.Second)
	}
	zz.Reach("end")
}
