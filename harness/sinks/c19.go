package sinks

import (
	"os"
	"time"

	"github.com/gocraft/health/sinks/librato"
	"github.com/gocraft/health/zzverif/zz"
)

const flushPeriod = 15 * time.Second

// checkRequest states that r is a proper request.
func checkRequest(r request, user, key string) {
	zz.Assert(r.method == "POST", "method")
	zz.Assert(r.url == "https://metrics-api.librato.com/v1/metrics", "address")
	zz.Assert(r.ctype == "application/json", "content type")
	zz.Assert(r.user == user && r.key == key, "authentication")
}

// C19_periods lets several periods pass with and without data.
func C19_periods() {
	n := 3
	if zz.Thorough() {
		n = 4
	}
	zz.Bound("periods", "3 (thorough 4), each with no data, one of three emissions with any duration, or two; each request answered 200, 500, or failing")
	const user, key = "me@example.com", "secret"
	tr := newTransport()
	tr.how = func(i int) int { return zz.Choice("answer", 3) }
	s := librato.New(user, key, "")
	time.Sleep(time.Second)
	requests := 0
	for i := 0; i < n; i++ {
		var ems []em
		switch zz.Choice("data", 5) {
		case 1:
			ems = []em{{kind: kEvent, job: "j", event: "e"}}
		case 2:
			ems = []em{{kind: kTiming, job: "j", event: "e", nanos: zz.Int64("nanos")}}
		case 3:
			ems = []em{{kind: kComplete, job: "j", nanos: zz.Int64("nanos")}}
		case 4:
			ems = []em{{kind: kErr, job: "j", event: "e"}, {kind: kGauge, job: "j", event: "e", value: zz.Float64In("gauge", 1e100)}}
		}
		for _, e := range ems {
			emit(s, e)
			zz.Quiesce()
		}
		zz.Assert(len(tr.reqs) == requests, "no request before the period ends")
		time.Sleep(flushPeriod)
		zz.Quiesce()
		if len(ems) == 0 {
			zz.Assert(len(tr.reqs) == requests, "no request without data")
			zz.Reach("empty period")
			continue
		}
		requests++
		zz.Assert(len(tr.reqs) == requests, "one request per period with data")
		r := tr.reqs[requests-1]
		checkRequest(r, user, key)
		p := checkPost(r.body, "", ems)
		zz.Assert(p.Period == 15, "period")
		zz.Assert(p.Time == time.Now().Add(-time.Second).Unix(), "time of measurement")
		host, _ := os.Hostname()
		zz.Assert(p.Source == host, "source")
		zz.Reach("posted")
	}
	tr.allClosed()
	ok := zz.Within(time.Minute, s.Stop)
	zz.Assert(ok, "stop returns")
	time.Sleep(2 * flushPeriod)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == requests, "no request after stop")
	zz.Reach("end")
}

// C19_many gathers a lot in one period, and the same, something else or nothing in the next ones.
func C19_many() {
	zz.Bound("amount", "1, 30 or 1000 emissions of any kind and one of another kind under 1 or 30 names, again, once or not at all in the following two periods; each request answered 200 or failing")
	tr := newTransport()
	how := zz.Choice("answer", 3)
	tr.how = func(i int) int { return how }
	s := librato.New("u", "k", "")
	kind := zz.Choice("kind", nKinds)
	other := (kind + 1 + zz.Choice("other", 2)) % nKinds
	many := []int{1, 30, 1000}[zz.Choice("many", 3)]
	names := []int{1, 30}[zz.Choice("names", 2)]
	time.Sleep(time.Second)
	requests := 0
	for i := 0; i < 3; i++ {
		n := many
		if i > 0 {
			n = []int{0, 1, many}[zz.Choice("data", 3)]
		}
		var ems []em
		for k := 0; k < n; k++ {
			name := "e" + string(rune('A'+k%names))
			ems = append(ems, em{kind: kind, job: name, event: name, nanos: int64(1+k%7) * 1000000, value: float64(k % 5)})
		}
		if n > 0 {
			ems = append(ems, em{kind: other, job: "o", event: "o", nanos: 4000000, value: 0.5})
		}
		for _, e := range ems {
			emit(s, e)
		}
		time.Sleep(flushPeriod)
		zz.Quiesce()
		if n > 0 {
			requests++
		}
		zz.Assert(len(tr.reqs) == requests, "one request per period with data, none without")
		if n > 0 {
			checkPost(tr.reqs[requests-1].body, "", ems)
		}
	}
	tr.allClosed()
	zz.Reach("end")
}

// C19_auth uses arbitrary credentials.
func C19_auth() {
	zz.Bound("credentials", "user and key of 0..2 (thorough 0..3) printable ASCII characters, no colon in the user")
	max := 2
	if zz.Thorough() {
		max = 3
	}
	user, key := zz.ASCII("user", 0, max), zz.ASCII("key", 0, max)
	for i := 0; i < len(user); i++ {
		zz.Assume(user[i] >= ' ' && user[i] < 127 && user[i] != ':')
	}
	for i := 0; i < len(key); i++ {
		zz.Assume(key[i] >= ' ' && key[i] < 127)
	}
	tr := newTransport()
	s := librato.New(user, key, "")
	e := em{kind: kEvent, job: "j", event: "e"}
	emit(s, e)
	time.Sleep(flushPeriod + time.Second)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == 1, "one request")
	checkRequest(tr.reqs[0], user, key)
	checkPost(tr.reqs[0].body, "", []em{e})
	zz.Reach("end")
}

// total adds up the counts of a metric over all requests.
func (t *transport) total(key string, from int) int64 {
	var n int64
	for _, r := range t.reqs[from:] {
		m, ok := decode(r.body).Gauges[key]
		if ok {
			if m.Value != nil {
				n += *m.Value
			} else {
				n += *m.Count
			}
		}
	}
	return n
}

// C19_concurrent emits while a flush happens.
func C19_concurrent() {
	zz.Bound("schedule", "2 emitters with 2 emissions each around a flush, slow request, 1 preemption (thorough 2)")
	tr := newTransport()
	fail := []int{answerOK, answerFail}[zz.Choice("answer", 2)]
	tr.how = func(i int) int { return fail }
	slow := zz.Choice("slow", 2) == 1
	if slow {
		tr.block = make(chan bool)
	}
	s := librato.New("u", "k", "")
	kinds := [][2]int{{kEvent, kTiming}, {kErr, kComplete}, {kGauge, kEvent}}[zz.Choice("kinds", 3)]
	a, b := kinds[0], kinds[1]
	k := 1
	if zz.Thorough() {
		k = 2
	}
	emit(s, em{kind: kEvent, job: "j", event: "first"})
	zz.Quiesce()
	done := make(chan int, 2)
	time.Sleep(flushPeriod - time.Second)
	zz.Quiesce()
	zz.ExploreSchedules(40, k)
	run := func(kind int, ev string) {
		time.Sleep(time.Second)
		for i := 0; i < 2; i++ {
			emit(s, em{kind: kind, job: ev, event: ev})
		}
		done <- 1
	}
	go run(a, "a")
	go run(b, "b")
	if slow {
		time.Sleep(2 * time.Second)
		tr.block <- true
	}
	<-done
	<-done
	zz.StopExploring()
	if slow {
		go func() {
			for {
				tr.block <- true
			}
		}()
	}
	time.Sleep(3 * flushPeriod)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) <= 2, "at most one request per period")
	for _, x := range []struct {
		kind int
		ev   string
	}{{a, "a"}, {b, "b"}} {
		suf := [nKinds]string{".count", ".error.count", ".timing", ".gauge", ".success.timing"}[x.kind]
		zz.Assert(tr.total(x.ev+suf, 0) == 2, "every emission is posted exactly once")
		if x.kind != kComplete {
			zz.Assert(tr.total(x.ev+"."+x.ev+suf, 0) == 2, "every emission is posted exactly once under the job's name")
		}
	}
	zz.Assert(tr.total("first.count", 0) == 1, "earlier emission")
	tr.allClosed()
	zz.Reach("end")
}

// C19_stop stops the sink at any moment.
func C19_stop() {
	zz.Bound("stop", "with no, one or two emissions pending, at a flush or away from it, 1 preemption")
	tr := newTransport()
	s := librato.New("u", "k", "")
	n := zz.Choice("pending", 3)
	zz.ExploreSchedules(30, 1)
	if zz.Choice("at a flush", 2) == 1 {
		time.Sleep(flushPeriod)
	}
	for i := 0; i < n; i++ {
		emit(s, em{kind: kEvent, job: "j", event: "e"})
	}
	ok := zz.Within(time.Minute, s.Stop)
	zz.Assert(ok, "stop returns")
	zz.StopExploring()
	k := len(tr.reqs)
	time.Sleep(3 * flushPeriod)
	zz.Quiesce()
	zz.Assert(len(tr.reqs) == k, "no request after stop")
	tr.allClosed()
	zz.Reach("end")
}
