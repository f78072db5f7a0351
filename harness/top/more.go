package top

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/braintree/manners"
	"github.com/gocraft/health"
	"github.com/gocraft/health/cmd/healthd/zzhealthdcmd"
	"github.com/gocraft/health/zzverif/zz"
)

// C33_many starts the daemon with a long list of hosts.
func C33_many() {
	zz.CatchExit()
	n := []int{10, 33, 70}[zz.Choice("hosts", 3)]
	zz.Bound("long list", "10, 33 or 70 hosts, with short names or names of 60 characters, one of which does not answer")
	net := newNetwork()
	long := ""
	if zz.Choice("long", 2) == 1 {
		long = strings.Repeat("x", 56)
	}
	down := []int{0, n / 2, n - 1}[zz.Choice("down", 3)]
	var hosts []string
	for i := 0; i < n; i++ {
		h := fmt.Sprintf("h%02d%s:1", i, long)
		hosts = append(hosts, h)
		if i != down {
			net.handlers[h] = func() http.Handler { return stub{} }
		}
		net.delay[h] = time.Duration(i+1) * 10 * time.Microsecond
	}
	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", strings.Join(hosts, ","))
	os.Setenv("HEALTH_HOSTPORT", "own:2")
	net.handlers["own:2"] = func() http.Handler { return stub{} }
	net.delay["own:2"] = 9 * time.Millisecond
	go healthdcmd.ZZMain()
	time.Sleep(15 * time.Second)

	zz.Assert(len(zz.Exits()) == 0, "the daemon runs")
	want := append(append([]string{}, hosts...), "own:2")
	net.mu.Lock()
	zz.Assert(len(net.asked) == len(want), "no other host is polled")
	for _, h := range want {
		zz.Assert(net.asked[h] == 2, "every host is polled at once and every ten seconds")
	}
	net.mu.Unlock()
	code, text := fetch(manners.Servers[0].Handler, "/healthd/hosts")
	var r struct {
		Hosts []struct {
			HostPort string `json:"host_port"`
			LastCode int    `json:"last_code"`
			LastErr  string `json:"last_err"`
		}
	}
	zz.Assert(code == 200 && json.Unmarshal([]byte(text), &r) == nil, "the hosts are served")
	zz.Assert(len(r.Hosts) == len(want), "the hosts given and the daemon itself are monitored")
	for i, h := range r.Hosts {
		zz.Assert(h.HostPort == want[i] && (h.LastCode == 200) == (i != down) && (h.LastErr == "") == (i != down), "each host is monitored")
	}
	zz.Reach("checked")
}

// C34_kinds follows events, errors, timings and gauges from a process to healthd's overall aggregation.
func C34_kinds() {
	zz.CatchExit()
	zz.Bound("kinds", "1 process that emits 3 times an event, one of two errors, a timing, a gauge or nothing under one of its job names, with a poll in between or not")
	net := newNetwork()
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	net.handlers["p:1"] = func() http.Handler { return s }
	net.delay["p:1"] = time.Millisecond
	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", "p:1")
	os.Setenv("HEALTH_HOSTPORT", "own:1")
	os.Setenv("HEALTHD_SERVER_HOSTPORT", ":5032")
	go healthdcmd.ZZMain()
	time.Sleep(500 * time.Millisecond)
	var events, errs, timings, sum int64
	gauge := -1.0
	job := []string{"a", "b"}[zz.Choice("job", 2)]
	for i := 0; i < 3; i++ {
		switch zz.Choice("kind", 6) {
		case 0:
			s.EmitEvent(job, "x", nil)
			events++
		case 1:
			s.EmitEventErr(job, "x", fmt.Errorf("same"), nil)
			errs++
		case 2:
			s.EmitEventErr(job, "x", fmt.Errorf("other"), nil)
			errs++
		case 3:
			s.EmitTiming(job, "x", 7, nil)
			timings++
			sum += 7
		case 4:
			gauge = float64(i)
			s.EmitGauge(job, "x", gauge, nil)
		}
		zz.Quiesce()
		if i < 2 && zz.Choice("pause", 2) == 1 {
			time.Sleep(11 * time.Second)
		}
	}
	time.Sleep(15 * time.Second)
	zz.Quiesce()
	code, text := fetch(manners.Servers[0].Handler, "/healthd/aggregations/overall")
	type maps struct {
		Timers map[string]struct {
			Count int64 `json:"count"`
			Sum   int64 `json:"nanos_sum"`
		} `json:"timers"`
		Gauges    map[string]float64 `json:"gauges"`
		Events    map[string]int64   `json:"events"`
		EventErrs map[string]struct {
			Count int64 `json:"count"`
		} `json:"event_errs"`
	}
	var r struct {
		Overall struct {
			maps
			Jobs map[string]maps `json:"jobs"`
		} `json:"overall"`
	}
	zz.Assert(code == 200 && json.Unmarshal([]byte(text), &r) == nil, "the overall aggregation is served")
	check := func(m maps, what string) {
		zz.Assert(m.Events["x"] == events, what+": events")
		zz.Assert(m.EventErrs["x"].Count == errs, what+": errors")
		zz.Assert(m.Timers["x"].Count == timings && m.Timers["x"].Sum == sum, what+": timings")
		g, ok := m.Gauges["x"]
		zz.Assert(ok == (gauge >= 0) && (!ok || g == gauge), what+": the last gauge")
	}
	check(r.Overall.maps, "overall")
	check(r.Overall.Jobs[job], "job")
	zz.Reach("checked")
}
