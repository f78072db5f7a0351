package top

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/braintree/manners"
	"github.com/buger/goterm"
	"github.com/gocraft/health"
	"github.com/gocraft/health/cmd/healthd/zzhealthdcmd"
	"github.com/gocraft/health/cmd/healthtop/zzhealthtop"
	"github.com/gocraft/health/zzverif/zz"
	"github.com/spf13/cobra"
)

// network connects the processes of a harness: requests go to handlers.
type network struct {
	mu       sync.Mutex
	handlers map[string]func() http.Handler
	delay    map[string]time.Duration
	asked    map[string]int
}

func newNetwork() *network {
	n := &network{handlers: map[string]func() http.Handler{}, delay: map[string]time.Duration{}, asked: map[string]int{}}
	http.DefaultTransport = n
	http.DefaultClient = &http.Client{}
	return n
}

type respWriter struct {
	h    http.Header
	code int
	b    []byte
}

func (r *respWriter) Header() http.Header { return r.h }
func (r *respWriter) WriteHeader(c int)   { r.code = c }
func (r *respWriter) Write(b []byte) (int, error) {
	r.b = append(r.b, b...)
	return len(b), nil
}

type strBody struct{ *strings.Reader }

func (strBody) Close() error { return nil }

func (n *network) RoundTrip(r *http.Request) (*http.Response, error) {
	n.mu.Lock()
	n.asked[r.URL.Host]++
	f, d := n.handlers[r.URL.Host], n.delay[r.URL.Host]
	n.mu.Unlock()
	time.Sleep(d)
	if f == nil {
		return nil, fmt.Errorf("no such host")
	}
	w := &respWriter{h: http.Header{}, code: 200}
	f().ServeHTTP(w, r)
	return &http.Response{Status: "x", StatusCode: w.code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: w.h, Body: strBody{strings.NewReader(string(w.b))}, Request: r}, nil
}

func fetch(h http.Handler, path string) (int, string) {
	w := &respWriter{h: http.Header{}, code: 200}
	h.ServeHTTP(w, &http.Request{Method: "GET", URL: &url.URL{Path: path}})
	return w.code, string(w.b)
}

type stub struct{}

func (stub) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	rw.Write([]byte(`{"instance_id":"i","interval_duration":60000000000,"aggregations":[]}`))
}

// C33_start starts the daemon: it monitors the hosts it is told to, and itself, and serves where it is told to.
func C33_start() {
	zz.CatchExit()
	n := []int{1, 2, 3, 6}[zz.Choice("hosts", 4)]
	zz.Bound("configuration", "1 to 3 or 6 hosts, addresses given or not, of one or two letters and a port, which may be the same")
	net := newNetwork()
	var hosts []string
	port := []string{":1", ":5030", ":5031", ":2"}[zz.Choice("port", 4)]
	for i := 0; i < n; i++ {
		h := string(rune('p'+i)) + mixed(fmt.Sprint("h", i), 1, 1) + port
		hosts = append(hosts, h)
		net.handlers[h] = func() http.Handler { return stub{} }
		net.delay[h] = time.Duration(i+1) * time.Millisecond
	}
	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", strings.Join(hosts, ","))
	own, api := ":5030", ":5031"
	if zz.Bool("own given") {
		own = letters("own", 1, 1) + ":2"
		os.Setenv("HEALTH_HOSTPORT", own)
	}
	if zz.Bool("api given") {
		api = letters("api", 1, 1) + ":3"
		os.Setenv("HEALTHD_SERVER_HOSTPORT", api)
	}
	net.delay[own] = 9 * time.Millisecond
	net.handlers[own] = func() http.Handler {
		for _, s := range zz.Servers() {
			if s.Addr == own {
				return s.Handler.(http.Handler)
			}
		}
		return http.NotFoundHandler()
	}
	go healthdcmd.ZZMain()
	time.Sleep(25 * time.Second)

	zz.Assert(len(zz.Exits()) == 0, "the daemon runs")
	srv := zz.Servers()
	zz.Assert(len(srv) == 1 && srv[0].Addr == own, "the daemon's own health is served at HEALTH_HOSTPORT, by default :5030")
	code, text := fetch(srv[0].Handler.(http.Handler), "/health")
	zz.Assert(code == 200 && strings.Contains(text, `"starting"`), "the daemon's own health tells of its start")
	zz.Assert(len(manners.Servers) == 1 && manners.Servers[0].Addr == api, "the endpoints are served at HEALTHD_SERVER_HOSTPORT, by default :5031")

	want := append(append([]string{}, hosts...), own)
	net.mu.Lock()
	zz.Assert(len(net.asked) == len(want), "no other host is polled")
	for _, h := range want {
		zz.Assert(net.asked[h] == 3, "every host is polled at once and every ten seconds")
	}
	net.mu.Unlock()
	code, text = fetch(manners.Servers[0].Handler, "/healthd/hosts")
	var r struct {
		Hosts []struct {
			HostPort string `json:"host_port"`
			LastCode int    `json:"last_code"`
			LastErr  string `json:"last_err"`
		}
	}
	zz.Assert(code == 200 && json.Unmarshal([]byte(text), &r) == nil, "the hosts are served")
	sort.Strings(want)
	zz.Assert(len(r.Hosts) == len(want), "the hosts given and the daemon itself are monitored")
	for i := range want {
		zz.Assert(r.Hosts[i].HostPort == want[i] && r.Hosts[i].LastCode == 200 && r.Hosts[i].LastErr == "", "each host is monitored")
	}
	zz.Reach("checked")
}

// C33_twice starts the daemon with a list that names a host more than once, or the daemon itself.
func C33_twice() {
	zz.CatchExit()
	zz.Bound("list", "3 names out of 2 hosts and the daemon's own address, in any order")
	net := newNetwork()
	all := []string{"p:1", "q:1", "own:2"}
	var list []string
	for i := 0; i < 3; i++ {
		list = append(list, all[zz.Choice(fmt.Sprint("host", i), 3)])
	}
	for i, h := range all {
		net.handlers[h] = func() http.Handler { return stub{} }
		net.delay[h] = time.Duration(i+1) * time.Millisecond
	}
	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", strings.Join(list, ","))
	os.Setenv("HEALTH_HOSTPORT", "own:2")
	go healthdcmd.ZZMain()
	time.Sleep(25 * time.Second)

	zz.Assert(len(zz.Exits()) == 0, "the daemon runs")
	asked := map[string]bool{"own:2": true}
	for _, h := range list {
		asked[h] = true
	}
	var want []string
	for h := range asked {
		want = append(want, h)
	}
	sort.Strings(want)
	net.mu.Lock()
	zz.Assert(len(net.asked) == len(want), "no other host is polled")
	for _, h := range want {
		zz.Assert(net.asked[h] >= 3, "every host is polled at once and every ten seconds")
	}
	net.mu.Unlock()
	code, text := fetch(manners.Servers[0].Handler, "/healthd/hosts")
	var r struct {
		Hosts []struct {
			HostPort string `json:"host_port"`
			LastCode int    `json:"last_code"`
		}
	}
	zz.Assert(code == 200 && json.Unmarshal([]byte(text), &r) == nil, "the hosts are served")
	zz.Assert(len(r.Hosts) == len(want), "the hosts given and the daemon itself are monitored")
	for i := range want {
		zz.Assert(r.Hosts[i].HostPort == want[i] && r.Hosts[i].LastCode == 200, "each host is monitored")
	}
	zz.Reach("checked")
}

// C33_none starts the daemon without hosts: it ends with an error, having started nothing.
func C33_none() {
	zz.CatchExit()
	net := newNetwork()
	if zz.Bool("empty") {
		os.Setenv("HEALTHD_MONITORED_HOSTPORTS", "")
	}
	if zz.Bool("addresses") {
		os.Setenv("HEALTH_HOSTPORT", ":1")
		os.Setenv("HEALTHD_SERVER_HOSTPORT", ":2")
	}
	go healthdcmd.ZZMain()
	time.Sleep(25 * time.Second)
	e := zz.Exits()
	zz.Assert(len(e) == 1 && e[0] != 0, "the daemon ends with an error")
	zz.Assert(len(zz.Servers()) == 0 && len(manners.Servers) == 0, "nothing is served")
	net.mu.Lock()
	defer net.mu.Unlock()
	zz.Assert(len(net.asked) == 0, "nothing is polled")
	zz.Reach("checked")
}

// C34_endtoend follows completions from the processes to healthtop's screen.
func C34_endtoend() {
	zz.CatchExit()
	procs := zz.Choice("processes", 2) + 1
	zz.Bound("emissions", "1 or 2 processes, each completing a job up to 2 times with any status and one of two durations, another job once, over two intervals")
	net := newNetwork()
	var names []string
	type sums struct {
		count, sum, min, max int64
		by                   [5]int64
	}
	var want sums
	add := func(st int, n int64) {
		if want.count == 0 || n < want.min {
			want.min = n
		}
		if want.count == 0 || n > want.max {
			want.max = n
		}
		want.count++
		want.sum += n
		want.by[st]++
	}
	var sinks []*health.JsonPollingSink
	for p := 0; p < procs; p++ {
		sinks = append(sinks, health.NewJsonPollingSink(time.Minute, 5*time.Minute))
		addr := fmt.Sprintf("p%d:1", p)
		names = append(names, addr)
		s := sinks[p]
		net.handlers[addr] = func() http.Handler { return s }
		net.delay[addr] = time.Duration(p+1) * time.Millisecond
	}
	complete := func(p, i int) {
		st := int(zz.IntN(fmt.Sprintf("status%d%d", p, i), 0, 4))
		n := int64(700)
		if p == 0 {
			n = []int64{100, 2500}[zz.Choice(fmt.Sprint("nanos", i), 2)]
		}
		sinks[p].EmitComplete("a", health.CompletionStatus(st), n, nil)
		add(st, n)
	}
	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", strings.Join(names, ","))
	os.Setenv("HEALTH_HOSTPORT", "own:1")
	os.Setenv("HEALTHD_SERVER_HOSTPORT", ":5032")
	net.delay["localhost:5032"] = 7 * time.Millisecond
	net.handlers["localhost:5032"] = func() http.Handler { return manners.Servers[0].Handler }
	go healthdcmd.ZZMain()
	time.Sleep(500 * time.Millisecond)
	goterm.SetSize(120, 24)
	cobra.Args = []string{"jobs", "--name=a"}
	go healthtop.ZZMain()
	time.Sleep(time.Second)

	for p := 0; p < procs; p++ {
		sinks[p].EmitComplete("b", health.Success, 5, nil)
		complete(p, 0)
	}
	time.Sleep(15 * time.Second)
	zz.Quiesce()
	verify(procs, want.count, want.by, want.sum, want.min, want.max)
	if (procs == 1 || zz.Thorough()) && zz.Bool("later") {
		time.Sleep(time.Minute)
	}
	complete(0, 1)
	time.Sleep(15 * time.Second)
	zz.Quiesce()
	verify(procs, want.count, want.by, want.sum, want.min, want.max)
	zz.Reach("checked")
}

// C34_edge completes a job at several times within one interval and the next.
func C34_edge() {
	zz.CatchExit()
	zz.Bound("edges", "1 process that completes a job 3 times: 0.5, 9.7 or 20.3 s after the start of an interval, 0.3, 5.7 or 9.9 s before its end, and 0.2 or 9.8 s after that; shown 15 s after the first and 25 s into the next interval")
	net := newNetwork()
	s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	net.handlers["p:1"] = func() http.Handler { return s }
	net.delay["p:1"] = time.Millisecond
	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", "p:1")
	os.Setenv("HEALTH_HOSTPORT", "own:1")
	os.Setenv("HEALTHD_SERVER_HOSTPORT", ":5032")
	net.delay["localhost:5032"] = 7 * time.Millisecond
	net.handlers["localhost:5032"] = func() http.Handler { return manners.Servers[0].Handler }
	go healthdcmd.ZZMain()
	time.Sleep(500 * time.Millisecond)
	goterm.SetSize(120, 24)
	cobra.Args = []string{"jobs", "--name=a"}
	go healthtop.ZZMain()
	edge := time.Now().Truncate(time.Minute).Add(time.Minute)
	until := func(t time.Time) {
		time.Sleep(t.Sub(time.Now()))
		zz.Quiesce()
	}
	var by [5]int64
	var count, sum int64
	complete := func(n int64) {
		st := zz.Choice("status", 2)
		s.EmitComplete("a", health.CompletionStatus(st), n, nil)
		by[st]++
		count++
		sum += n
		zz.Quiesce()
	}
	first := edge.Add([]time.Duration{500, 9700, 20300}[zz.Choice("first", 3)] * time.Millisecond)
	until(first)
	complete(100)
	until(first.Add(15 * time.Second))
	verify(1, count, by, sum, 100, 100)
	edge = edge.Add(time.Minute)
	until(edge.Add(-[]time.Duration{300, 5700, 9900}[zz.Choice("before", 3)] * time.Millisecond))
	complete(100)
	until(edge.Add([]time.Duration{200, 9800}[zz.Choice("after", 2)] * time.Millisecond))
	complete(100)
	until(edge.Add(25 * time.Second))
	verify(1, count, by, sum, 100, 100)
	zz.Reach("checked")
}

func verify(procs int, count int64, by [5]int64, sum, min, max int64) {
	status, rows, ok := screen()
	zz.Assert(ok && strings.Contains(status, "[success]"), "healthtop has data")
	n := 0
	for _, r := range rows {
		if r[0] != "a" {
			continue
		}
		n++
		w := []string{fmt.Sprint(count)}
		for _, k := range []health.CompletionStatus{health.Success, health.ValidationError, health.Panic, health.Error, health.Junk} {
			w = append(w, fmt.Sprint(by[k]))
		}
		for i := range w {
			zz.Assert(r[1+i] == w[i], "completions are counted by status, once each")
		}
		zz.Assert(r[9] == unit(min) && r[10] == unit(max) && r[11] == unit(sum), "times arrive")
	}
	zz.Assert(n == 1, "the job is shown")
}
