def D(pkg, imports, body, extra=""):
    return "package %s\n\nimport (\n%s\t\"testing\"\n)\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (pkg, "".join('\t"%s"\n' % i for i in imports), extra, body)
NET='''type zzNet struct {
	mu sync.Mutex
	n  int
	f  func(n int, r *http.Request) (*http.Response, error)
}

func (z *zzNet) RoundTrip(r *http.Request) (*http.Response, error) {
	z.mu.Lock()
	defer z.mu.Unlock()
	z.n++
	return z.f(z.n, r)
}

func zzOK(s string) *http.Response {
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(s))}
}
'''
seeds=[
dict(id="c32-first-error-kept",property="C32",pkg="cmd/healthtop",top=True,
 needs="two polls in a row that fail in different ways",
 breaks="The status line keeps the text of the first error until a poll succeeds",
 edits=[("cmd/healthtop/hosts.go","""			hStatus.lastErrorAt = time.Now()
			hStatus.lastError = err
""","""			if !hStatus.lastErrorAt.After(hStatus.lastSuccessAt) {
				hStatus.lastError = err
			}
			hStatus.lastErrorAt = time.Now()
""")],
 demo=D("main",["errors","io","net/http","strings","sync","time","github.com/buger/goterm"],'''	http.DefaultTransport = &zzNet{f: func(n int, r *http.Request) (*http.Response, error) {
		if n == 1 {
			return nil, errors.New("refused")
		}
		return nil, errors.New("reset")
	}}
	http.DefaultClient = &http.Client{}
	go hostsLoop()
	time.Sleep(3500 * time.Millisecond)
	s := goterm.Shown()
	if i := strings.LastIndex(s, "\\033[2J"); i < 0 || !strings.Contains(s[i:], "reset") {
		t.Fatalf("the last error is not shown: %q", s[i:])
	}
''',NET)),
dict(id="c32-rounds-milliseconds",property="C32",pkg="cmd/healthtop",top=True,
 needs="a duration above 2 ms that is more than half a millisecond above a whole one",
 breaks="Milliseconds are rounded instead of whole milliseconds being shown",
 edits=[("cmd/healthtop/jobs.go","""		nanos /= 1000000
""","""		nanos = (nanos + 500000) / 1000000
""")],
 demo=D("main",["strings","github.com/buger/goterm"],'''	tb := goterm.NewTable(0, 10, 5, ' ', 0)
	printCellNanos(7900000, tb, false, false, false)
	if !strings.Contains(tb.String(), "7 ms") {
		t.Fatalf("%q", tb.String())
	}
''')),
dict(id="c32-filter-reuses-rows",property="C32",pkg="cmd/healthtop",top=True,
 needs="--name with a job that does not match between two that do",
 breaks="The filter removes the first job that does not match by moving the last one into its place, so that the rows are not in the order asked for",
 edits=[("cmd/healthtop/jobs.go","""	filteredSlice := []*healthd.Job{}

	for _, job := range resp.Jobs {
		if strings.Contains(job.Name, name) {
			filteredSlice = append(filteredSlice, job)
		}
	}

	resp.Jobs = filteredSlice
""","""	jobs := resp.Jobs

	for i := 0; i < len(jobs); {
		if strings.Contains(jobs[i].Name, name) {
			i++
			continue
		}
		last := len(jobs) - 1
		jobs[i] = jobs[last]
		jobs = jobs[:last]
	}

	resp.Jobs = jobs
""")],
 demo=D("main",["github.com/gocraft/health/healthd"],'''	r := &healthd.ApiResponseJobs{Jobs: []*healthd.Job{{Name: "xa"}, {Name: "y"}, {Name: "xb"}, {Name: "xc"}}}
	filterJobsByName(r, "x")
	got := ""
	for _, j := range r.Jobs {
		got += j.Name + " "
	}
	if got != "xa xb xc " {
		t.Fatal(got)
	}
''')),
dict(id="c33-own-address-substring",property="C33",pkg="cmd/healthd",top=True,
 needs="a monitored host whose address contains the daemon's own health address, such as web1:5030",
 breaks="The daemon does not monitor itself although only another host with the same port is listed",
 edits=[("cmd/healthd/main.go","""	monitoredHostPorts = append(monitoredHostPorts, healthHostPort)
""","""	// (unless we were told to do so anyway)
	if !strings.Contains(os.Getenv("HEALTHD_MONITORED_HOSTPORTS"), healthHostPort) {
		monitoredHostPorts = append(monitoredHostPorts, healthHostPort)
	}
""")],
 demo=D("main",["net/http","os","sync","time","errors"],'''	os.Setenv("HEALTHD_MONITORED_HOSTPORTS", "web1:45030")
	os.Setenv("HEALTH_HOSTPORT", ":45030")
	z := &zzHosts{seen: map[string]bool{}}
	http.DefaultTransport = z
	http.DefaultClient = &http.Client{}
	go main()
	time.Sleep(2 * time.Second)
	z.mu.Lock()
	defer z.mu.Unlock()
	if !z.seen["web1:45030"] || !z.seen[":45030"] {
		t.Fatal("polled:", z.seen)
	}
''','''type zzHosts struct {
	mu   sync.Mutex
	seen map[string]bool
}

func (z *zzHosts) RoundTrip(r *http.Request) (*http.Response, error) {
	z.mu.Lock()
	defer z.mu.Unlock()
	z.seen[r.URL.Host] = true
	return nil, errors.New("refused")
}
''')),
dict(id="c34-serial-of-repeats",property="C34",pkg=".",
 needs="a second successful completion of a job in an interval that healthd has already fetched",
 breaks="The serial number of an interval does not change with further successful completions of a job, so healthd takes the answer for one it already has",
 edits=[("aggregator.go","""	jobAgg.ingest(status, nanos)
	intAgg.SerialNumber++
""","""	jobAgg.ingest(status, nanos)
	if status != Success || jobAgg.CountSuccess == 1 {
		intAgg.SerialNumber++
	}
""")],
 demo=D("health",["time"],'''	s := NewJsonPollingSink(24*time.Hour, 48*time.Hour)
	defer s.ShutdownServer()
	s.EmitComplete("j", Success, 5, nil)
	time.Sleep(200 * time.Millisecond)
	a := s.GetMetrics()
	s.EmitComplete("j", Success, 5, nil)
	time.Sleep(200 * time.Millisecond)
	b := s.GetMetrics()
	x, y := a[len(a)-1], b[len(b)-1]
	if x.IntervalStart.Equal(y.IntervalStart) && x.SerialNumber == y.SerialNumber {
		t.Fatal("changed data have the same serial number")
	}
''')),
]
