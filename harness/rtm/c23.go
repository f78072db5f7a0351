// Package rtm holds the harnesses for runtime metrics.
package rtm

import (
	"math"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/runtime_metrics"
	"github.com/gocraft/health/zzverif/zz"
)

// receiver compares gauges with the values that the environment gave.
type receiver struct {
	counts map[string]int
	gauges int
	other  int
	at     []time.Time
	yield  bool
}

func (r *receiver) Event(string)                                              { r.other++ }
func (r *receiver) EventKv(string, map[string]string)                         { r.other++ }
func (r *receiver) EventErr(_ string, err error) error                        { r.other++; return err }
func (r *receiver) EventErrKv(_ string, err error, _ map[string]string) error { r.other++; return err }
func (r *receiver) Timing(string, int64)                                      { r.other++ }
func (r *receiver) TimingKv(string, int64, map[string]string)                 { r.other++ }
func (r *receiver) GaugeKv(name string, v float64, _ map[string]string)       { r.Gauge(name, v) }
func (r *receiver) Gauge(name string, v float64) {
	r.gauges++
	r.counts[name]++
	r.at = append(r.at, time.Now())
	if r.yield {
		zz.Yield()
	}
	unsigned := func(env string) {
		x, ok := zz.EnvInt(env)
		zz.Assert(ok && v == float64(uint64(x)), "value of "+name)
	}
	signed := func(env string) {
		x, ok := zz.EnvInt(env)
		zz.Assert(ok && v == float64(x), "value of "+name)
	}
	quantile := func(env string) {
		x, ok := zz.EnvInt(env)
		zz.Assert(ok, "pause read")
		zz.Assert(v == float64(x/1000)/1000 || v == float64(x)/1e6 || math.Abs(v-float64(x)/1e6) <= 0.001, "value of "+name)
	}
	switch name {
	case "alloc":
		unsigned("mem.Alloc")
	case "heap_objects":
		unsigned("mem.HeapObjects")
	case "pause_total_ns":
		unsigned("mem.PauseTotalNs")
	case "num_gc":
		unsigned("mem.NumGC")
	case "next_gc":
		unsigned("mem.NextGC")
	case "gc_cpu_fraction":
		x, ok := zz.EnvFloat("mem.GCCPUFraction")
		zz.Assert(ok && (v == x || v != v && x != x), "value of gc_cpu_fraction")
	case "gc_pause_quantile_50":
		quantile("gc.PauseQuantiles1")
	case "gc_pause_quantile_max":
		quantile("gc.PauseQuantiles2")
	case "num_goroutines":
		signed("runtime.NumGoroutine")
	case "num_cgo_call":
		signed("runtime.NumCgoCall")
	case "num_fds_used":
		signed("fds")
	default:
		zz.Assert(false, "unknown gauge "+name)
	}
}

func (r *receiver) check(o *runtime_metrics.Options) {
	zz.Assert(r.other == 0, "only gauges")
	want := 0
	one := func(on bool, name string) {
		n := 0
		if on {
			n = 1
		}
		want += n
		zz.Assert(r.counts[name] == n, "number of gauges "+name)
	}
	one(o.Memory, "alloc")
	one(o.Memory, "heap_objects")
	one(o.GC, "pause_total_ns")
	one(o.GC, "num_gc")
	one(o.GC, "next_gc")
	one(o.GC, "gc_cpu_fraction")
	one(o.GCQuantile, "gc_pause_quantile_50")
	one(o.GCQuantile, "gc_pause_quantile_max")
	one(o.Goroutines, "num_goroutines")
	one(o.Cgo, "num_cgo_call")
	fds, _ := zz.EnvInt("fds")
	one(o.FDs && fds != 3, "num_fds_used")
	zz.Assert(r.gauges == want, "number of gauges")
}

var _ health.EventReceiver = (*receiver)(nil)

func anyOptions() *runtime_metrics.Options {
	on := func(n string) bool { return zz.Choice(n, 2) == 1 }
	return &runtime_metrics.Options{
		Interval: time.Duration(1+zz.Choice("interval", 3)) * time.Second,
		Memory:   on("memory"), GC: on("gc"), GCQuantile: on("quantile"), Goroutines: on("goroutines"), Cgo: on("cgo"), FDs: on("fds"),
	}
}

// C23_report makes reports with any options.
func C23_report() {
	zz.Bound("values", "any the runtime can give: all counters 64 (num_gc 32) bits, any GC fraction, any pause of 0..2^63-1 ns, 0..2 file descriptors or none readable")
	zz.Bound("reports", "2, any options, or no options")
	var o *runtime_metrics.Options
	given := zz.Choice("given", 2) == 1
	all := &runtime_metrics.Options{Memory: true, GC: true, GCQuantile: true, Goroutines: true, Cgo: true, FDs: true}
	if given {
		o = anyOptions()
		all = o
	}
	r := &receiver{}
	rm := runtime_metrics.NewRuntimeMetrics(r, o)
	for i := 0; i < 2; i++ {
		r.counts, r.gauges = map[string]int{}, 0
		rm.Report()
		r.check(all)
	}
	zz.Reach("end")
}

// C23_poll starts and stops polling.
func C23_poll() {
	zz.Bound("polling", "intervals of 250 ms, 1..3 s or the default of 5 s; stopped 0..3 intervals and any time below one interval (in 1 ns steps) after the start")
	interval := 5 * time.Second
	var o *runtime_metrics.Options
	if zz.Choice("given", 2) == 1 {
		o = &runtime_metrics.Options{Interval: []time.Duration{time.Second, 2 * time.Second, 3 * time.Second, 250 * time.Millisecond}[zz.Choice("interval", 4)], Goroutines: true}
		interval = o.Interval
	}
	r := &receiver{counts: map[string]int{}}
	rm := runtime_metrics.NewRuntimeMetrics(r, o)
	start := time.Now()
	rm.Start()
	zz.Quiesce()
	k := zz.Choice("reports", 4)
	most := int64(999999999)
	if interval < time.Second {
		most = int64(interval) - 1
	}
	time.Sleep(time.Duration(k)*interval + time.Duration(zz.IntN("rest", 1, most)))
	zz.Quiesce()
	ok := zz.Within(time.Hour, rm.Stop)
	zz.Assert(ok, "stop returns")
	zz.Assert(r.counts["num_goroutines"] == k, "one report per interval")
	per := 1
	if o == nil {
		per = len(r.at)
		if k > 0 {
			zz.Assert(len(r.at)%k == 0 || r.counts["num_fds_used"] < k, "the same gauges in every report")
		}
	}
	if per == 1 {
		for i, t := range r.at {
			zz.Assert(t.Equal(start.Add(time.Duration(i+1)*interval)), "report at the end of the interval")
		}
	}
	n := r.gauges
	time.Sleep(10 * interval)
	zz.Quiesce()
	zz.Assert(r.gauges == n, "nothing after stop")
	zz.Reach("end")
}

// C23_stop stops while a report is made.
func C23_stop() {
	zz.Bound("schedule", "stop at the time of the 1st..2nd report, 2 preemptions (thorough 3)")
	k := 2
	if zz.Thorough() {
		k = 3
	}
	r := &receiver{counts: map[string]int{}, yield: true}
	o := &runtime_metrics.Options{Interval: time.Second, Goroutines: true, Cgo: true}
	rm := runtime_metrics.NewRuntimeMetrics(r, o)
	rm.Start()
	zz.Quiesce()
	zz.ExploreSchedules(30, k)
	time.Sleep(time.Duration(1+zz.Choice("at", 2)) * time.Second)
	ok := zz.Within(time.Minute, rm.Stop)
	n := r.gauges
	zz.StopExploring()
	zz.Assert(ok, "stop returns")
	zz.Assert(r.counts["num_goroutines"] == r.counts["num_cgo_call"], "complete reports")
	time.Sleep(5 * time.Second)
	zz.Quiesce()
	zz.Assert(r.gauges == n, "nothing after stop")
	zz.Reach("end")
}
