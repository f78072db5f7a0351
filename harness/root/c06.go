package root

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// bucket is the start of the interval that holds the current time.
func bucket(d time.Duration) int64 {
	t := time.Now().UnixNano()
	return t - t%int64(d)
}

// checkWindow checks the list of intervals against the emissions made so far: at[i] is the
// bucket of the emission that was made as event names[i].
func checkWindow(m []*health.IntervalAggregation, d time.Duration, max int, at []int64, names []string) {
	cur := bucket(d)
	zz.Assert(len(m) >= 1, "current interval listed")
	zz.Assert(len(m) <= max, "no more than the retained number of intervals")
	starts := make([]int64, len(m))
	for i, ia := range m {
		starts[i] = ia.IntervalStart.UnixNano()
		zz.Assert(starts[i]%int64(d) == 0, "interval start is aligned")
		if i > 0 {
			zz.Assert(starts[i] > starts[i-1], "intervals oldest first, each once")
		}
	}
	zz.Assert(starts[len(m)-1] == cur, "the last interval is the current one")
	per := make([]int64, len(m))
	for k, b := range at {
		found := false
		older := true
		for i := range m {
			if starts[i] == b {
				found = true
				per[i]++
				zz.Assert(m[i].Events[names[k]] == 1, "emission recorded in its interval")
			}
			if starts[i] <= b {
				older = false
			}
		}
		zz.Assert(found || (older && len(m) == max), "only the oldest intervals are dropped, and only at the limit")
	}
	for i := range m {
		zz.Assert(int64(len(m[i].Events)) == per[i], "nothing else in the interval")
		zz.Assert(m[i].SerialNumber == per[i], "serial number of the interval")
	}
}

// clock moves time to arbitrary later instants: each is described by the number of the slot
// (a second, or the interval if that is shorter) it lies in, which is enumerated, and the
// place within the slot, which is symbolic.
type clock struct {
	t0   time.Time
	slot time.Duration
	q    int64
	off  int64
}

func newClock(d time.Duration) *clock {
	c := &clock{t0: time.Now(), slot: time.Second}
	if d < c.slot {
		c.slot = d
	}
	c.to(int64(zz.Choice("start.slot", int(d/c.slot))), zz.IntN("start.offset", 0, int64(c.slot)-1))
	return c
}

func (c *clock) to(q int64, off int64) {
	c.q, c.off = q, off
	time.Sleep(time.Duration(q*int64(c.slot)+off) - time.Since(c.t0))
	zz.Quiesce()
}

// advance goes to an arbitrary instant less than max slots ahead.
func (c *clock) advance(name string, max int) {
	k := int64(zz.Choice(name+".slots", max))
	off := zz.IntN(name+".offset", 0, int64(c.slot)-1)
	if k == 0 {
		zz.Assume(off > c.off)
	}
	c.to(c.q+k, off)
}

var eventNames = []string{"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7"}

// C06_rotate emits and reads at arbitrary times.
func C06_rotate() {
	type conf struct{ d, retain time.Duration }
	confs := []conf{
		{2 * time.Second, 6 * time.Second},
		{500 * time.Millisecond, 1500 * time.Millisecond},
		{2 * time.Second, 3 * time.Second},
		{3 * time.Second, 2 * time.Second},
		{time.Second, time.Second},
		{200 * time.Millisecond, 400 * time.Millisecond},
	}
	zz.Bound("configurations", "interval/retention 2s/6s, 0.5s/1.5s, 2s/3s, 3s/2s, 1s/1s, 0.2s/0.4s")
	zz.Bound("history", "3 (thorough 4) emissions, each at any nanosecond less than (retained number + 1) intervals (with 0.2s two more) after the previous one, metrics read after each; the sink is created at any nanosecond of an interval")
	c := confs[zz.Choice("conf", len(confs))]
	max := int(c.retain / c.d)
	if max < 1 {
		max = 1
	}
	n := 3
	if zz.Thorough() {
		n = 4
	}
	clk := newClock(c.d)
	ahead := (max + 1) * int(c.d/clk.slot)
	if c.d < 500*time.Millisecond {
		ahead += 2 // the ticks come less often than the intervals
	}
	s := health.NewJsonPollingSink(c.d, c.retain)
	zz.Quiesce()
	var at []int64
	for i := 0; i < n; i++ {
		clk.advance("pause", ahead)
		at = append(at, bucket(c.d))
		s.EmitEvent("j", eventNames[i], nil)
		zz.Quiesce()
		m := s.GetMetrics()
		checkWindow(m, c.d, max, at, eventNames)
	}
	m := s.GetMetrics()
	zz.Obs("n", len(m))
	for _, ia := range m {
		zz.Obs("start", ia.IntervalStart.UnixNano())
		zz.Obs("serial", ia.SerialNumber)
	}
	zz.Reach("end")
}

// C06_long runs over many intervals with a read only at the end or after an idle time.
func C06_long() {
	zz.Bound("history", "3s intervals, retention 9s: 8 emissions of which 2 follow a pause of any length up to 3 intervals and the others a fixed pause; then an idle time of 0..12 s")
	d := 3 * time.Second
	clk := newClock(d)
	s := health.NewJsonPollingSink(d, 9*time.Second)
	zz.Quiesce()
	var at []int64
	for i := 0; i < 8; i++ {
		if i == 1 || i == 4 {
			clk.advance("pause", 9)
		} else {
			clk.to(clk.q+2*int64(i%2), clk.off)
		}
		at = append(at, bucket(d))
		s.EmitEvent("j", eventNames[i], nil)
		zz.Quiesce()
	}
	checkWindow(s.GetMetrics(), d, 3, at, eventNames)
	clk.to(clk.q+int64(zz.Choice("idle", 13)), clk.off)
	m := s.GetMetrics()
	checkWindow(m, d, 3, at, eventNames)
	zz.Reach("end")
	zz.Obs("start", m[0].IntervalStart.UnixNano())
}

// C06_frozen keeps all past intervals that were ever listed.
func C06_frozen() {
	zz.Bound("frozen", "1..6 intervals of 2 s retained; one event per interval over 8 intervals, at any nanosecond of a second; metrics read in each interval or (any choice) skipped; past intervals of every list kept and compared at the end")
	max := 1 + zz.Choice("retained", 6)
	d := 2 * time.Second
	clk := newClock(d)
	s := health.NewJsonPollingSink(d, time.Duration(max)*d)
	zz.Quiesce()
	every := 1 + zz.Choice("every", 3)
	var kept []*health.IntervalAggregation
	var was []*snap
	var at []int64
	for i := 0; i < 8; i++ {
		clk.to(clk.q+2, clk.off)
		at = append(at, bucket(d))
		emit(s, em{kind: kEvent, job: "j", event: eventNames[i]})
		zz.Quiesce()
		if i%every == 0 {
			m := s.GetMetrics()
			checkWindow(m, d, max, at, eventNames)
			for _, ia := range m[:len(m)-1] {
				kept = append(kept, ia)
				was = append(was, snapOf(ia))
			}
		}
	}
	var now []*snap
	for _, ia := range kept {
		now = append(now, snapOf(ia))
	}
	sameAll(was, now, "past interval")
	zz.Reach("end")
}
