package hd

import (
	"math"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

type listedJob struct {
	Name            string
	Count           int64
	Success         int64   `json:"count_success"`
	ValidationError int64   `json:"count_validation_error"`
	Panic           int64   `json:"count_panic"`
	Error           int64   `json:"count_error"`
	Junk            int64   `json:"count_junk"`
	Sum             int64   `json:"nanos_sum"`
	SumSquares      float64 `json:"nanos_sum_squares"`
	Min             int64   `json:"nanos_min"`
	Max             int64   `json:"nanos_max"`
	Avg             float64 `json:"nanos_avg"`
	StdDev          float64 `json:"nanos_std_dev"`
}

func getJobs(query string) []listedJob {
	code, text := get("/healthd/jobs", query)
	zz.Assert(code == 200, "jobs can be encoded")
	var r struct{ Jobs []listedJob }
	parse(text, &r)
	return r.Jobs
}

// serve makes healthd serve the jobs, one interval per map.
func serve(maps ...map[string]*health.JobAggregation) {
	h := newHosts()
	t0 := time.Now().Truncate(time.Minute)
	h.answer["h:1"] = func() answer {
		var aggs []*health.IntervalAggregation
		for i, m := range maps {
			ia := health.NewIntervalAggregation(t0.Add(-time.Duration(i) * time.Minute))
			ia.SerialNumber = 1
			ia.Jobs = m
			aggs = append(aggs, ia)
		}
		return answer{code: 200, body: encode("p", time.Minute, aggs...)}
	}
	start("h:1")
	time.Sleep(5 * time.Second)
	zz.Quiesce()
}

func jobOf(samples ...int64) *health.JobAggregation {
	j := &health.JobAggregation{}
	for i, x := range samples {
		if i == 0 || x < j.NanosMin {
			j.NanosMin = x
		}
		if i == 0 || x > j.NanosMax {
			j.NanosMax = x
		}
		j.Count++
		j.NanosSum += x
		j.NanosSumSquares += float64(x) * float64(x)
		j.CountSuccess++
	}
	return j
}

func near(got, want, scale float64) bool {
	return got == want || math.Abs(got-want) <= 1e-6*scale
}

var samples = [][]int64{
	{},
	{5},
	{0, 0},
	{1, 2},
	{1, 2, 3, 4},
	{8430083964, 8430083964, 8430083964, 8430083964, 8430083964, 8430083964, 8430083964}, // the variance is zero up to rounding
	{123456789123, 123456789123, 123456789123, 123456789123, 123456789123},
	{9, 900000000000},
	{-5, 5},
}

// C26_stats compares the statistics with those of the samples.
func C26_stats() {
	zz.Bound("statistics", "9 sets of measurements split over 1 or 2 intervals, beside another job")
	set := samples[zz.Choice("set", len(samples))]
	cut := zz.Choice("cut", len(set)+1)
	m := []map[string]*health.JobAggregation{{"a": jobOf(set[:cut]...), "b": jobOf(7)}}
	if cut < len(set) {
		m = append(m, map[string]*health.JobAggregation{"a": jobOf(set[cut:]...)})
	}
	serve(m...)
	js := getJobs("sort=name")
	zz.Assert(len(js) == 2 && js[0].Name == "a" && js[1].Name == "b", "one entry per job")
	w, g := jobOf(set...), js[0]
	zz.Assert(g.Count == w.Count && g.Success == w.CountSuccess && g.Sum == w.NanosSum && g.Min == w.NanosMin && g.Max == w.NanosMax, "statistics")
	zz.Assert(near(g.SumSquares, w.NanosSumSquares, w.NanosSumSquares), "sum of squares")
	avg, sd := 0.0, 0.0
	if n := len(set); n > 0 {
		avg = float64(w.NanosSum) / float64(n)
		for _, x := range set {
			sd += (float64(x) - avg) * (float64(x) - avg)
		}
		if n > 1 {
			sd = math.Sqrt(sd / float64(n-1))
		}
	}
	zz.Assert(near(g.Avg, avg, math.Abs(avg)), "average")
	zz.Assert(near(g.StdDev, sd, math.Abs(avg)+sd), "standard deviation")
	zz.Assert(js[1].Count == 1 && js[1].Avg == 7 && js[1].StdDev == 0 && js[1].Min == 7 && js[1].Max == 7, "other job")
	zz.Reach("end")
}

// C26_finite serves arbitrary sums.
func C26_finite() {
	zz.Bound("sums", "counts of 0, 1, 2, 10^6..10^7 and 10^9..10^10, sums of 1..9, 10^12..10^13 and 10^18..9*10^18 and sums of squares of at most 10^60 in any combination")
	j := &health.JobAggregation{}
	switch zz.Choice("count", 5) {
	case 1:
		j.Count = 1
	case 2:
		j.Count = 2
	case 3:
		j.Count = zz.IntN("count", 1000000, 9999999)
	case 4:
		j.Count = zz.IntN("count", 1000000000, 9999999999)
	}
	switch zz.Choice("sum", 3) {
	case 0:
		j.NanosSum = zz.IntN("sum", 1, 9)
	case 1:
		j.NanosSum = zz.IntN("sum", 1000000000000, 9999999999999)
	case 2:
		j.NanosSum = zz.IntN("sum", 1000000000000000000, 8999999999999999999)
	}
	sq := zz.Float64In("squares", 1e60)
	zz.Assume(sq >= 0)
	j.NanosSumSquares = sq
	serve(map[string]*health.JobAggregation{"a": j})
	js := getJobs("")
	zz.Assert(len(js) == 1 && js[0].Count == j.Count && js[0].Sum == j.NanosSum && js[0].SumSquares == sq, "statistics")
	if j.Count < 2 {
		zz.Assert(js[0].StdDev == 0, "no deviation below two measurements")
	}
	if j.Count == 0 {
		zz.Assert(js[0].Avg == 0, "no average without measurements")
	}
	if j.Count == 1 {
		zz.Assert(js[0].Avg == float64(j.NanosSum), "average of one measurement")
	}
	zz.Reach("end")
}

var keys = []struct {
	name string
	get  func(j *listedJob) int64
	flt  func(j *listedJob) float64
}{
	{"count", func(j *listedJob) int64 { return j.Count }, nil},
	{"count_success", func(j *listedJob) int64 { return j.Success }, nil},
	{"count_validation_error", func(j *listedJob) int64 { return j.ValidationError }, nil},
	{"count_panic", func(j *listedJob) int64 { return j.Panic }, nil},
	{"count_error", func(j *listedJob) int64 { return j.Error }, nil},
	{"count_junk", func(j *listedJob) int64 { return j.Junk }, nil},
	{"total_time", func(j *listedJob) int64 { return j.Sum }, nil},
	{"min", func(j *listedJob) int64 { return j.Min }, nil},
	{"max", func(j *listedJob) int64 { return j.Max }, nil},
	{"avg", nil, func(j *listedJob) float64 { return j.Avg }},
	{"stddev", nil, func(j *listedJob) float64 { return j.StdDev }},
}

// C26_sort orders jobs by any key.
func C26_sort() {
	n := 3
	if zz.Thorough() {
		n = 4
	}
	zz.Bound("ordering", "3 (thorough 4) jobs; the key's value any of 1..9 (counts 1, 2 or 5) per job and all others equal, or of 3 data sets each for average and deviation; limits 0..4, none, negative, malformed and too large")
	names := []string{"b", "a%d", "B", "c"}[:n]
	limits := []struct {
		text string
		n    int
	}{{"", n}, {"&limit=0", n}, {"&limit=1", 1}, {"&limit=2", 2}, {"&limit=4", n}, {"&limit=-1", n}, {"&limit=x", n}, {"&limit=99999999999999999999", n}, {"&limit=2x", n}, {"&limit=1.5", n}, {"&limit=0x1", n}, {"&limit=1%2C0", n}}
	limit := limits[zz.Choice("limit", len(limits))]
	k := zz.Choice("key", len(keys)+2)
	key := "name"
	if k < len(keys) {
		key = keys[k].name
	} else if k > len(keys) {
		key = "unknown"
	}
	m := map[string]*health.JobAggregation{}
	vals := make([]int64, n)
	for i, name := range names {
		j := &health.JobAggregation{}
		j.Count, j.NanosSum, j.NanosSumSquares = 1, 3, 3
		switch key {
		case "avg", "stddev":
			j = jobOf([][]int64{{1, 9}, {2, 4}, {7, 7}}[zz.Choice("data", 3)]...)
		default:
			x := int64(1)
			if key == "count" { // also enters the average and the deviation
				x = []int64{1, 2, 5}[zz.Choice("count", 3)]
			} else {
				x = zz.IntN("value", 1, 9)
			}
			vals[i] = x
			switch key {
			case "count":
				j.Count = x
			case "count_success":
				j.CountSuccess = x
			case "count_validation_error":
				j.CountValidationError = x
			case "count_panic":
				j.CountPanic = x
			case "count_error":
				j.CountError = x
			case "count_junk":
				j.CountJunk = x
			case "total_time":
				j.NanosSum = x
			case "min":
				j.NanosMin = x
			case "max":
				j.NanosMax = x
			}
		}
		m[name] = j
	}
	serve(m)
	js := getJobs("sort=" + key + limit.text)
	zz.Assert(len(js) == limit.n, "limit")
	seen := map[string]bool{}
	for i := range js {
		g := &js[i]
		w := m[g.Name]
		zz.Assert(w != nil && !seen[g.Name], "every job once")
		seen[g.Name] = true
		zz.Assert(g.Count == w.Count && g.Success == w.CountSuccess && g.ValidationError == w.CountValidationError && g.Panic == w.CountPanic && g.Error == w.CountError && g.Junk == w.CountJunk && g.Sum == w.NanosSum && g.Min == w.NanosMin && g.Max == w.NanosMax, "counts")
		if i > 0 && key == "name" {
			zz.Assert(js[i-1].Name < g.Name, "names ascending")
		}
		if k < len(keys) {
			if i > 0 {
				if f := keys[k].get; f != nil {
					zz.Assert(f(&js[i-1]) >= f(g), "numbers descending")
				} else {
					zz.Assert(keys[k].flt(&js[i-1]) >= keys[k].flt(g), "numbers descending")
				}
			}
		}
	}
	if k < len(keys) && key != "avg" && key != "stddev" && len(js) > 0 {
		// the first ones are the largest
		last := keys[k].get(&js[len(js)-1])
		for i, name := range names {
			zz.Assert(seen[name] || vals[i] <= last, "the limit keeps the largest")
		}
	}
	zz.Reach("end")
}

// C26_empty lists jobs before there is data.
func C26_empty() {
	zz.Bound("empty", "no data, or data without jobs, with or without sorting and limit")
	if zz.Choice("data", 2) == 1 {
		serve(map[string]*health.JobAggregation{})
	} else {
		h := newHosts()
		h.answer["h:1"] = func() answer { return answer{fail: true} }
		start("h:1")
	}
	zz.Quiesce()
	q := []string{"", "sort=count", "sort=name&limit=3", "limit=1"}[zz.Choice("query", 4)]
	zz.Assert(len(getJobs(q)) == 0, "empty list")
	zz.Reach("end")
}
