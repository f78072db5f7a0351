package top

import (
	"fmt"
	"strings"
	"time"

	"github.com/buger/goterm"

	"github.com/gocraft/health/zzverif/zz"
)

// letters is a string of letters a and b (symbolic), of a chosen length.
func letters(name string, min, max int64) string {
	n := int(zz.IntN(name+".len", min, max))
	for k := min; k < max; k++ { // a concrete length
		if int64(n) == k {
			n = int(k)
			break
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(zz.IntN(name+string(rune('0'+i)), 'a', 'b'))
	}
	return string(b)
}

// mixed is a string of the letters a, b, A and B.
func mixed(name string, min, max int64) string {
	b := []byte(letters(name, min, max))
	for i := range b {
		b[i] = zz.Byte(name + "." + string(rune('0'+i)))
		zz.Assume(b[i] == 'a' || b[i] == 'b' || b[i] == 'A' || b[i] == 'B')
	}
	return string(b)
}

// nanos is a duration near one of the values where healthtop changes the unit.
func nanos(name string, float bool) int64 {
	lo := []int64{0, 995, 1995, 1999995, 2000995, 16999995, 123656789}[zz.Choice(name+".mag", 7)]
	if float { // the text of a float is concrete
		return lo + int64(zz.Choice(name+".off", 10))
	}
	return lo + zz.IntN(name, 0, 9)
}

func unit(n int64) string {
	switch {
	case n > 2000000:
		return fmt.Sprintf("%d ms", n/1000000)
	case n > 1000:
		return fmt.Sprintf("%d μs", n/1000)
	}
	return fmt.Sprintf("%d ns", n)
}

// C32_jobs compares the rows of healthtop jobs with the jobs healthd reports, number by number.
func C32_jobs() {
	n := zz.Choice("jobs", 3)
	zz.Bound("jobs in the answer", "0 to 2; counts 10 to 17; a duration within 10 ns of 0, 1 μs, 2 μs, 2 ms, 2.001 ms, 17 ms, 123.66 ms")
	var want [][]string
	body := ""
	which := zz.Choice("which", 5)
	for i := 0; i < n; i++ {
		name := string(rune('p'+i)) + letters(fmt.Sprint("name", i), 2, 2)
		var c [6]int64
		for k := range c {
			c[k] = 10 + zz.IntN(fmt.Sprintf("c%d%d", i, k), 0, 7)
		}
		d := [5]int64{11, 22, 33, 44, 55} // avg, stddev, min, max, sum
		if i == n-1 {
			d[which] = nanos("d", which < 2)
		}
		if i > 0 {
			body += ","
		}
		body += fmt.Sprintf(`{"name":"%s","count":%d,"count_success":%d,"count_validation_error":%d,"count_panic":%d,"count_error":%d,"count_junk":%d,"nanos_sum":%d,"nanos_sum_squares":1,"nanos_min":%d,"nanos_max":%d,"nanos_avg":%d.0,"nanos_std_dev":%d.0}`,
			name, c[0], c[1], c[2], c[3], c[4], c[5], d[4], d[2], d[3], d[0], d[1])
		w := []string{name}
		for _, x := range c {
			w = append(w, fmt.Sprint(x))
		}
		for _, x := range d {
			w = append(w, unit(x))
		}
		want = append(want, w)
	}
	run(24, func(int) answer { return answer{code: 200, body: `{"jobs":[` + body + `]}`} }, "jobs")
	time.Sleep(500 * time.Millisecond)
	status, rows, ok := screen()
	zz.Assert(ok && strings.Contains(status, "[success]"), "healthtop says that it has data")
	zz.Assert(len(rows) == n, "one row per job")
	for i := range rows {
		zz.Assert(len(rows[i]) >= 12, "twelve cells in a row")
		for k := range want[i] {
			zz.Assert(rows[i][k] == want[i][k], "a cell shows the number healthd reported")
		}
	}
	zz.Reach("checked")
}

// C32_query looks at what healthtop asks for: what fits, in the order wanted.
func C32_query() {
	h := zz.IntN("height", 1, 12)
	zz.Bound("height of the terminal", "1 to 12 lines; sort and name of up to 2 letters")
	sort := mixed("sort", 0, 2)
	name := letters("name", 0, 2)
	args := []string{"jobs"}
	wantSort := "name"
	if zz.Bool("sorted") {
		args = append(args, "--sort="+sort)
		wantSort = sort
	}
	if name != "" {
		args = append(args, "--name="+name)
	}
	source := "localhost:5032"
	if zz.Bool("source") {
		source = "h" + letters("src", 1, 1) + ":1"
		args = append(args, "--source="+source)
	}
	d := run(int(h), func(int) answer { return answer{code: 200, body: `{"jobs":[]}`} }, args...)
	time.Sleep(2500 * time.Millisecond)
	d.mu.Lock()
	defer d.mu.Unlock()
	zz.Assert(len(d.urls) == 3, "healthd is asked at once and every second")
	limit := h - 2
	if limit < 3 {
		limit = 3
	}
	for i, u := range d.urls {
		zz.Assert(d.hosts[i] == source, "the healthd of --source is asked")
		path, q, _ := strings.Cut(u, "?")
		zz.Assert(path == "/healthd/jobs", "the jobs are asked for")
		var want []string
		if name == "" {
			want = append(want, fmt.Sprintf("limit=%d", limit))
		}
		if wantSort != "" {
			want = append(want, "sort="+wantSort)
		}
		zz.Assert(q == strings.Join(want, "&"), "limit and order are passed on")
	}
	zz.Reach("checked")
}

// C32_filter gives a name: the rows are the jobs whose name holds it, in their order.
func C32_filter() {
	f := mixed("filter", 1, 2)
	zz.Bound("names", "3 jobs with names of 1 to 3 letters (a and b, in one of them A and B too), a filter of 1 or 2")
	var names []string
	body := ""
	for i := 0; i < 3; i++ {
		n := ""
		if i == 1 {
			n = mixed(fmt.Sprint("n", i), 1, 3)
		} else {
			n = letters(fmt.Sprint("n", i), 1, 2)
		}
		names = append(names, n)
		if i > 0 {
			body += ","
		}
		body += `{"name":"` + n + `","count":` + fmt.Sprint(i+1) + `}`
	}
	run(24, func(int) answer { return answer{code: 200, body: `{"jobs":[` + body + `]}`} }, "jobs", "--name="+f)
	time.Sleep(500 * time.Millisecond)
	_, rows, ok := screen()
	zz.Assert(ok, "a screen")
	k := 0
	for i, n := range names {
		if !holds(n, f) {
			continue
		}
		zz.Assert(k < len(rows) && rows[k][0] == n && rows[k][1] == fmt.Sprint(i+1), "a job whose name matches is shown, in order")
		k++
	}
	zz.Assert(k == len(rows), "no other job is shown")
	zz.Reach("checked")
}

func holds(s, f string) bool {
	for i := 0; i+len(f) <= len(s); i++ {
		if s[i:i+len(f)] == f {
			return true
		}
	}
	return false
}

// C32_status lets polls fail: the status line tells how the last poll went, and what was shown stays.
func C32_status() {
	hosts := zz.Bool("hosts")
	zz.Bound("polls", "4, each good or failing in one of 5 ways")
	var kinds [4]int
	for i := range kinds {
		kinds[i] = zz.Choice(fmt.Sprint("poll", i), 6)
	}
	cmd := "jobs"
	if hosts {
		cmd = "hosts"
	}
	run(24, func(n int) answer {
		if n > 3 {
			n = 3
		}
		good := fmt.Sprintf(`{"jobs":[{"name":"x%d"}],"hosts":[{"host_port":"x%d"}]}`, n, n)
		switch kinds[n] {
		case 1:
			return answer{fail: true}
		case 2:
			return answer{code: 200, body: good, torn: true}
		case 3:
			return answer{code: 200, body: good[:9]}
		case 4:
			return answer{code: 200, body: "<html>"}
		case 5:
			return answer{code: 500, body: `{"error": "no"}`}
		}
		return answer{code: 200, body: good}
	}, cmd)
	data := ""
	errText := []string{"", "connection refused", "connection reset", "JSON", "invalid character", "500"}
	for i := 0; i < 4; i++ {
		good := kinds[i] == 0
		if good {
			data = fmt.Sprint("x", i)
		}
		// poll i starts at second i; its outcome is on the screen by second i+1
		time.Sleep(999 * time.Millisecond)
		if good {
			check(true, "", data)
		}
		time.Sleep(time.Millisecond)
		zz.Quiesce()
		check(good, errText[kinds[i]], data)
	}
	zz.Reach("checked")
}

func check(good bool, errText, data string) {
	status, rows, ok := screen()
	zz.Assert(ok, "a screen")
	zz.Assert(strings.Contains(status, "[success]") == good, "success is shown exactly after a poll that succeeded")
	zz.Assert(good || strings.Contains(status, "error") && strings.Contains(status, errText), "the error is shown")
	if data == "" {
		zz.Assert(len(rows) == 0, "no data yet")
		return
	}
	zz.Assert(len(rows) == 1 && rows[0][0] == data, "the last good answer is shown")
}

// C32_hosts compares the rows of healthtop hosts with the hosts healthd reports.
func C32_hosts() {
	n := zz.Choice("hosts", 3)
	zz.Bound("hosts", "0 to 2")
	var want [][]string
	body := ""
	for i := 0; i < n; i++ {
		name := letters(fmt.Sprint("host", i), 2, 2) + ":1"
		code := []int{200, 0, 500, 204}[zz.Choice(fmt.Sprint("code", i), 4)]
		e := ""
		if zz.Bool(fmt.Sprint("err", i)) {
			e = "e" + letters(fmt.Sprint("text", i), 1, 1)
		}
		at := "0001-01-01T00:00:00Z"
		checked := zz.Bool(fmt.Sprint("checked", i))
		if checked {
			at = "2020-02-03T04:05:06Z"
		}
		d := int64(7)
		if i == n-1 {
			d = nanos("d", false)
		}
		if i > 0 {
			body += ","
		}
		body += fmt.Sprintf(`{"host_port":"%s","last_check_time":"%s","last_err":"%s","last_nanos":%d,"last_code":%d}`, name, at, e, d, code)
		st := "Failure: " + e
		switch {
		case code == 200 && e == "":
			st = "Success"
		case !checked:
			st = "Unknown"
		}
		t, _ := time.Parse(time.RFC3339, at)
		want = append(want, []string{name, strings.TrimSpace(st), t.Format(time.RFC1123), unit(d)})
	}
	d := run(24, func(int) answer { return answer{code: 200, body: `{"hosts":[` + body + `]}`} }, "hosts", "--source=q:1")
	time.Sleep(500 * time.Millisecond)
	d.mu.Lock()
	zz.Assert(len(d.urls) == 1 && d.urls[0] == "/healthd/hosts" && d.hosts[0] == "q:1", "the hosts are asked for")
	d.mu.Unlock()
	status, rows, ok := screen()
	zz.Assert(ok && strings.Contains(status, "[success]"), "healthtop says that it has data")
	zz.Assert(len(rows) == n, "one row per host")
	for i := range rows {
		for k := range want[i] {
			zz.Assert(rows[i][k] == want[i][k], "a cell shows what healthd reported")
		}
	}
	zz.Reach("checked")
}

// C32_full fills the terminal: the screen keeps up with healthd and shows as many rows as fit.
func C32_full() {
	h := int(zz.IntN("height", 5, 9))
	for k := 5; k < 9; k++ {
		if h == k {
			h = k
			break
		}
	}
	n := zz.Choice("rows", 9)
	view := zz.Choice("view", 3)
	zz.Bound("size", "terminals of 5 to 9 lines, 0 to 8 rows, 3 polls")
	args := [][]string{{"jobs"}, {"jobs", "--name=r"}, {"hosts"}}[view]
	run(h, func(k int) answer {
		m := n
		if view == 0 && m > h-2 { // healthd honours the limit
			m = h - 2
		}
		jobs, hosts := "", ""
		for i := 0; i < m; i++ {
			if i > 0 {
				jobs += ","
				hosts += ","
			}
			jobs += fmt.Sprintf(`{"name":"r%d","count":%d}`, i, k+1)
			hosts += fmt.Sprintf(`{"host_port":"r%d","last_nanos":%d}`, i, k+1)
		}
		return answer{code: 200, body: `{"jobs":[` + jobs + `],"hosts":[` + hosts + `]}`}
	}, args...)
	fit := h - 2
	if n < fit {
		fit = n
	}
	time.Sleep(500 * time.Millisecond)
	for k := 0; k < 3; k++ {
		_, rows, ok := screen()
		zz.Assert(ok, "a screen")
		zz.Assert(len(rows) == fit, "as many rows as fit")
		for i, r := range rows {
			zz.Assert(r[0] == fmt.Sprint("r", i), "rows in the order of the answer")
			if view == 2 {
				zz.Assert(r[3] == fmt.Sprint(k+1, " ns"), "the screen shows the last answer")
			} else {
				zz.Assert(r[1] == fmt.Sprint(k+1), "the screen shows the last answer")
			}
		}
		time.Sleep(time.Second)
	}
	zz.Reach("checked")
}

// C32_resize changes the size of the terminal while healthtop runs.
func C32_resize() {
	zz.Bound("resize", "jobs or hosts; three polls, before each of which the terminal gets 5, 8 or 13 lines")
	view := zz.Choice("view", 3)
	args := [][]string{{"jobs"}, {"jobs", "--name=r"}, {"hosts"}}[view]
	heights := []int{5, 8, 13}
	h := heights[zz.Choice("height", 3)]
	const n = 11
	d := run(h, func(k int) answer {
		jobs, hosts, m := "", "", n
		if fit := goterm.Height() - 2; view == 0 && fit < n { // healthd honours the limit
			m = fit
		}
		for i := 0; i < m; i++ {
			if i > 0 {
				jobs += ","
				hosts += ","
			}
			jobs += fmt.Sprintf(`{"name":"r%02d","count":%d}`, i, k+1)
			hosts += fmt.Sprintf(`{"host_port":"r%02d","last_nanos":%d}`, i, k+1)
		}
		return answer{code: 200, body: `{"jobs":[` + jobs + `],"hosts":[` + hosts + `]}`}
	}, args...)
	time.Sleep(500 * time.Millisecond)
	for k := 0; k < 3; k++ {
		_, rows, ok := screen()
		zz.Assert(ok, "a screen")
		fit := min(h-2, n)
		d.mu.Lock()
		u := d.urls[len(d.urls)-1]
		zz.Assert(len(d.urls) == k+1, "one poll a second")
		d.mu.Unlock()
		if view == 0 {
			zz.Assert(strings.Contains(u, fmt.Sprintf("limit=%d", h-2)), "what fits is asked for")
		}
		zz.Assert(len(rows) == fit, "as many rows as fit")
		h = heights[zz.Choice("height", 3)]
		goterm.SetSize(120, h)
		time.Sleep(time.Second)
	}
	zz.Reach("checked")
}

// C32_empty lets rows come and go: an answer without any empties the screen.
func C32_empty() {
	zz.Bound("rows", "0 to 2 in each of 3 answers of healthtop jobs, healthtop jobs --name or healthtop hosts")
	args := [][]string{{"jobs"}, {"jobs", "--name=r"}, {"hosts"}}[zz.Choice("view", 3)]
	var n [3]int
	for k := range n {
		n[k] = zz.Choice(fmt.Sprint("rows", k), 3)
	}
	run(24, func(k int) answer {
		if k > 2 {
			k = 2
		}
		jobs, hosts := "", ""
		for i := 0; i < n[k]; i++ {
			if i > 0 {
				jobs += ","
				hosts += ","
			}
			jobs += fmt.Sprintf(`{"name":"r%d","count":%d}`, i, k+1)
			hosts += fmt.Sprintf(`{"host_port":"r%d","last_nanos":%d}`, i, k+1)
		}
		return answer{code: 200, body: `{"jobs":[` + jobs + `],"hosts":[` + hosts + `]}`}
	}, args...)
	time.Sleep(500 * time.Millisecond)
	for k := 0; k < 3; k++ {
		status, rows, ok := screen()
		zz.Assert(ok && strings.Contains(status, "[success]"), "success")
		zz.Assert(len(rows) == n[k], "the rows of the last answer, and no others")
		for i, r := range rows {
			zz.Assert(r[0] == fmt.Sprint("r", i), "rows in the order of the answer")
		}
		time.Sleep(time.Second)
	}
	zz.Reach("end")
}
