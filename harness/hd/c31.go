package hd

import (
	"time"

	"github.com/gocraft/health/zzverif/zz"
)

// C31_healthd asks healthd while it is stopped, and afterwards.
func C31_healthd() {
	zz.Bound("healthd", "one host that has answered; a stop while another goroutine asks any one of the four endpoints; then each endpoint and another stop; every interleaving of synchronisation operations within the bound")
	h := newHosts()
	at := time.Now().Truncate(time.Minute)
	n := zz.IntN("n", 10, 99)
	h.answer["a:1"] = func() answer {
		v := delivery{host: "a:1", instance: "p", at: at, serial: 1, n: n, ok: 2}
		return answer{code: 200, body: encode("p", time.Minute, v.agg())}
	}
	hd := start("a:1")
	time.Sleep(3 * time.Second)
	zz.Quiesce()
	paths := []string{"/healthd/aggregations", "/healthd/aggregations/overall", "/healthd/jobs", "/healthd/hosts"}
	path := paths[zz.Choice("path", len(paths))]
	zz.DetectRaces()
	if zz.Thorough() {
		zz.ExploreSchedules(12, 2)
	} else {
		zz.ExploreSchedules(8, 1)
	}
	done := make(chan int, 1)
	go func() {
		code, _ := get(path, "")
		done <- code
	}()
	ok := zz.Within(10*time.Second, hd.Stop)
	zz.Assert(ok, "stop returns")
	code := 0
	ok = zz.Within(10*time.Second, func() { code = <-done })
	zz.StopExploring()
	zz.Assert(ok, "the request returns")
	zz.Assert(code == 200, "the request is answered")
	for _, p := range paths {
		ok = zz.Within(10*time.Second, func() { code, _ = get(p, "") })
		zz.Assert(ok, "a later request returns")
		zz.Assert(code == 200, "a later request is answered")
	}
	ok = zz.Within(10*time.Second, hd.Stop)
	zz.Assert(ok, "another stop returns")
	zz.Reach("end")
}
