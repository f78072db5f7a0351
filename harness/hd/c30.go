package hd

import (
	"time"

	"github.com/gocraft/health/zzverif/zz"
)

// C30_healthd asks healthd while hosts answer.
func C30_healthd() {
	zz.Bound("healthd", "a request to any one of the four endpoints while the first answers of two hosts come in and are aggregated; data races and every interleaving of synchronisation operations within the bound")
	h := newHosts()
	at := time.Now().Truncate(time.Minute)
	n := zz.IntN("n", 10, 99)
	gate := make(chan bool)
	for _, name := range []string{"a:1", "b:1"} {
		h.answer[name] = func() answer {
			<-gate
			v := delivery{host: name, instance: "p", at: at, serial: 1, n: n, ok: 2}
			return answer{code: 200, body: encode("p", time.Minute, v.agg())}
		}
	}
	path := []string{"/healthd/aggregations", "/healthd/aggregations/overall", "/healthd/jobs", "/healthd/hosts"}[zz.Choice("path", 4)]
	zz.DetectRaces()
	start("a:1", "b:1")
	zz.Quiesce()
	if zz.Thorough() {
		zz.ExploreSchedules(8, 1)
	} else {
		zz.ExploreSchedules(5, 0)
	}
	close(gate)
	done := make(chan int, 1)
	go func() {
		code, _ := get(path, "")
		done <- code
	}()
	code := <-done
	zz.Assert(code == 200, "the request is answered")
	zz.StopExploring()
	time.Sleep(3 * time.Second)
	zz.Quiesce()
	a := getAggs()
	zz.Assert(len(a.Aggregations) == 1 && a.Aggregations[0].Events["e"] == 2*n, "data of both hosts")
	zz.Reach("end")
}
