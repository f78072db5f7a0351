package root

import (
	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

type kv struct{ k, v string }

// put records an assignment in an association list.
func put(l []kv, k, v string) []kv {
	for i := range l {
		if l[i].k == k {
			r := append([]kv{}, l...)
			r[i].v = v
			return r
		}
	}
	return append(append([]kv{}, l...), kv{k, v})
}

func isExactly(m map[string]string, l []kv) bool {
	ok := len(m) == len(l)
	for _, e := range l {
		v, has := m[e.k]
		ok = ok && has && v == e.v
	}
	return ok
}

// emitKind makes one emission of each of the ten forms.
func emitKind(j *health.Job, form int, kvs map[string]string) {
	switch form {
	case 0:
		j.EventKv("e", kvs)
	case 1:
		j.EventErrKv("e", textErr{"x"}, kvs)
	case 2:
		j.TimingKv("e", 1, kvs)
	case 3:
		j.GaugeKv("e", 1, kvs)
	case 4:
		j.CompleteKv(health.Success, kvs)
	case 5:
		j.Event("e")
	case 6:
		j.EventErr("e", textErr{"x"})
	case 7:
		j.Timing("e", 1)
	case 8:
		j.Gauge("e", 1)
	case 9:
		j.Complete(health.Success)
	}
}

// C02_merge checks what sinks receive and that nothing stored changes.
func C02_merge() {
	zz.Bound("maps", "stream, job and call key/values with 0..2 entries each, keys and values 1 arbitrary byte; call map may be nil or empty")
	zz.Bound("history", "emission of any of the ten forms, change of one key/value on stream or job, a second emission, then one on another job")
	log := &recLog{}
	s := health.NewStream().AddSink(&recSink{0, log})
	if zz.Choice("two", 2) == 1 {
		s.AddSink(&recSink{1, log})
	}
	var ls, lj, lc []kv
	for i, n := 0, zz.Choice("stream.n", 3); i < n; i++ {
		k, v := zz.String("sk", 1, 1), zz.String("sv", 1, 1)
		zz.Assert(s.KeyValue(k, v) == s, "KeyValue returns the stream")
		ls = put(ls, k, v)
	}
	j := s.NewJob("j")
	for i, n := 0, zz.Choice("job.n", 3); i < n; i++ {
		k, v := zz.String("jk", 1, 1), zz.String("jv", 1, 1)
		zz.Assert(j.KeyValue(k, v) == j, "KeyValue returns the job")
		lj = put(lj, k, v)
	}
	var call map[string]string
	form := zz.Choice("form", 10)
	if form < 5 {
		n := zz.Choice("call.n", 4)
		if n > 0 {
			call = map[string]string{}
		}
		for i := 1; i < n; i++ {
			k, v := zz.String("ck", 1, 1), zz.String("cv", 1, 1)
			call[k] = v
			lc = put(lc, k, v)
		}
	}
	union := func(ls, lj, lc []kv) []kv {
		w := ls
		for _, e := range lj {
			w = put(w, e.k, e.v)
		}
		for _, e := range lc {
			w = put(w, e.k, e.v)
		}
		return w
	}
	check := func(from int, want []kv, what string) {
		for _, r := range log.recs[from:] {
			zz.Assert(isExactly(r.kvs, want), what)
		}
	}
	intact := func() {
		zz.Assert(isExactly(s.KeyValues, ls), "key/values stored on the stream unchanged by emitting")
		zz.Assert(isExactly(j.KeyValues, lj), "key/values stored on the job unchanged by emitting")
		zz.Assert(isExactly(call, lc), "the caller's map unchanged by emitting")
	}
	emitKind(j, form, call)
	check(0, union(ls, lj, lc), "sinks receive the union, call over job over stream")
	intact()

	k, v := zz.String("nk", 1, 1), zz.String("nv", 1, 1)
	if zz.Choice("change", 2) == 0 {
		s.KeyValue(k, v)
		ls = put(ls, k, v)
	} else {
		j.KeyValue(k, v)
		lj = put(lj, k, v)
	}
	intact()
	n := len(log.recs)
	emitKind(j, (form+5)%10, nil)
	check(n, union(ls, lj, nil), "a later emission is not influenced by an earlier one")
	intact()
	n = len(log.recs)
	s.NewJob("other").Event("e")
	check(n, ls, "another job has only the stream's key/values")
	intact()
	n = len(log.recs)
	s.Event("e")
	check(n, ls, "the stream's own emissions have only the stream's key/values")
	zz.Reach("end")
	zz.Obs("n", len(log.recs[0].kvs))
}
