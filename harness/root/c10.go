package root

import (
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// checkSamples compares the samples with the last five of the sequence after collapsing
// runs of equal errors, as multisets.
func checkSamples(ec *health.ErrorCounter, errs []error, what string) {
	zz.Assert(ec != nil, what+": counter present")
	zz.Assert(ec.Count == int64(len(errs)), what+": number of errors")
	if !health.ZZHaveSamples {
		return
	}
	compareSamples(ec.ZZSamples(), errs, what)
}

func compareSamples(got, errs []error, what string) {
	var want []error
	for i, e := range errs {
		if i == 0 || !sameErr(errs[i-1], e) {
			want = append(want, e)
		}
	}
	if len(want) > 5 {
		want = want[len(want)-5:]
	}
	zz.Assert(len(got) == len(want), what+": number of samples")
	for _, w := range want {
		n, m := 0, 0
		for _, x := range want {
			if sameErr(w, x) {
				n++
			}
		}
		for _, x := range got {
			if sameErr(w, x) {
				m++
			}
		}
		zz.Assert(n == m, what+": the samples are the last distinct errors")
	}
}

func sameErr(a, b error) bool {
	switch x := a.(type) {
	case textErr:
		y, ok := b.(textErr)
		return ok && x.s == y.s
	case *ptrErr:
		y, ok := b.(*ptrErr)
		return ok && x.s == y.s
	case codeErr:
		y, ok := b.(codeErr)
		return ok && x.code == y.code
	}
	return false
}

// codeErr has a text that does not tell its contents.
type codeErr struct{ code int64 }

func (e codeErr) Error() string { return "a" }

// C10_content reports errors that differ in type or contents but not in their texts.
func C10_content() {
	n := 5
	if zz.Thorough() {
		n = 6
	}
	zz.Bound("errors", "5 (thorough 6) errors with the same text, of a value or pointer type without further contents or of a type with an arbitrary int64")
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	var errs []error
	for i := 0; i < n; i++ {
		var e error
		switch zz.Choice("type", 3) {
		case 0:
			e = textErr{"a"}
		case 1:
			e = &ptrErr{"a"}
		case 2:
			e = codeErr{zz.Int64("code")}
		}
		s.EmitEventErr("j", "e", e, nil)
		errs = append(errs, e)
	}
	zz.Quiesce()
	m := s.GetMetrics()[0]
	checkSamples(m.EventErrs["e"], errs, "overall")
	checkSamples(m.Jobs["j"].EventErrs["e"], errs, "job")
	zz.Reach("end")
}

// C10_samples reports sequences of errors under one name.
func C10_samples() {
	n := 7
	if zz.Thorough() {
		n = 9
	}
	zz.Bound("errors", "7 (thorough 9) errors with arbitrary 1-byte texts, all of one type, under one name")
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	var errs []error
	for i := 0; i < n; i++ {
		e := textErr{zz.String("text", 1, 1)}
		s.EmitEventErr("j", "e", e, nil)
		errs = append(errs, e)
	}
	zz.Quiesce()
	m := s.GetMetrics()[0]
	checkSamples(m.EventErrs["e"], errs, "overall")
	checkSamples(m.Jobs["j"].EventErrs["e"], errs, "job")
	zz.Reach("end")
	zz.Obs("count", m.EventErrs["e"].Count)
	zz.Obs("samples", len(m.EventErrs["e"].ZZSamples()))
}

// C10_types mixes error types, jobs and names.
func C10_types() {
	n := 4
	if zz.Thorough() {
		n = 5
	}
	zz.Bound("errors", "4 (thorough 5) errors of a value or a pointer type with texts a, b, under one of two jobs and one of two events")
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	jobs, events := []string{"j", "k"}, []string{"e", "f"}
	var overall, per [2][]error
	var both [2][2][]error
	for i := 0; i < n; i++ {
		var e error
		text := []string{"a", "b"}[zz.Choice("text", 2)]
		if zz.Choice("type", 2) == 0 {
			e = textErr{text}
		} else {
			e = &ptrErr{text}
		}
		j, v := zz.Choice("job", 2), zz.Choice("event", 2)
		s.EmitEventErr(jobs[j], events[v], e, nil)
		overall[v] = append(overall[v], e)
		per[j] = append(per[j], e)
		both[j][v] = append(both[j][v], e)
	}
	zz.Quiesce()
	m := s.GetMetrics()[0]
	for v := range events {
		if len(overall[v]) == 0 {
			zz.Assert(m.EventErrs[events[v]] == nil, "no counter without errors")
			continue
		}
		checkSamples(m.EventErrs[events[v]], overall[v], "overall")
		for j := range jobs {
			if len(both[j][v]) > 0 {
				checkSamples(m.Jobs[jobs[j]].EventErrs[events[v]], both[j][v], "job")
			}
		}
	}
	zz.Reach("end")
}

// C10_stream reports errors through a stream, as programs do.
func C10_stream() {
	n := 3
	if zz.Thorough() {
		n = 4
	}
	zz.Bound("stream", "3 (thorough 4) errors with arbitrary 1-byte texts, plain or muted, reported through a stream at one place in the program, in every interleaving with the sink's goroutine (1 preemption, thorough 2); data races by happens-before")
	s := health.NewJsonPollingSink(time.Hour, time.Hour)
	st := health.NewStream()
	st.AddSink(s)
	muted := zz.Choice("muted", 2) == 1
	zz.Quiesce()
	zz.DetectRaces()
	explore()
	var errs []error
	for i := 0; i < n; i++ {
		e := textErr{zz.String("text", 1, 1)}
		errs = append(errs, e)
		var x error = e
		if muted {
			x = health.Mute(e)
		}
		st.EventErr("e", x)
	}
	zz.Quiesce()
	zz.StopExploring()
	m := s.GetMetrics()[0]
	for _, ec := range []*health.ErrorCounter{m.EventErrs["e"], m.Jobs["general"].EventErrs["e"]} {
		zz.Assert(ec != nil && ec.Count == int64(n), "number of errors")
		if !health.ZZHaveSamples {
			continue
		}
		var got []error
		for _, x := range ec.ZZSamples() {
			switch y := x.(type) {
			case *health.UnmutedError:
				x = y.Err
			case *health.MutedError:
				x = y.Err
			}
			got = append(got, x)
		}
		compareSamples(got, errs, "stream")
	}
	zz.Reach("end")
}
