package root

import (
	"errors"
	"fmt"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

func report(s *health.Stream, j *health.Job, form int, err error) error {
	switch form {
	case 0:
		return j.EventErr("e", err)
	case 1:
		return j.EventErrKv("f", err, map[string]string{"k": "v"})
	case 2:
		return s.EventErr("g", err)
	default:
		return s.EventErrKv("h", err, nil)
	}
}

// chainErr adds to the text of another error, which errors.As and errors.Is find in it.
type chainErr struct{ inner error }

func (e *chainErr) Error() string { return e.inner.Error() }
func (e *chainErr) Unwrap() error { return e.inner }

// manyErr is made of several errors.
type manyErr struct{ errs []error }

func (e manyErr) Error() string   { return e.errs[0].Error() }
func (e manyErr) Unwrap() []error { return e.errs }

// isErr claims to be any other error.
type isErr struct{ text string }

func (e *isErr) Error() string   { return e.text }
func (e *isErr) Is(o error) bool { return true }
func (e *isErr) As(t interface{}) bool {
	switch t := t.(type) {
	case **health.UnmutedError:
		*t = &health.UnmutedError{Err: e, Emitted: true}
		return true
	case **health.MutedError:
		*t = &health.MutedError{Err: e}
		return true
	}
	return false
}

// heirErr embeds an unmuted error and is none.
type heirErr struct{ *health.UnmutedError }

// C04_errors reports an error of any kind several times.
func C04_errors() {
	zz.Bound("errors", "value, pointer and wrapped plain errors, muted and unmuted ones (marked or not), with a text of 0..2 arbitrary bytes, muted around unmuted and the other way round; plain ones that wrap, hold, embed or claim to be a muted or unmuted one")
	zz.Bound("history", "3 reports of the error or of what the previous report returned, in any of the four forms; another error in between")
	zz.Bound("sinks", "0..2")
	log := &recLog{}
	s := health.NewStream()
	nsinks := zz.Choice("sinks", 3)
	for i := 0; i < nsinks; i++ {
		s.AddSink(&recSink{i, log})
	}
	j := s.NewJob("j")
	text := zz.String("text", 0, 2)
	var e error
	plain, muted := false, false
	switch zz.Choice("err", 15) {
	case 0:
		e, plain = textErr{text}, true
	case 1:
		e, plain = &ptrErr{text}, true
	case 2:
		e, plain = errors.New(text), true
	case 3:
		e, muted = health.Mute(&ptrErr{text}), true
	case 4:
		e, muted = health.Mute(&health.UnmutedError{Err: &ptrErr{text}}), true
	case 5:
		e = &health.UnmutedError{Err: &ptrErr{text}}
	case 6:
		e = &health.UnmutedError{Err: &ptrErr{text}, Emitted: true}
	case 7:
		e = &health.UnmutedError{Err: health.Mute(&ptrErr{text})}
	case 8:
		e, muted = health.Mute(textErr{text}), true
	case 9:
		e, plain = &chainErr{&health.UnmutedError{Err: textErr{text}, Emitted: true}}, true
	case 10:
		e, plain = &chainErr{health.Mute(textErr{text})}, true
	case 11:
		e, plain = &manyErr{[]error{textErr{text}, health.Mute(textErr{"other"}), &health.UnmutedError{Err: textErr{"another"}}}}, true
	case 12:
		e, plain = &isErr{text}, true
	case 13:
		e, plain = &heirErr{&health.UnmutedError{Err: textErr{text}, Emitted: true}}, true
	case 14:
		e, plain = fmt.Errorf("%w", s.EventErr("inner", textErr{text})), true
		log.recs = nil
	}
	emitted := false
	if u, ok := e.(*health.UnmutedError); ok {
		emitted = u.Emitted
	}
	cur := e
	for i := 0; i < 3; i++ {
		from := len(log.recs)
		arg := cur
		if plain && i > 0 && zz.Choice("again", 2) == 1 {
			arg = e // the plain error once more: a new report
			emitted = false
		}
		fresh := false
		switch arg.(type) {
		case *health.MutedError, *health.UnmutedError:
		default:
			fresh = true
		}
		got := report(s, j, zz.Choice("form", 4), arg)
		zz.Assert(got != nil && got.Error() == text, "the returned error has the same text")
		if fresh {
			u, ok := got.(*health.UnmutedError)
			zz.Assert(ok, "a plain error comes back unmuted")
			zz.Assert(u.Err == e, "the unmuted error holds the original error")
			zz.Assert(u.Stack != nil && len(u.Stack.Frames()) > 0, "the unmuted error holds a stack trace")
		} else {
			zz.Assert(got == arg, "a muted or unmuted error comes back as the same object")
		}
		_, isMuted := got.(*health.MutedError)
		zz.Assert(isMuted == muted, "a muted error stays muted")
		recs := log.recs[from:]
		zz.Assert(len(recs) == nsinks, "each sink is called once")
		for _, r := range recs {
			zz.Assert(r.err == got, "all sinks receive the returned object")
			if !muted {
				zz.Assert(r.emitted == emitted, "a sink sees the error as emitted exactly from the second report on")
			}
		}
		if u, ok := got.(*health.UnmutedError); ok {
			zz.Assert(u.Emitted, "marked emitted after the report")
			if !fresh {
				v, _ := arg.(*health.UnmutedError)
				zz.Assert(v.Stack == u.Stack, "original trace")
			}
			emitted = true
		}
		cur = got
		if i == 0 && zz.Choice("other", 2) == 1 {
			j.EventErr("other", textErr{"other"})
		}
	}
	zz.Reach("end")
	zz.Obs("text", cur.Error())
	zz.Obs("calls", len(log.recs))
}

// C04_trace checks that the trace of an error starts at the reporting code.
func C04_trace() {
	s := health.NewStream()
	j := s.NewJob("j")
	form := zz.Choice("form", 4)
	e := report(s, j, form, textErr{"x"})
	u, ok := e.(*health.UnmutedError)
	zz.Assert(ok && u.Stack != nil, "unmuted error with a trace")
	fr := u.Stack.Frames()
	zz.Assert(len(fr) > 1, "frames present")
	found := -1
	for i := range fr {
		if fr[i].Name == "report" && found < 0 {
			found = i
		}
	}
	zz.Assert(found >= 0, "the trace leads to the code that reported the error")
	zz.Reach("end")
	zz.Obs("at", found)
}
