package root

import (
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/zzverif/zz"
)

// checkPackets checks packets against the lines of all emissions.
func checkPackets(pk []string, lines []string) {
	i := 0
	for _, p := range pk {
		zz.Assert(len(p) <= 1440, "packet at most 1440 bytes")
		zz.Assert(len(p) > 0, "no empty packet")
		for len(p) > 0 {
			for i < len(lines) && len(lines[i]) > 1440 {
				i++
			}
			zz.Assert(i < len(lines), "nothing but the lines")
			l := lines[i]
			i++
			zz.Assert(len(l) <= len(p), "whole lines only")
			zz.Assert(p[:len(l)] == l, "lines in order")
			p = p[len(l):]
		}
	}
	for i < len(lines) && len(lines[i]) > 1440 {
		i++
	}
	zz.Assert(i == len(lines), "no line is lost")
}

// pad gives a name of n bytes with one arbitrary one.
func pad(n int, c string) string {
	return c + strings.Repeat("x", n-1)
}

// C14_sizes emits lines whose lengths add up to around the limit.
func C14_sizes() {
	zz.Bound("sizes", "3 emissions with line lengths out of 6, 480, 719..721, 960, 1434, 1435, 1439..1441 bytes (thorough: also 475, 485, 959, 961, 962, 1433, 1500) in every combination, one byte of each arbitrary; a drain or flush tick between them or not")
	s := newStatsD(&health.StatsDSinkOptions{SkipNestedEvents: true})
	sizes := []int{6, 480, 719, 720, 721, 960, 1434, 1435, 1439, 1440, 1441}
	if zz.Thorough() {
		sizes = append(sizes, 475, 485, 959, 961, 962, 1433, 1500)
	}
	var lines []string
	var pk []string
	tick := zz.Choice("between", 3)
	for i := 0; i < 3; i++ {
		n := sizes[zz.Choice("size", len(sizes))] - len(":1|c\n")
		c := zz.String("c", 1, 1)
		zz.Assume(okByte(c[0]))
		nm := pad(n, c)
		s.EmitEvent("j", nm, nil)
		lines = append(lines, nm+":1|c\n")
		if i == 1 {
			switch tick {
			case 1:
				s.Drain()
			case 2:
				time.Sleep(130 * time.Millisecond)
				zz.Quiesce()
			}
			pk = append(pk, zz.Packets()...)
		}
	}
	s.Drain()
	pk = append(pk, zz.Packets()...)
	checkPackets(pk, lines)
	zz.Reach("end")
	zz.Obs("packets", len(pk))
}

// C14_mixed emits kinds with several lines each, one of which may be too long.
func C14_mixed() {
	zz.Bound("mixed", "2 emissions of any kind, job and event of 1, 715, 1425, 1430..1436 (quick: 1430, 1432, 1434, 1435) or 1445 bytes, both forms sent")
	s := newStatsD(nil)
	sizes := []int{1, 715, 1430, 1432, 1434, 1435, 1445}
	if zz.Thorough() {
		sizes = append(sizes, 1425, 1431, 1433, 1436)
	}
	var lines []string
	for i := 0; i < 2; i++ {
		e := em{kind: zz.Choice("kind", nKinds), nanos: 3000000, bits: 0x4008000000000000}
		n := sizes[zz.Choice("size", len(sizes))]
		if e.kind == kComplete {
			e.job = pad(n, "a")
		} else {
			e.event = pad(n, "b")
			e.job = []string{"j", pad(720, "k")}[zz.Choice("job", 2)]
		}
		emit(s, e)
		lines = append(lines, statsdLines(nil, e)...)
	}
	s.Drain()
	checkPackets(zz.Packets(), lines)
	zz.Reach("end")
}

// C14_many emits many short lines.
func C14_many() {
	zz.Bound("many", "250 emissions of the kinds in turn, starting after a first line of any length from 6 to 105 bytes")
	s := newStatsD(nil)
	var lines []string
	first := em{kind: kEvent, job: "j", event: pad(1+zz.Choice("first", 100), "a")}
	emit(s, first)
	lines = append(lines, statsdLines(nil, first)...)
	for i := 0; i < 250; i++ {
		e := em{kind: i % nKinds, job: "job", event: eventNames[i%8], nanos: int64(i) * 10000000, bits: uint64(i) << 54}
		emit(s, e)
		lines = append(lines, statsdLines(nil, e)...)
	}
	s.Drain()
	checkPackets(zz.Packets(), lines)
	zz.Reach("end")
}

// C14_failing emits while packets cannot be sent.
func C14_failing() {
	zz.Bound("failing", "1 line, then 0..4 lines of 200, 700 or 1400 bytes while sending fails, with a drain, a flush period or neither, then 1..2 lines; lines of the time in between may be lost")
	s := newStatsD(&health.StatsDSinkOptions{SkipNestedEvents: true})
	var lines []string
	say := func(n int) {
		nm := pad(n-len(":1|c\n"), string(rune('a'+len(lines))))
		s.EmitEvent("j", nm, nil)
		lines = append(lines, nm+":1|c\n")
	}
	say(200)
	if zz.Choice("drain", 2) == 1 {
		s.Drain()
	}
	zz.Quiesce()
	zz.FailUDP(true)
	for i, n := 0, zz.Choice("failing", 5); i < n; i++ {
		say([]int{200, 700, 1400}[zz.Choice("size", 3)])
	}
	switch zz.Choice("between", 3) {
	case 1:
		zz.Assert(zz.Within(10*time.Second, s.Drain), "the drain returns")
	case 2:
		time.Sleep(130 * time.Millisecond)
	}
	zz.Quiesce()
	zz.FailUDP(false)
	after := len(lines)
	for i, n := 0, 1+zz.Choice("after", 2); i < n; i++ {
		say(700)
	}
	s.Drain()
	i := 0
	for _, p := range zz.Packets() {
		zz.Assert(len(p) <= 1440, "packet at most 1440 bytes")
		zz.Assert(len(p) > 0, "no empty packet")
		for len(p) > 0 {
			for i < after && !strings.HasPrefix(p, lines[i]) {
				i++
			}
			zz.Assert(i < len(lines) && strings.HasPrefix(p, lines[i]), "whole lines in order")
			p = p[len(lines[i]):]
			i++
		}
	}
	zz.Assert(i == len(lines), "no line emitted afterwards is lost")
	zz.Reach("end")
}
