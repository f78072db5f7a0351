// Package stk holds the harnesses for stack traces.
package stk

import (
	"runtime"
	"strconv"

	"github.com/gocraft/health/stack"
	"github.com/gocraft/health/zzverif/zz"
)

// C22_frame makes the frame of a function with an arbitrary name.
func C22_frame() {
	max := 4
	if zz.Thorough() {
		max = 6
	}
	zz.Bound("symbols", "0..4 (thorough 0..6) arbitrary bytes, alone or after a module path or in a method's name")
	zz.Bound("lines", "1..1000000")
	var name string
	switch zz.Choice("symbol", 3) {
	case 0:
		name = zz.String("name", 0, max)
	case 1:
		name = "example.com/a.b/" + zz.String("name", 1, max)
	case 2:
		name = "example.com/" + zz.String("name", 1, max) + ".(*T).M.func1"
	}
	line := int(zz.IntN("line", 1, 1000000))
	file := "/src/f.go"
	pc := zz.FakePC(name, file, line)
	f := stack.NewFrame(pc)
	zz.Assert(f.ProgramCounter == pc, "program counter")
	zz.Assert(f.File == file, "file")
	zz.Assert(f.LineNumber == line, "line")
	// the oracle: first dot after the last slash
	slash, dot := -1, -1
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			slash = i
			dot = -1
		} else if name[i] == '.' && dot < 0 {
			dot = i
		}
	}
	if dot >= 0 {
		zz.Assert(f.Package == name[:dot], "package")
		zz.Assert(f.Name == name[dot+1:], "function")
		zz.Assert(f.Package+"."+f.Name == name, "joined")
		zz.Reach("dot")
	} else {
		zz.Assert(f.Package == name[:slash+1] && f.Name == name[slash+1:], "symbol without a dot")
		zz.Reach("no dot")
	}
	zz.Assert(!f.IsSystemPackage, "not in the Go installation")
	zz.Assert(f.String() == file+":"+strconv.Itoa(line)+" "+f.Name, "text")
}

// C22_system makes frames of functions in any file.
func C22_system() {
	zz.Bound("files", "0..3 arbitrary bytes, alone, after the Go installation directory, after that and a slash, and after a part of it")
	root := zz.GOROOT()
	s := zz.String("file", 0, 3)
	var file string
	switch zz.Choice("where", 5) {
	case 0:
		file = s
	case 1:
		file = root + s
	case 2:
		file = root + "/src/" + s
	case 3:
		file = root[:len(root)-1] + s
	case 4:
		file = "/x" + root + "/" + s
	}
	if file == root {
		return // no file
	}
	f := stack.NewFrame(zz.FakePC("p.F", file, 7))
	in := len(file) > len(root) && file[:len(root)+1] == root+"/"
	zz.Assert(f.File == file && f.LineNumber == 7, "position")
	zz.Assert(f.IsSystemPackage == in, "system frames lie in the Go installation")
	if in {
		zz.Reach("system")
	} else {
		zz.Reach("not system")
	}
}

// C22_zero makes the frame of no function.
func C22_zero() {
	f := stack.NewFrame(0)
	zz.Assert(f == stack.Frame{}, "empty frame")
	zz.Reach("end")
}

//go:noinline
func deep(n, skip int) (*stack.Trace, []uintptr) {
	if n > 0 {
		t, p := deep(n-1, skip)
		return t, p
	}
	return both(skip)
}

//go:noinline
func both(skip int) (*stack.Trace, []uintptr) {
	pcs := make([]uintptr, 200)
	k := runtime.Callers(1, pcs)
	t := stack.NewTrace(skip)
	return t, pcs[:k]
}

// C22_trace takes traces of nested calls.
func C22_trace() {
	depth := 6
	if zz.Thorough() {
		depth = 70
	}
	zz.Bound("depth", "0..5 (thorough 0..69) nested calls, first or second call again, levels 0..3, 100 or 125 skipped, at most 0..8 or 50 frames")
	n := zz.Choice("depth", depth)
	skip := zz.Choice("skip", 6)
	if skip >= 4 {
		skip *= 25 // more than there are
	}
	max := zz.Choice("max", 10)
	if max == 9 {
		max = 50
	}
	old := stack.MaxStackDepth
	stack.MaxStackDepth = max
	t, pcs := deep(n, skip)
	stack.MaxStackDepth = old
	fr := t.Frames()
	want := len(pcs) - skip
	if want > max {
		want = max
	}
	if want < 0 {
		want = 0
	}
	zz.Assert(len(fr) == want, "number of frames")
	text := ""
	for i, f := range fr {
		if i+skip > 0 {
			zz.Assert(f.ProgramCounter == pcs[i+skip], "program counters in order")
		} else {
			zz.Assert(f.Name == "both", "the trace starts at its caller")
		}
		zz.Assert(f == stack.NewFrame(f.ProgramCounter), "frame of the program counter")
		text += f.File + ":" + strconv.Itoa(f.LineNumber) + " " + f.Name + "\n"
	}
	zz.Assert(string(t.Stack()) == text, "printed trace")
	again := t.Frames()
	zz.Assert(len(again) == len(fr), "same frames again")
	for i := range again {
		zz.Assert(again[i] == fr[i], "same frames again")
	}
	zz.Reach("end")
}

// C22_shared prints one trace in two goroutines, as two sinks do.
func C22_shared() {
	zz.Bound("shared", "a trace of 0..3 nested calls used by two goroutines at once, each as frames or as text; data races by happens-before")
	t, pcs := deep(zz.Choice("depth", 4), 0)
	zz.DetectRaces()
	done := make(chan []stack.Frame, 2)
	for _, name := range []string{"a", "b"} {
		text := zz.Choice("text."+name, 2) == 1
		go func() {
			if text {
				t.Stack()
			}
			done <- t.Frames()
		}()
	}
	a, b := <-done, <-done
	zz.Assert(len(a) == len(pcs) && len(b) == len(pcs), "number of frames")
	for i := range a {
		zz.Assert(a[i] == b[i] && a[i] == stack.NewFrame(a[i].ProgramCounter), "frame of the program counter")
	}
	zz.Reach("end")
}

// C22_several takes traces one after another and looks at all of them afterwards.
func C22_several() {
	zz.Bound("several", "3 traces of 0..3 nested calls each with 0..1 skipped, taken by one goroutine or a new one each, looked at afterwards; the limit on the depth the same or lower from the second on")
	old := stack.MaxStackDepth
	own := zz.Choice("goroutines", 2) == 1
	var ts [3]*stack.Trace
	var ps [3][]uintptr
	var skips [3]int
	lower := zz.Choice("lower", 2) == 1
	for i := range ts {
		n, skip := zz.Choice("depth", 4), zz.Choice("skip", 2)
		skips[i] = skip
		take := func() { ts[i], ps[i] = deep(n, skip) }
		if own {
			done := make(chan bool)
			go func() { take(); done <- true }()
			<-done
		} else {
			take()
		}
		if lower {
			stack.MaxStackDepth = 4
		}
	}
	stack.MaxStackDepth = old
	for i, t := range ts {
		fr := t.Frames()
		want := len(ps[i]) - skips[i]
		if lower && i > 0 && want > 4 {
			want = 4
		}
		zz.Assert(len(fr) == want, "number of frames")
		for k, f := range fr {
			if k+skips[i] > 0 {
				zz.Assert(f == stack.NewFrame(ps[i][k+skips[i]]), "frames of its own calls")
			}
		}
	}
	zz.Reach("end")
}

// C22_deep takes traces of deep calls.
func C22_deep() {
	zz.Bound("deep", "120 nested calls, levels 0, 1 or 60 skipped, at most 49, 50, 51, 64, 100 or 300 frames")
	skip := []int{0, 1, 60}[zz.Choice("skip", 3)]
	max := []int{49, 50, 51, 64, 100, 300}[zz.Choice("max", 6)]
	old := stack.MaxStackDepth
	stack.MaxStackDepth = max
	t, pcs := deep(120, skip)
	stack.MaxStackDepth = old
	fr := t.Frames()
	want := len(pcs) - skip
	if want > max {
		want = max
	}
	zz.Assert(len(fr) == want, "number of frames")
	for i, f := range fr {
		if i+skip > 0 {
			zz.Assert(f.ProgramCounter == pcs[i+skip], "program counters in order")
		}
	}
	zz.Reach("end")
}
