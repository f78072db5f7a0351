// Package zz is what harnesses use to obtain inputs and state properties. The symbolic
// engine replaces these functions; this implementation replays one concrete case on the
// compiled code.
package zz

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"
	"unsafe"
)

type caseFile struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Choices map[string]uint64 `json:"choices"`
}

var (
	mu     sync.Mutex
	cur    caseFile
	counts = map[string]int{}
	out    strings.Builder
	failed bool
	outF   string
)

// Load reads the case to replay.
func Load() string {
	outF = os.Getenv("GOSYM_OUT")
	b, err := os.ReadFile(os.Getenv("GOSYM_CASE"))
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		panic(err)
	}
	return cur.Harness
}

var onStart []func()

// OnStart registers what remakes the package variables that hold channels.
func OnStart(f func()) { onStart = append(onStart, f) }

// Start begins a case.
func Start() {
	for _, f := range onStart {
		f()
	}
}

// Done writes the outcome and ends the process.
func Done() {
	mu.Lock()
	out.WriteString("DONE\n")
	write()
	os.Exit(0)
}

func write() {
	if outF != "" {
		os.WriteFile(outF, []byte(out.String()), 0o644)
	} else {
		fmt.Print(out.String())
	}
}

type skip struct{}

func key(name string) string {
	k := fmt.Sprintf("%s#%d", name, counts[name])
	counts[name]++
	return k
}

func in(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	return cur.Inputs[key(name)]
}

func Bool(name string) bool       { return in(name) != 0 }
func Byte(name string) byte       { return byte(in(name)) }
func Int64(name string) int64     { return int64(in(name)) }
func Uint64(name string) uint64   { return in(name) }
func Float64(name string) float64 { return math.Float64frombits(in(name)) }

// Float64In gives any float of at most the given magnitude.
func Float64In(name string, limit float64) float64 { return math.Float64frombits(in(name)) }
func IntN(name string, lo, hi int64) int64 {
	if lo == hi {
		return lo
	}
	return lo + int64(in(name))
}
func Choice(name string, n int) int {
	mu.Lock()
	defer mu.Unlock()
	return int(cur.Choices[key(name)])
}
func String(name string, min, max int) string {
	n := min + Choice(name+".len", max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(fmt.Sprintf("%s.%d", name, i)))
	}
	return string(b)
}
func ASCII(name string, min, max int) string { return String(name, min, max) }

// Assume restricts the inputs; a replayed case satisfies all assumptions.
func Assume(b bool) {
	if !b {
		mu.Lock()
		out.WriteString("ASSUME-FAIL\n")
		write()
		os.Exit(0)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		mu.Lock()
		fmt.Fprintf(&out, "ASSERT-FAIL %q\n", msg)
		write()
		os.Exit(0)
	}
}

// Reach marks a place that some input must reach.
func Reach(label string) {}

// Bound documents a bound of the harness.
func Bound(what, value string) {}

// Obs records a value for the comparison of the encoding with the compiled code.
func Obs(label string, v any) {
	s := "?"
	switch rv := reflect.ValueOf(v); rv.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if rv.CanInt() {
			s = fmt.Sprint(rv.Int())
		} else if rv.CanUint() {
			s = fmt.Sprint(rv.Uint())
		} else {
			s = fmt.Sprint(rv.Bool())
		}
	case reflect.Float64, reflect.Float32:
		f := rv.Float()
		if f != f {
			s = "NaN"
		} else {
			s = fmt.Sprintf("%x", f)
		}
	case reflect.String:
		s = fmt.Sprintf("%q", rv.String())
	case reflect.Slice:
		s = fmt.Sprintf("%q", rv.Bytes())
	}
	mu.Lock()
	defer mu.Unlock()
	fmt.Fprintf(&out, "OBS %s=%s\n", label, s)
}

func Trace(s string) {
	mu.Lock()
	defer mu.Unlock()
	fmt.Fprintf(&out, "TRACE %s\n", s)
}

// Quiesce waits until every other goroutine is blocked.
func Quiesce() { synctest.Wait() }

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// ExploreSchedules asks for the exploration of goroutine schedules.
func ExploreSchedules(switches, preempts int) {}
func StopExploring()                          {}
func DetectRaces()                            {}
func MapOrder(on bool)                        {}

// FirstReady makes select take the first ready case instead of every one.
func FirstReady(on bool) {}
func Thorough() bool     { return os.Getenv("GOSYM_THOROUGH") == "1" }
func Symbolic() bool     { return false }

// ---- UDP receiver ----

var sock = -1

// UDPAddr gives the address at which packets are recorded.
func UDPAddr() string {
	if sock < 0 {
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
		if err != nil {
			panic(err)
		}
		syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_RCVBUF, 8<<20)
		if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
			panic(err)
		}
		sock = fd
	}
	sa, err := syscall.Getsockname(sock)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
}

var cutOff map[int]int // original descriptors of the sockets that fail

// FailUDP makes the sending of packets fail from now on, or work again.
func FailUDP(on bool) {
	if !on {
		for fd, saved := range cutOff {
			syscall.Dup2(saved, fd)
			syscall.Close(saved)
		}
		cutOff = nil
		return
	}
	cutOff = map[int]int{}
	var p [2]int
	if err := syscall.Pipe(p[:]); err != nil {
		panic(err)
	}
	var fds []int
	for fd := 3; fd < 1000; fd++ {
		if t, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_TYPE); err == nil && t == syscall.SOCK_DGRAM && fd != sock {
			fds = append(fds, fd)
		}
	}
	for _, fd := range fds {
		saved, err := syscall.Dup(fd)
		if err != nil {
			panic(err)
		}
		cutOff[fd] = saved
		syscall.Dup2(p[1], fd)
	}
	syscall.Close(p[0])
	syscall.Close(p[1])
}

// Packets gives the packets received since the last call.
func Packets() []string {
	var r []string
	buf := make([]byte, 70000)
	for {
		n, _, err := syscall.Recvfrom(sock, buf, syscall.MSG_DONTWAIT)
		if err != nil {
			return r
		}
		r = append(r, string(buf[:n]))
	}
}

// ---- helpers that run as ordinary code in both worlds ----

// Within runs f and reports whether it finished before d of virtual time passed.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	t := time.NewTimer(d)
	select {
	case <-done:
		t.Stop()
		return true
	case <-t.C:
		return false
	}
}

// ---- processes ----

// Server is a server started through http.ListenAndServe.
type Server struct {
	Addr    string
	Handler any // an http.Handler
}

var (
	procMu  sync.Mutex
	servers []Server
	exits   []int
)

// ListenAndServe stands for http.ListenAndServe: it only notes the server.
func ListenAndServe(addr string, h any) error {
	procMu.Lock()
	servers = append(servers, Server{addr, h})
	procMu.Unlock()
	select {}
}

// CatchExit makes os.Exit only note the code.
func CatchExit() {}

// Exit stands for os.Exit: the caller never continues.
func Exit(code int) {
	procMu.Lock()
	exits = append(exits, code)
	procMu.Unlock()
	select {}
}

// Servers are the servers started so far.
func Servers() []Server {
	procMu.Lock()
	defer procMu.Unlock()
	return append([]Server{}, servers...)
}

// Exits are the codes the process ended with.
func Exits() []int {
	procMu.Lock()
	defer procMu.Unlock()
	return append([]int{}, exits...)
}

// ---- environment of replayed cases ----

// Shake yields at random; it is inserted between statements of the code under test when
// a schedule has to be found.
func Shake() {
	for rand.Intn(3) == 0 {
		runtime.Gosched()
	}
}

type funcinl struct {
	ones      uint32
	entry     uintptr
	name      string
	file      string
	line      int32
	startLine int32
}

var fakes []*funcinl

const fakeBase = 0x10

// FakePC gives a program counter of a function with the given name and position.
func FakePC(name, file string, line int) uintptr {
	fakes = append(fakes, &funcinl{ones: ^uint32(0), name: name, file: file, line: int32(line)})
	return uintptr(fakeBase + 64*len(fakes) + 9)
}

// FuncForPC stands for runtime.FuncForPC.
func FuncForPC(pc uintptr) *runtime.Func {
	i := (int(pc) - fakeBase) / 64
	if i >= 1 && i <= len(fakes) {
		return (*runtime.Func)(unsafe.Pointer(fakes[i-1]))
	}
	return runtime.FuncForPC(pc)
}

// GOROOT stands for runtime.GOROOT.
func GOROOT() string { return "/goroot/go" }

var env = map[string]uint64{}

func envIn(name string) uint64 {
	v := in("env." + name)
	env[name] = v
	return v
}

// EnvInt gives the last value the environment gave under a name.
func EnvInt(name string) (int64, bool) { v, ok := env[name]; return int64(v), ok }

// EnvFloat is EnvInt for floats.
func EnvFloat(name string) (float64, bool) { v, ok := env[name]; return math.Float64frombits(v), ok }

// ReadMemStats stands for runtime.ReadMemStats.
func ReadMemStats(m *runtime.MemStats) {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		f, n := v.Field(i), v.Type().Field(i).Name
		switch f.Kind() {
		case reflect.Uint64, reflect.Uint32, reflect.Uint:
			f.SetUint(envIn("mem." + n))
		case reflect.Float64:
			f.SetFloat(math.Float64frombits(envIn("mem." + n)))
		}
	}
}

// NumGoroutine stands for runtime.NumGoroutine.
func NumGoroutine() int { return int(envIn("runtime.NumGoroutine")) }

// NumCgoCall stands for runtime.NumCgoCall.
func NumCgoCall() int64 { return int64(envIn("runtime.NumCgoCall")) }

// ReadGCStats stands for debug.ReadGCStats.
func ReadGCStats(s *debug.GCStats) {
	s.NumGC = int64(envIn("gc.NumGC"))
	s.PauseTotal = time.Duration(envIn("gc.PauseTotal"))
	for i := range s.PauseQuantiles {
		s.PauseQuantiles[i] = time.Duration(envIn(fmt.Sprintf("gc.PauseQuantiles%d", i)))
	}
}

func fds() (int, error) {
	k := Choice("env.fds", 4)
	env["fds"] = uint64(k)
	if k == 3 {
		return 0, errors.New("permission denied")
	}
	return k, nil
}

// ReadDir stands for os.ReadDir.
func ReadDir(string) ([]fs.DirEntry, error) {
	k, err := fds()
	return make([]fs.DirEntry, k), err
}

// ReadDirInfo stands for ioutil.ReadDir.
func ReadDirInfo(string) ([]fs.FileInfo, error) {
	k, err := fds()
	return make([]fs.FileInfo, k), err
}
