package lib

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"math"
	"math/rand"
	"net/http"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/gocraft/health/zzverif/zz"
)

type key struct {
	a, b string
	n    int
}

func C00_keys() {
	s := zz.ASCII("s", 1, 1)
	m := map[key]int{{"a", s, 1}: 1}
	m[key{"a", "b", 1}]++
	obs("l", len(m), m[key{"a", s, 1}])
	am := map[[2]string]int{{"a", s}: 1}
	am[[2]string{"a", "x"}] += 2
	obs("am", len(am))
	im := map[any]int{s: 1, 3: 2}
	im["q"]++
	obs("im", len(im), im[3])
	pm := map[*int]int{}
	x := new(int)
	pm[x]++
	obs("pm", pm[x])
	mm := map[string]map[string]int{}
	if mm[s] == nil {
		mm[s] = map[string]int{}
	}
	mm[s]["z"]++
	obs("mm", mm[s]["z"], len(mm["t"]))
	delete(mm, s)
	obs("mm2", len(mm))
	fm := map[float64]bool{zz.Float64("f"): true}
	_, ok := fm[1.5]
	obs("fm", ok)
}

type shape interface{ Area() int64 }
type sq struct{ n int64 }
type rect struct {
	sq
	m int64
	*sync.Mutex
}

func (s sq) Area() int64    { return s.n * s.n }
func (r *rect) Area() int64 { return r.n * r.m }

func C00_lang2() {
	n := zz.IntN("n", 0, 3)
	var sh shape = sq{n}
	if n > 1 {
		sh = &rect{sq{n}, 2, &sync.Mutex{}}
	}
	f := sh.Area
	obs("area", f())
	switch v := sh.(type) {
	case *rect:
		v.Lock()
		defer v.Unlock()
		obs("rect", v.sq.Area())
	case sq:
		obs("sq", v.n)
	}
	g := (*rect).Area
	obs("g", g(&rect{sq: sq{2}, m: 3}))
	a := [4]int{1, 2, 3, 4}
	s := a[1:2:3]
	s = append(s, 9)
	s = append(s, 10)
	s[0] = 7
	obs("a", a[1], a[2], len(s), cap(a[:2]))
	b := [2]int(s[:2])
	obs("b", b[0], b == [2]int{7, 9})
	copy(a[1:], a[:])
	obs("cp", a[1], a[3])
	i := 0
again:
	if i < 3 {
		i++
		goto again
	}
outer:
	for x := 0; x < 3; x++ {
		for y := range 3 {
			if y == 1 {
				continue outer
			}
			if x == 2 {
				break outer
			}
			i += 10
		}
	}
	obs("i", i)
	r := func() (err error) {
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Errorf("rec %v", x)
			}
		}()
		var m map[string]int
		m["a"] = 1
		return nil
	}()
	obs("r", r.Error())
	for j := 0; j < 3; j++ {
		defer func() { i += j }()
	}
	const big = 1 << 40
	obs("k", big>>38, 7&^2, -7/2, -7%3, uint8(n+200)+100, int8(n-128)/-1)
	st := struct {
		A int
		B string
	}{1, "x"}
	obs("st", st == struct {
		A int
		B string
	}{1, "x"})
	for _, r := range "aé" {
		obs("rune", int(r))
	}
	obs("conv", string([]rune{'a', 'é'}), len([]rune("aé")), string(rune(65)))
}

func C00_chans() {
	c := make(chan int, 2)
	var wg sync.WaitGroup
	wg.Go(func() {
		for i := range 4 {
			c <- i
		}
		close(c)
	})
	t := 0
	for v := range c {
		t += v
	}
	wg.Wait()
	v, ok := <-c
	obs("t", t, v, ok, len(c), cap(c))
	var nc chan int
	select {
	case <-nc:
	default:
		obs("def", 1)
	}
	d := make(chan struct{})
	go func() { defer close(d); time.Sleep(time.Second) }()
	select {
	case <-d:
	case <-time.After(2 * time.Second):
		obs("late", 1)
	}
	cc := make(chan chan int)
	go func() { x := <-cc; x <- 5 }()
	x := make(chan int)
	cc <- x
	obs("x", <-x)
	tk := time.Tick(time.Second)
	<-tk
	ctx, cancel := context.WithCancel(context.Background())
	stop := context.AfterFunc(ctx, func() { close(x) })
	cancel()
	<-x
	obs("stop", stop(), context.Cause(ctx) == context.Canceled)
	ctx3, c3 := context.WithDeadline(context.Background(), time.Now().Add(time.Second))
	defer c3()
	<-ctx3.Done()
	sem := make(chan struct{}, 1)
	sem <- struct{}{}
	select {
	case sem <- struct{}{}:
	default:
		obs("full", 1)
	}
	defer func() { obs("pc", fmt.Sprint(recover())) }()
	close(d)
}

func C00_strings4() {
	s := zz.ASCII("s", 2, 2)
	n := 0
	for p := range strings.SplitSeq(s+".b", ".") {
		n += len(p)
	}
	obs("n", n)
	a, ok := strings.CutPrefix(s, "a")
	obs("a", a, ok)
	b, ok := strings.CutSuffix(s, "a")
	obs("b", b, ok)
	for l := range strings.Lines("a\nb") {
		obs("line", l)
	}
	obs("c", strings.ContainsAny(s, "xy"), strings.ContainsFunc(s, func(r rune) bool { return r == 'q' }), strings.Compare(s, "ab"), strings.Title("ab cd"), strings.ToValidUTF8("a\xff", "?"), strings.LastIndexByte(s, 'a'), len(strings.FieldsFunc(s, func(r rune) bool { return r == ',' })), len(strings.SplitAfter(s, ",")))
	obs("x", strings.Clone(s), strings.IndexByte(s, 'b'), strings.IndexRune(s, 'c'))
	fl := sort.Float64Slice{2, 1}
	fl.Sort()
	fs := []float64{3, 1, 2}
	sort.Float64s(fs)
	obs("fl", fl[0], fs[0], slices.MinFunc(fs, func(a, b float64) int { return int(a - b) }))
	for c := range slices.Chunk([]int{1, 2, 3}, 2) {
		obs("chunk", len(c))
	}
	obs("cl", len(slices.Clone(fs)), len(slices.Concat(fs, fs)), slices.ContainsFunc(fs, func(f float64) bool { return f > 2 }), len(slices.Grow(fs, 3)), slices.Compare(fs, fs))
}

func C00_misc() {
	h := fnv.New32a()
	h.Write([]byte("a"))
	obs("h", h.Sum32())
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b, uint32(zz.IntN("n", 1, 2)))
	obs("b", binary.BigEndian.Uint32(b), binary.LittleEndian.Uint16(b[2:]))
	obs("st", len(debug.Stack()) >= 0)
	r := rand.New(rand.NewSource(1))
	obs("r", r.Intn(10) < 10)
	dec := json.NewDecoder(strings.NewReader(`{"a":1}{"b":2.5}`))
	k := 0
	for dec.More() {
		var m map[string]any
		if dec.Decode(&m) != nil {
			break
		}
		k += len(m)
	}
	obs("k", k)
}

func C00_slog() {
	var b bytes.Buffer
	l := slog.New(slog.NewTextHandler(&b, nil))
	l.Info("x", "a", 1)
	obs("l", b.Len() > 0)
}

type rt struct{}

func (rt) RoundTrip(r *http.Request) (*http.Response, error) {
	body := ""
	if r.Body != nil {
		x, _ := io.ReadAll(r.Body)
		body = string(x)
	}
	return &http.Response{StatusCode: 200, Header: http.Header{"X": {r.Method}}, Body: io.NopCloser(strings.NewReader(body + r.URL.Path)), Request: r}, nil
}

func C00_client() {
	c := &http.Client{Transport: rt{}, Timeout: time.Second}
	res, err := c.Post("http://h/p", "text/plain", strings.NewReader("b"))
	x, _ := io.ReadAll(res.Body)
	res.Body.Close()
	obs("p", string(x), err == nil, res.Header.Get("X"), res.StatusCode)
	res, err = c.Get("http://h/g")
	x, _ = io.ReadAll(res.Body)
	obs("g", string(x), err == nil)
	req, _ := http.NewRequest("PUT", "http://h/q", bytes.NewReader([]byte("zz")))
	req.Header.Set("A", "b")
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	res, err = c.Do(req.WithContext(ctx))
	x, _ = io.ReadAll(res.Body)
	obs("d", string(x), err == nil, req.Header.Get("a"), req.ContentLength)
	_, err = c.Get("::bad")
	obs("bad", err != nil)
	res, err = c.Head("http://h/g")
	obs("head", err == nil)
}

// No primitive of sync may look like a race.
func C00_norace() {
	zz.DetectRaces()
	zz.ExploreSchedules(2, 2)
	which := zz.Choice("prim", 11)
	x := 0
	var wg sync.WaitGroup
	switch which {
	case 0:
		var f atomic.Bool
		wg.Go(func() { x = 1; f.Store(true) })
		if f.Load() {
			x++
		}
	case 1:
		var p atomic.Pointer[int]
		wg.Go(func() { v := 3; p.Store(&v) })
		if q := p.Load(); q != nil {
			*q = 4
		}
	case 2:
		var m sync.Map
		wg.Go(func() { v := 3; m.Store("a", &v) })
		if q, ok := m.Load("a"); ok {
			*q.(*int) = 4
		}
	case 3:
		var o sync.Once
		wg.Go(func() { o.Do(func() { x = 3 }); _ = x })
		o.Do(func() { x = 4 })
		obs("x", x > 0)
	case 4:
		var rw sync.RWMutex
		wg.Go(func() { rw.Lock(); x = 1; rw.Unlock() })
		rw.RLock()
		_ = x
		rw.RUnlock()
	case 5:
		var u uint32
		wg.Go(func() { x = 1; atomic.StoreUint32(&u, 1) })
		if atomic.CompareAndSwapUint32(&u, 1, 2) {
			x = 2
		}
	case 6:
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		ok := false
		wg.Go(func() { mu.Lock(); ok = true; x = 1; mu.Unlock(); c.Signal() })
		mu.Lock()
		for !ok {
			c.Wait()
		}
		x = 2
		mu.Unlock()
	case 7:
		ov := sync.OnceValue(func() *int { x = 1; return &x })
		wg.Go(func() { _ = *ov() })
		_ = *ov()
	case 8:
		c := make(chan int, 1)
		wg.Go(func() { c <- 1; x = 1; <-c })
		c <- 2
		x = 2
		<-c
	case 9:
		ctx, cancel := context.WithCancel(context.Background())
		wg.Go(func() { x = 1; cancel() })
		<-ctx.Done()
		x = 2
	case 10:
		var mu sync.Mutex
		wg.Go(func() { mu.Lock(); x = 1; mu.Unlock() })
		if mu.TryLock() {
			x = 2
			mu.Unlock()
		}
	}
	wg.Wait()
	x++
	zz.Reach("end")
}

func C00_minmax() {
	f, g := zz.Float64("f"), zz.Float64("g")
	hi, lo := math.Max(f, g), math.Min(f, g)
	if f != f || g != g {
		inf := f > math.MaxFloat64 || g > math.MaxFloat64
		zz.Assert((hi != hi) != inf, "max of NaN")
		inf = f < -math.MaxFloat64 || g < -math.MaxFloat64
		zz.Assert((lo != lo) != inf, "min of NaN")
		return
	}
	zz.Assert(hi >= f && hi >= g && (hi == f || hi == g), "max")
	zz.Assert(lo <= f && lo <= g && (lo == f || lo == g), "min")
	zz.Assert(max(f, g) == hi && min(f, g) == lo, "builtins")
	n := zz.Int64("n")
	x := float64(n) / 1e6
	zz.Assert(0+x == x && math.Signbit(x) == (n < 0), "zero is positive")
	y := 0 + x
	y += x
	zz.Assert(y == x+x && math.Max(x*x, 0) == x*x && math.Sqrt(math.Max(x, 0)) >= 0, "sums")
}

func C00_runes() {
	r := rune(zz.IntN("r", -5, 0x120000))
	s := string(r)
	k, n := utf8.DecodeRuneInString(s)
	if utf8.ValidRune(r) {
		zz.Assert(k == r && n == len(s), "rune")
	} else {
		zz.Assert(s == "\uFFFD", "no rune")
	}
	zz.Assert(strings.ContainsRune(".:-_", r) == (r == '.' || r == ':' || r == '-' || r == '_'), "contains")
	m := strings.Map(func(c rune) rune {
		if c == r {
			return 'x'
		}
		return c
	}, "a\u00e9\u20ac")
	zz.Assert((m[0] == 'x') == (r == 'a') && strings.HasSuffix(m, "x") == (r == 0x20ac), "map")
	l := slices.Insert([]int{1, 3}, 1, 2)
	obs("l", l[0], l[1], l[2], len(l))
}

// C00_syncmap uses all methods of sync.Map and atomic.Value.
func C00_syncmap() {
	var m sync.Map
	k := zz.Choice("k", 2)
	v, had := m.Swap(k, 1)
	obs("swap", v == nil && !had)
	v, had = m.Swap(0, 2)
	obs("swapped", v == any(1), had)
	obs("cas", m.CompareAndSwap(k, 1, 5), m.CompareAndSwap(0, 2, 7), m.CompareAndSwap(9, 2, 7))
	obs("cad", m.CompareAndDelete(1, 1), m.CompareAndDelete(1, 5))
	n := 0
	m.Range(func(k, v any) bool { n += 10*k.(int) + v.(int); return true })
	obs("n", n)
	m.Clear()
	_, ok := m.Load(0)
	obs("cleared", ok)
	m.Store("x", 1)
	v, ok = m.LoadAndDelete("x")
	obs("deleted", v == any(1), ok)
	var a atomic.Value
	obs("first", a.CompareAndSwap(nil, 3), a.CompareAndSwap(3, 4), a.CompareAndSwap(3, 5), a.Load() == any(4))
}
