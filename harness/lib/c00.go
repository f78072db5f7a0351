// Package lib exercises library functions that code under test may come to use, to find out
// whether the engine can encode them. It decides no property: ./check C00.
package lib

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"container/ring"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"maps"
	"math"
	"math/bits"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/gocraft/health/zzverif/zz"
)

func obs(l string, vs ...any) {
	for i, v := range vs {
		zz.Obs(l+strconv.Itoa(i), v)
	}
}

func C00_strings() {
	s := zz.String("s", 3, 3)
	zz.Assume(len(s) == 3)
	obs("lower", strings.ToLower(s))
	obs("trim", strings.TrimSpace(s))
}
func C00_strings2() {
	s := zz.ASCII("s", 3, 3)
	obs("upper", strings.ToUpper(s))
	obs("split", strings.Join(strings.Split(s, "."), "|"))
	obs("rep", strings.ReplaceAll(s, ".", "$$"))
	obs("fields", len(strings.Fields(s)))
}
func C00_strings3() {
	s := zz.ASCII("s", 2, 2)
	a, b, ok := strings.Cut(s, ".")
	obs("cut", a+"|"+b, ok)
	obs("map", strings.Map(func(r rune) rune {
		if r == ':' {
			return '$'
		}
		return r
	}, s))
	obs("repl", strings.NewReplacer(":", "$", "|", "$").Replace(s))
	obs("fold", strings.EqualFold(s, "ab"))
	obs("any", strings.IndexAny(s, ":|@"), strings.ContainsRune(s, 'x'), strings.IndexFunc(s, unicode.IsSpace))
	obs("trim", strings.Trim(s, "."), strings.TrimLeft(s, "a"), strings.TrimPrefix(s, "a"), strings.TrimSuffix(s, "a"), strings.TrimFunc(s, unicode.IsDigit))
	obs("n", strings.Count(s, "."), strings.LastIndex(s, "."), strings.Repeat(s, 2))
	obs("sn", len(strings.SplitN(s, ".", 2)), strings.HasSuffix(s, "b"))
}
func C00_builder() {
	var b strings.Builder
	s := zz.String("s", 2, 2)
	b.Grow(10)
	b.WriteString(s)
	b.WriteByte('x')
	b.WriteRune('é')
	fmt.Fprintf(&b, "%d", zz.Int64("n")&7)
	obs("b", b.String(), b.Len())
	r := strings.NewReader(s)
	c, err := r.ReadByte()
	obs("r", c, err == nil)
	for i, c := range s {
		obs("c", i, int(c))
	}
	obs("utf", utf8.ValidString(s), utf8.RuneCountInString(s))
}
func C00_bytes() {
	s := []byte(zz.ASCII("s", 2, 2))
	obs("b", string(bytes.ToUpper(s)), string(bytes.TrimSpace(s)), bytes.Contains(s, []byte(".")), string(bytes.ReplaceAll(s, []byte(":"), []byte("$"))))
	var b bytes.Buffer
	b.Write(s)
	b.WriteString("abc\ndef")
	l, err := b.ReadString('\n')
	obs("l", l, err == nil, b.Len())
	b.Truncate(1)
	obs("t", b.String())
	obs("x", string(append(bytes.Join([][]byte{s, s}, []byte(", ")), b.Bytes()...)))
	obs("m", string(bytes.Map(unicode.ToUpper, s)), bytes.HasPrefix(s, []byte("a")))
}
func C00_strconv() {
	n := zz.Int64("n")
	zz.Assume(n > -1000 && n < 1000)
	obs("i", strconv.FormatInt(n, 10), strconv.Itoa(int(n)), string(strconv.AppendInt([]byte("x"), n, 10)))
	obs("q", strconv.Quote("a\"b"), strconv.FormatBool(n > 3))
	obs("f", strconv.FormatFloat(1.5, 'g', -1, 64), string(strconv.AppendFloat(nil, 2.25, 'f', 2, 64)))
	m, err := strconv.Atoi(zz.ASCII("s", 2, 2))
	obs("a", m, err == nil)
	f, err := strconv.ParseFloat("1.25", 64)
	obs("pf", f, err == nil)
	u, err := strconv.ParseUint("77", 10, 32)
	obs("pu", u, err == nil)
}
func C00_sort() {
	a := []int64{zz.Int64("a"), zz.Int64("b"), zz.Int64("c")}
	b := append([]int64{}, a...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	slices.Sort(b)
	zz.Assert(a[0] == b[0] && a[2] == b[2], "sorted")
	sort.SliceStable(a, func(i, j int) bool { return a[i] > a[j] })
	slices.SortFunc(b, func(x, y int64) int {
		switch {
		case x < y:
			return 1
		case x > y:
			return -1
		}
		return 0
	})
	zz.Assert(a[0] == b[0] && slices.Equal(a, b), "sorted down")
}
func C00_sort2() {
	a := []string{"b", zz.ASCII("s", 1, 1), "a"}
	sort.Strings(a)
	obs("s", strings.Join(a, ","))
	obs("search", sort.SearchStrings(a, "b"), sort.Search(3, func(i int) bool { return a[i] >= "b" }))
	slices.Reverse(a)
	obs("r", a[0])
	a = slices.Insert(a, 1, "q")
	a = slices.Delete(a, 0, 1)
	i, ok := slices.BinarySearch([]string{"a", "c"}, "c")
	obs("i", len(a), slices.Contains(a, "q"), slices.Index(a, "q"), i, ok, slices.Max([]int{1, 4, 2}))
	sort.Sort(sort.Reverse(sort.StringSlice(a)))
	obs("rev", a[0])
	slices.SortStableFunc(a, strings.Compare)
	obs("ss", a[0], slices.IsSorted(a), len(slices.Compact([]int{1, 1, 2})))
}
func C00_maps() {
	m := map[string]int64{"a": 1, "b": zz.Int64("n")}
	c := maps.Clone(m)
	c["c"] = 3
	ks := slices.Sorted(maps.Keys(c))
	obs("k", strings.Join(ks, ","))
	maps.Copy(m, c)
	zz.Assert(maps.Equal(m, c), "equal")
	maps.DeleteFunc(m, func(k string, v int64) bool { return k == "b" })
	obs("l", len(m))
	clear(m)
	obs("z", len(m), min(3, 2), max(4.5, 2))
	vs := slices.Collect(maps.Values(map[int]int{1: 2}))
	obs("v", vs[0])
	for i := range 3 {
		obs("range", i)
	}
	for i, v := range slices.Backward([]int{1, 2}) {
		obs("back", i, v)
	}
}
func C00_math() {
	x := float64(zz.IntN("n", 1, 3))
	obs("m", math.Abs(-x), math.Sqrt(16), math.Pow(2, 3), math.Floor(2.5), math.Ceil(2.5), math.Trunc(-2.5), math.Round(2.5), math.Mod(5, 3))
	obs("mm", math.Min(1, 2), math.Max(1, 2), math.IsNaN(math.NaN()), math.IsInf(math.Inf(1), 0), math.Float64bits(1.5))
	obs("l", math.Log(1), math.Exp(0), math.Hypot(3, 4), math.Cbrt(27), bits.Len(7), bits.OnesCount(7))
	f := zz.Float64("f")
	zz.Assert(math.Max(f, 0) >= 0 || f != f, "max")
	zz.Assert(math.Abs(f) >= 0 || f != f, "abs")
	zz.Assert(!(math.Sqrt(f) < 0), "sqrt")
}

type pt struct {
	X int
	Y string
}

func (p *pt) String() string { return "pt" + p.Y }

func C00_fmt() {
	n := zz.IntN("n", 1, 3)
	s := zz.ASCII("s", 1, 1)
	obs("a", fmt.Sprintf("%d %5d %-5d| %05d %+d", n, 7, 7, 7, 7))
	obs("b", fmt.Sprintf("%s|%5s|%-5s|%q|%x|%v", s, "a", "a", "a", "a", s))
	obs("c", fmt.Sprintf("%g %f %.2f %6.2f %e", 1.5, 1.5, 1.5, 1.5, 1.5))
	obs("d", fmt.Sprintf("%v %+v %t %T %c %U", []int{1}, map[string]int{"a": 1}, true, n, 'x', 'x'))
	obs("e", fmt.Sprintf("%v %+v", pt{1, "y"}, pt{1, "y"}), fmt.Sprint(&pt{1, "z"}), fmt.Sprint("a", 1, "b", nil))
	obs("f", fmt.Sprintln("a", 2), fmt.Sprintf("%v %s", errors.New("x"), error(nil)), fmt.Sprintf("%*d %%", 4, 2))
	obs("g", fmt.Sprintf("%[2]d %[1]d", 1, 2), fmt.Sprintf("%d", "x"), fmt.Sprintf("%08b %o %X %#x", 5, 8, 255, 255))
	obs("h", string(fmt.Appendf(nil, "%s:%d", "a", 3)))
	var a int
	k, err := fmt.Sscanf("12", "%d", &a)
	obs("scan", a, k, err == nil)
}

type myErr struct{ code int64 }

func (e *myErr) Error() string { return "my" + strconv.FormatInt(e.code, 10) }

func C00_errors() {
	base := &myErr{zz.IntN("n", 1, 3)}
	w := fmt.Errorf("wrap: %w", base)
	var m *myErr
	obs("e", w.Error(), errors.Is(w, base), errors.As(w, &m), errors.Unwrap(w) == base)
	j := errors.Join(w, io.EOF)
	obs("j", j.Error(), errors.Is(j, io.EOF))
}
func C00_time() {
	t := time.Unix(1700000000, 5).UTC()
	obs("t", t.Format(time.RFC3339Nano), t.Format(time.RFC1123), t.Format("2006-01-02 15:04:05.000"), t.Unix(), t.UnixNano(), t.UnixMilli())
	d := time.Duration(zz.IntN("d", 1, 3)) * time.Second
	obs("d", d.String(), d.Seconds(), int64(d/time.Millisecond), d.Round(time.Minute), d.Milliseconds(), (1500 * time.Microsecond).String())
	p, err := time.Parse(time.RFC3339, "2020-02-03T04:05:06Z")
	obs("p", p.Unix(), err == nil, p.Year(), int(p.Month()), p.Weekday().String(), p.Add(d).Sub(p) == d, p.Truncate(time.Hour).Unix(), p.AddDate(0, 1, 0).Unix(), p.Before(p.Add(d)), p.Equal(p), p.Compare(p))
	pd, err := time.ParseDuration("1m3s")
	obs("pd", int64(pd), err == nil)
	b, err := p.MarshalJSON()
	obs("j", string(b), err == nil)
	obs("until", time.Until(time.Now().Add(time.Hour)) > 0)
}
func C00_timers() {
	n := int64(0)
	tm := time.AfterFunc(time.Second, func() { atomic.AddInt64(&n, 1) })
	t2 := time.NewTimer(3 * time.Second)
	tk := time.NewTicker(700 * time.Millisecond)
	k := 0
loop:
	for {
		select {
		case <-tk.C:
			k++
			if k == 2 {
				tk.Reset(500 * time.Millisecond)
			}
		case <-t2.C:
			break loop
		}
	}
	tk.Stop()
	obs("n", atomic.LoadInt64(&n), k, tm.Stop(), t2.Reset(time.Second), t2.Stop())
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	select {
	case <-ctx.Done():
		obs("ctx", ctx.Err().Error())
	case <-time.After(2 * time.Second):
	}
	cancel()
	c2, cancel2 := context.WithCancel(context.WithValue(context.Background(), "a", "b"))
	go cancel2()
	<-c2.Done()
	obs("c2", c2.Err() == context.Canceled, c2.Value("a").(string))
}
func C00_sync() {
	var mu sync.Mutex
	var rw sync.RWMutex
	var once sync.Once
	var wg sync.WaitGroup
	total := 0
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			total += i
			mu.Unlock()
			rw.RLock()
			rw.RUnlock()
			once.Do(func() { total += 10 })
		}()
	}
	wg.Wait()
	obs("t", total, mu.TryLock())
	ov := sync.OnceValue(func() int { return 5 })
	obs("ov", ov(), ov())
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.WriteString("x")
	p.Put(b)
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	_, loaded := m.LoadOrStore("b", 2)
	k := 0
	m.Range(func(a, b any) bool { k++; return true })
	m.Delete("a")
	obs("m", v.(int), ok, loaded, k)
	var ai atomic.Int64
	ai.Add(3)
	var ab atomic.Bool
	ab.Store(true)
	var ap atomic.Pointer[pt]
	ap.Store(&pt{1, "a"})
	var av atomic.Value
	av.Store("v")
	var i32 int32
	obs("at", ai.Load(), ai.CompareAndSwap(3, 4), ab.Load(), ap.Load().Y, av.Load().(string), atomic.AddInt32(&i32, 2), atomic.CompareAndSwapInt32(&i32, 2, 3), atomic.SwapInt32(&i32, 9))
	c := sync.NewCond(&sync.Mutex{})
	ready := false
	go func() { c.L.Lock(); ready = true; c.L.Unlock(); c.Broadcast() }()
	c.L.Lock()
	for !ready {
		c.Wait()
	}
	c.L.Unlock()
	zz.Reach("end")
}
func C00_io() {
	s := zz.ASCII("s", 2, 2)
	var b, b2 bytes.Buffer
	io.Copy(&b, strings.NewReader(s))
	io.WriteString(io.MultiWriter(&b, &b2), "yy")
	all, err := io.ReadAll(io.LimitReader(&b, 3))
	obs("a", string(all), err == nil, b2.String())
	w := bufio.NewWriter(&b2)
	fmt.Fprintf(w, "%s\n", s)
	w.Flush()
	sc := bufio.NewScanner(strings.NewReader("l1\nl2\n"))
	n := 0
	for sc.Scan() {
		n += len(sc.Text())
	}
	obs("n", n, b2.String())
	rd := bufio.NewReader(io.TeeReader(strings.NewReader("q\nr"), io.Discard))
	l, _ := rd.ReadString('\n')
	obs("l", l)
	pr, pw := io.Pipe()
	go func() { io.WriteString(pw, "pp"); pw.Close() }()
	x, _ := io.ReadAll(pr)
	obs("x", string(x))
	var tb bytes.Buffer
	tw := tabwriter.NewWriter(&tb, 0, 8, 1, ' ', 0)
	fmt.Fprintf(tw, "a\tbbb\tc\n")
	tw.Flush()
	obs("tw", tb.String())
}

type js struct {
	A int64             `json:"a"`
	B string            `json:"b,omitempty"`
	C map[string]string `json:"c"`
	D []float64
	E *js             `json:"e,omitempty"`
	F json.RawMessage `json:"f,omitempty"`
	t int
}

func C00_json() {
	v := js{A: zz.IntN("n", 1, 3), C: map[string]string{"k": zz.ASCII("s", 1, 1)}, D: []float64{1.5}, E: &js{B: "x"}}
	b, err := json.Marshal(v)
	obs("m", string(b), err == nil)
	var o bytes.Buffer
	enc := json.NewEncoder(&o)
	enc.SetIndent("", "\t")
	enc.SetEscapeHTML(false)
	err = enc.Encode(&v)
	obs("e", o.String(), err == nil)
	var w js
	err = json.NewDecoder(bytes.NewReader(b)).Decode(&w)
	obs("d", w.A, w.C["k"], w.E.B, err == nil, reflect.DeepEqual(v.C, w.C))
	var any map[string]interface{}
	obs("u", json.Unmarshal([]byte(`{"x":[1,"a",null,true],"y":{"z":1.5}}`), &any) == nil, len(any), any["x"].([]interface{})[0].(float64), json.Valid([]byte("{")))
	var ind bytes.Buffer
	json.Indent(&ind, []byte(`{"a":[1,2]}`), "", " ")
	json.Compact(&ind, []byte(`{ "a" : 1 }`))
	obs("i", ind.String())
}
func C00_containers() {
	l := list.New()
	l.PushBack(zz.Int64("n"))
	l.PushFront(int64(2))
	obs("l", l.Len(), l.Front().Value.(int64))
	r := ring.New(3)
	for i := 0; i < 4; i++ {
		r.Value = i
		r = r.Next()
	}
	s := 0
	r.Do(func(x any) { s += x.(int) })
	obs("r", s, r.Len())
	h := &ih{3, 1, 2}
	heap.Init(h)
	heap.Push(h, 0)
	obs("h", heap.Pop(h).(int))
}

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

var re = regexp.MustCompile(`[^A-Za-z0-9.:_-]`)

func C00_regexp() {
	s := zz.ASCII("s", 2, 2)
	obs("r", re.ReplaceAllString(s, "_"), re.MatchString(s))
}
func C00_reflect() {
	obs("n", reflect.TypeOf(pt{}).Name())
	obs("t", reflect.TypeOf(&myErr{}).String(), reflect.TypeOf(3).Kind().String(), reflect.DeepEqual([]int{1}, []int{1}))
}
func C00_http() {
	mux := http.NewServeMux()
	mux.HandleFunc("/health", func(rw http.ResponseWriter, r *http.Request) {
		rw.Header().Set("Content-Type", "application/json")
		rw.WriteHeader(http.StatusOK)
		io.WriteString(rw, "{}")
	})
	rec := httptest.NewRecorder()
	mux.ServeHTTP(rec, httptest.NewRequest("GET", "/health", nil))
	obs("r", rec.Code, rec.Body.String(), rec.Header().Get("Content-Type"))
	rec = httptest.NewRecorder()
	mux.ServeHTTP(rec, httptest.NewRequest("GET", "/other", nil))
	obs("o", rec.Code, rec.Body.String())
	rec = httptest.NewRecorder()
	http.Error(rec, "no", 404)
	http.NotFound(rec, nil)
	obs("e", rec.Code)
	req, err := http.NewRequestWithContext(context.Background(), http.MethodPost, "http://x/y?z=1", strings.NewReader("b"))
	obs("q", req.URL.Query().Get("z"), err == nil, req.Host)
	req.SetBasicAuth("u", "p")
	u, p, ok := req.BasicAuth()
	obs("ba", u, p, ok)
}
func C00_url() {
	u, err := url.Parse("http://a.b:80/c?d=e%20f")
	obs("u", u.Host, u.Path, u.Query().Get("d"), err == nil, url.QueryEscape("a b&"), u.String())
	q := url.Values{}
	q.Set("a", "1")
	q.Add("b", zz.ASCII("s", 1, 1))
	obs("q", q.Encode())
	obs("p", path.Join("a", "../b"), filepath.Base("/x/y"), path.Ext("a.go"), filepath.Dir("/x/y"), strings.HasPrefix(filepath.Clean("/a//b/"), "/a/"))
}
func C00_os() {
	_, err := os.Hostname()
	obs("h", err == nil)
	log.SetOutput(io.Discard)
	log.Println("x")
	log.Printf("%d", 3)
	var b bytes.Buffer
	l := log.New(&b, "p ", 0)
	l.Printf("a %d", zz.IntN("n", 1, 2))
	obs("l", b.String())
	fmt.Fprintln(os.Stderr, "x")
	obs("env", os.Getenv("ZZ_NONE"))
}
func C00_callers() {
	pcs := make([]uintptr, 10)
	n := runtime.Callers(1, pcs)
	fs := runtime.CallersFrames(pcs[:n])
	f, more := fs.Next()
	_ = more
	obs("f", f.Function, f.Line > 0)
	_, file, line, ok := runtime.Caller(0)
	obs("c", filepath.Base(file), line > 0, ok)
}

type num interface{ ~int64 | ~float64 }

func sum[T num](xs ...T) (t T) {
	for _, x := range xs {
		t += x
	}
	return
}

func seq(n int) func(func(int) bool) {
	return func(yield func(int) bool) {
		for i := 0; i < n; i++ {
			if !yield(i) {
				return
			}
		}
	}
}

func C00_lang() {
	n := zz.Int64("n")
	zz.Assert(sum(n, 1) == n+1 && sum(1.5, 2) == 3.5, "generic")
	t := 0
	for i := range seq(10) {
		if i == 4 {
			break
		}
		t += i
	}
	obs("t", t)
	defer func() {
		r := recover()
		obs("rec", fmt.Sprint(r))
	}()
	type pair struct{ a, b string }
	m := map[pair][]int{{"a", "b"}: {1}}
	m[pair{"a", "b"}] = append(m[pair{"a", "b"}], 2)
	obs("m", len(m[pair{"a", "b"}]))
	var arr [5]int
	for i := range arr {
		arr[i] = i
	}
	sl := arr[1:3:4]
	a2 := [2]int(sl)
	copy(arr[:], arr[2:])
	goto end
end:
	obs("arr", arr[0], cap(sl), a2[1])
	f := (*pt).String
	obs("mv", f(&pt{Y: "q"}))
	switch x := any(n).(type) {
	case int, string:
		obs("no")
	case int64:
		zz.Assert(x == n, "type switch")
	}
	var np *pt
	_ = np.Y
}
