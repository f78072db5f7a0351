// Package top holds the harnesses for the commands healthtop and healthd.
package top

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/buger/goterm"
	"github.com/gocraft/health/cmd/healthtop/zzhealthtop"
	"github.com/spf13/cobra"
)

type answer struct {
	code int
	body string
	fail bool // no connection
	torn bool // the body cannot be read to its end
	slow time.Duration
}

type torn struct{}

func (torn) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

// daemon stands for the network: it answers what healthtop asks.
type daemon struct {
	mu     sync.Mutex
	answer func(n int) answer
	urls   []string
	hosts  []string
}

func (d *daemon) RoundTrip(r *http.Request) (*http.Response, error) {
	d.mu.Lock()
	n := len(d.urls)
	d.urls = append(d.urls, r.URL.RequestURI())
	d.hosts = append(d.hosts, r.URL.Host)
	a := d.answer(n)
	d.mu.Unlock()
	time.Sleep(time.Millisecond + a.slow)
	if a.fail {
		return nil, errors.New("connection refused")
	}
	var b io.Reader = strings.NewReader(a.body)
	if a.torn {
		b = io.MultiReader(b, torn{})
	}
	return &http.Response{Status: "x", StatusCode: a.code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(b), Request: r}, nil
}

// run starts healthtop with the given arguments and terminal height.
func run(height int, answer func(n int) answer, args ...string) *daemon {
	d := &daemon{answer: answer}
	http.DefaultTransport = d
	http.DefaultClient = &http.Client{}
	goterm.SetSize(120, height)
	cobra.Args = args
	go healthtop.ZZMain()
	return d
}

// screen is what the terminal shows: the status line and the rows of the table below its header.
func screen() (status string, rows [][]string, ok bool) {
	s := goterm.Shown()
	i := strings.LastIndex(s, "\033[2J")
	if i < 0 {
		return "", nil, false
	}
	s = plain(s[i:])
	for n, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		switch {
		case n == 0:
			status = l
		case n > 1:
			cells := strings.Split(l, "\t")
			for k := range cells {
				cells[k] = strings.TrimSpace(cells[k])
			}
			rows = append(rows, cells)
		}
	}
	return status, rows, true
}

// plain leaves out escape sequences.
func plain(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '\033' {
			b = append(b, s[i])
			continue
		}
		for i++; i < len(s); i++ {
			if c := s[i]; c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' {
				break
			}
		}
	}
	return string(b)
}
