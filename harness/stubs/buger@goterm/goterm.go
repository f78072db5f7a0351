// Package goterm stands in for github.com/buger/goterm: a terminal of a given size that keeps
// what is written to it. Screen, Output and Flush work as in the original (v1.0.4); tables are
// not aligned.
package goterm

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
)

const (
	BLACK = iota
	RED
	GREEN
	YELLOW
	BLUE
	MAGENTA
	CYAN
	WHITE
)

const RESET = "\033[0m"

var (
	Screen = new(bytes.Buffer)

	mu     sync.Mutex
	rows   = 24
	cols   = 80
	output []byte // written, not yet on the terminal
	shown  []byte // on the terminal
)

// SetSize gives the terminal a size.
func SetSize(w, h int) {
	mu.Lock()
	cols, rows = w, h
	mu.Unlock()
}

// Shown is what the terminal got so far.
func Shown() string {
	mu.Lock()
	defer mu.Unlock()
	return string(shown)
}

func Clear() { output = append(output, "\033[2J"...) }

func MoveCursor(x, y int) { fmt.Fprintf(Screen, "\033[%d;%dH", y, x) }

func Bold(s string) string { return "\033[1m" + s + RESET }

func Color(s string, c int) string { return "\033[3" + string(rune('0'+c)) + "m" + s + RESET }

func Background(s string, c int) string { return "\033[4" + string(rune('0'+c)) + "m" + s + RESET }

func Width() int {
	mu.Lock()
	defer mu.Unlock()
	return cols
}

func Height() int {
	mu.Lock()
	defer mu.Unlock()
	return rows
}

func CurrentHeight() int { return strings.Count(Screen.String(), "\n") }

// Flush is as in the original: what overflows the screen is kept back, with all before it.
func Flush() {
	h := Height()
	for idx, str := range strings.SplitAfter(Screen.String(), "\n") {
		if idx > h {
			return
		}
		output = append(output, str...)
	}
	mu.Lock()
	shown = append(shown, output...)
	mu.Unlock()
	output = nil
	Screen.Reset()
}

func Print(a ...interface{}) (int, error)   { return fmt.Fprint(Screen, a...) }
func Println(a ...interface{}) (int, error) { return fmt.Fprintln(Screen, a...) }
func Printf(f string, a ...interface{}) (int, error) {
	return fmt.Fprintf(Screen, f, a...)
}

type Table struct{ Buf *bytes.Buffer }

func NewTable(minwidth, tabwidth, padding int, padchar byte, flags uint) *Table {
	return &Table{new(bytes.Buffer)}
}

func (t *Table) Write(b []byte) (int, error) { return t.Buf.Write(b) }
func (t *Table) Flush() error                { return nil }
func (t *Table) String() string              { return t.Buf.String() }
