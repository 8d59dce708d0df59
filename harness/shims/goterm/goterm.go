// Package goterm is an offline stand-in for github.com/buger/goterm (not
// installed here): what would be drawn on the terminal is handed to OnFlush.
package goterm

import (
	"bytes"
	"fmt"
	"sync"
)

const (
	BLACK = iota
	RED
	GREEN
	YELLOW
	BLUE
	MAGENTA
	CYAN
	WHITE
)

const RESET = "\033[0m"

var (
	mu      sync.Mutex
	Screen  = new(bytes.Buffer)
	Rows    = 24
	Cols    = 200
	OnFlush func(screen string)
)

// SetSize says how large the terminal is.
func SetSize(rows, cols int) {
	mu.Lock()
	defer mu.Unlock()
	Rows, Cols = rows, cols
}

func Height() int { mu.Lock(); defer mu.Unlock(); return Rows }
func Width() int  { mu.Lock(); defer mu.Unlock(); return Cols }

func Clear()                { mu.Lock(); defer mu.Unlock(); Screen.Reset() }
func MoveCursor(x, y int)   {}
func MoveCursorUp(int)      {}
func MoveCursorDown(int)    {}
func Bold(s string) string  { return "\033[1m" + s + RESET }
func color(code int) string { return fmt.Sprintf("\033[3%dm", code) }

func Color(s string, c int) string { return color(c) + s + RESET }

func Print(a ...interface{}) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	return fmt.Fprint(Screen, a...)
}
func Println(a ...interface{}) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	return fmt.Fprintln(Screen, a...)
}
func Printf(f string, a ...interface{}) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	return fmt.Fprintf(Screen, f, a...)
}

func Flush() {
	mu.Lock()
	s := Screen.String()
	Screen.Reset()
	f := OnFlush
	mu.Unlock()
	if f != nil {
		f(s)
	}
}

// Table keeps its cells as written: separated by tabs, rows by newlines.
type Table struct{ buf bytes.Buffer }

func NewTable(minwidth, tabwidth, padding int, padchar byte, flags uint) *Table { return new(Table) }

func (t *Table) Write(p []byte) (int, error) { return t.buf.Write(p) }
func (t *Table) String() string              { return t.buf.String() }
