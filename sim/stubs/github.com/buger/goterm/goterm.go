// Package goterm stands in for github.com/buger/goterm: a terminal whose
// screens the simulator records.
package goterm

import (
	"bytes"
	"fmt"
	"strconv"
	"text/tabwriter"

	"vsim/rt"
)

const (
	BLACK = iota
	RED
	GREEN
	YELLOW
	BLUE
	MAGENTA
	CYAN
	WHITE
)

var Screen = new(bytes.Buffer)

type Table struct {
	tabwriter.Writer
	Buf *bytes.Buffer
}

func NewTable(minWidth, tabWidth, padding int, padchar byte, flags uint) *Table {
	t := new(Table)
	t.Buf = new(bytes.Buffer)
	t.Init(t.Buf, minWidth, 8, padding, padchar, flags)
	return t
}

func (t *Table) String() string {
	t.Flush()
	return t.Buf.String()
}

func Width() int  { return num("COLUMNS", 200) }
func Height() int { return num("LINES", 50) }

func num(k string, d int) int {
	if rt.S != nil {
		if n, err := strconv.Atoi(rt.S.CurNode().Vars[k]); err == nil {
			return n
		}
	}
	return d
}

func Clear()                       { Screen.Reset() }
func MoveCursor(x, y int)          {}
func Color(s string, c int) string { return fmt.Sprintf("\033[%dm%s\033[0m", 30+c, s) }
func Bold(s string) string         { return "\033[1m" + s + "\033[0m" }

func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(Screen, a...) }
func Print(a ...interface{}) (int, error)            { return fmt.Fprint(Screen, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(Screen, f, a...) }

// Flush shows the screen.
func Flush() {
	if rt.S != nil && rt.S.Stdout != nil {
		rt.S.Stdout(rt.S.CurNode(), append([]byte(nil), Screen.Bytes()...))
	}
	Screen.Reset()
}
