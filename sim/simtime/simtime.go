// Package simtime replaces the parts of package time that read the clock or wait.
package simtime

import (
	"time"
	"unsafe"

	"vsim/rt"
)

const base int64 = 1315611373 * 1e9 // wall clock at simulated time 0 if no run is in progress

type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic = 1 << 63
	nsecShift    = 30
	// seconds from year 1 to 1885, and from year 1 to 1970
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
)

func mk(wallNs, mono int64, loc *time.Location) time.Time {
	sec := wallNs / 1e9
	ns := wallNs % 1e9
	r := timeRep{
		wall: hasMonotonic | uint64(sec+unixToInternal-wallToInternal)<<nsecShift | uint64(ns),
		ext:  mono + 1,
		loc:  loc,
	}
	if loc == time.UTC {
		r.loc = nil
	}
	return *(*time.Time)(unsafe.Pointer(&r))
}

func init() {
	a := mk(base+123, 5, time.UTC)
	if a.UnixNano() != base+123 || a.Location() != time.UTC || mk(base+1e9, 1e9+5, time.UTC).Sub(a) != 1e9 {
		panic("vsim: layout of time.Time is not the one this was written for")
	}
	if time.Unix(0, base).Sub(a) != -123 {
		panic("vsim: time.Time monotonic layout")
	}
}

// WallOf is the wall clock of a node at simulated time at.
func WallOf(n *rt.Node, at int64) int64 { return wallBase() + at + n.Offset }

func wallBase() int64 {
	if s := rt.S; s != nil {
		return s.WallBase()
	}
	return base
}

func Now() time.Time {
	s := rt.S
	if s == nil {
		return time.Unix(0, base).UTC()
	}
	n := s.CurNode()
	return mk(WallOf(n, s.Now()), s.Now(), n.Loc)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	rt.Y()
	rt.S.Sleep(int64(d))
}

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *rt.Timer
	n *rt.Node
}

func (t *Timer) arm(d time.Duration) {
	s := rt.S
	t.n = s.CurNode()
	t.t = s.After(t.n, int64(d), func() {
		if t.f != nil {
			s.GoSys(t.n, "timerfunc", t.f)
			return
		}
		rt.TrySendSched(s, t.c, mk(WallOf(t.n, s.Now()), s.Now(), t.n.Loc))
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if rt.S.Aborting() {
		return false
	}
	active := rt.S.Stop(t.t)
	if t.c != nil {
		if !active && rt.Len(t.C) > 0 {
			active = true
		}
		rt.DrainSched(rt.S, t.c)
	}
	return active
}

func (t *Timer) Reset(d time.Duration) bool {
	a := t.Stop()
	t.arm(d)
	return a
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *rt.Timer
	d time.Duration
	n *rt.Node
}

func (t *Ticker) arm() {
	s := rt.S
	t.t = s.After(t.n, int64(t.d), func() {
		rt.TrySendSched(s, t.c, mk(WallOf(t.n, s.Now()), s.Now(), t.n.Loc))
		t.arm()
	})
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, n: rt.S.CurNode()}
	t.arm()
	return t
}

func (t *Ticker) Stop() {
	if rt.S.Aborting() {
		return
	}
	rt.S.Stop(t.t)
	rt.DrainSched(rt.S, t.c)
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
