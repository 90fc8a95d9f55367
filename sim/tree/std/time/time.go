// Package time is the simulated clock: same API, time from the simulation.
package time

import (
	real "time"
	"unsafe"

	"github.com/ti-mo/comfo/zsim/rt"
)

const (
	unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	wallToInternal int64 = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	baseUnix       int64 = 1717236000 // 2024-06-01T10:00:00Z
	hasMonotonic         = 1 << 63
)

type layout struct {
	wall uint64
	ext  int64
	loc  *real.Location
}

// Now reads the simulated clocks: wall (which the simulation may jump) and monotonic.
func Now() Time {
	w := rt.W
	var mono, off int64
	if w != nil {
		mono, off = w.Now(), w.WallOffset()
	}
	wallNs := mono + off
	sec := baseUnix + floorDiv(wallNs, 1e9)
	ns := wallNs - floorDiv(wallNs, 1e9)*1e9
	var t real.Time
	l := (*layout)(unsafe.Pointer(&t))
	l.wall = hasMonotonic | uint64(sec+unixToInternal-wallToInternal)<<30 | uint64(ns)
	l.ext = mono
	l.loc = real.UTC
	return t
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) { rt.Sleep(int64(d)) }

func alive() *rt.World {
	w := rt.W
	if w == nil || w.Reaping() {
		return nil
	}
	return w
}

type state struct {
	w      *rt.World
	proc   *rt.Proc
	c      chan Time
	f      func()
	t      *rt.Timer
	period Duration
	gen    int
}

func (s *state) start(d Duration) {
	s.gen++
	if s.w == nil {
		return
	}
	s.t = s.w.After(int64(d), s.fire)
}

func (s *state) fire() {
	s.t = nil
	if s.proc.Dead {
		return
	}
	if s.period > 0 {
		s.t = s.w.After(int64(s.period), s.fire)
	}
	if s.f != nil {
		f := s.f
		s.w.Spawn(s.proc, "timer func", f)
		return
	}
	rt.SendNow(s.w, s.c, Now())
}

func (s *state) stop() bool {
	if s.w == nil {
		return false
	}
	was := s.w.StopTimer(s.t)
	s.t = nil
	if s.c != nil && rt.Drain(s.w, s.c) {
		was = true
	}
	return was
}

func newState(c chan Time, f func()) *state {
	w := alive()
	s := &state{w: w, c: c, f: f}
	if w != nil {
		s.proc = w.CurProc()
	}
	return s
}

// Timer mirrors time.Timer with the semantics of Go 1.23 and later.
type Timer struct {
	C <-chan Time
	s *state
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	s := newState(c, nil)
	s.start(d)
	return &Timer{C: c, s: s}
}

func AfterFunc(d Duration, f func()) *Timer {
	s := newState(nil, f)
	s.start(d)
	return &Timer{s: s}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.s == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	rt.Gosched()
	return t.s.stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.s == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	rt.Gosched()
	was := t.s.stop()
	t.s.start(d)
	return was
}

// Ticker mirrors time.Ticker.
type Ticker struct {
	C <-chan Time
	s *state
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	s := newState(c, nil)
	s.period = d
	s.start(d)
	return &Ticker{C: c, s: s}
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	if t.s == nil {
		return
	}
	rt.Gosched()
	t.s.stop()
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.s == nil {
		panic("time: Reset called on uninitialized Ticker")
	}
	rt.Gosched()
	t.s.stop()
	t.s.period = d
	t.s.start(d)
}
