// Package vtime replaces the clock and timers of package time under simulation.
package vtime

import (
	"time"
	"unsafe"

	"vsim/rt"
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic = 1 << 63
	wallToUnix   = 1884*365 + 1884/4 - 1884/100 + 1884/400 // days from year 1 to 1885
	base         = 1700000000                              // unix seconds at the start of a run
)

// year 1 to 1970 in seconds
const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
const wallToInternal int64 = wallToUnix * 86400

func at(mono, wallOff int64) time.Time {
	w := mono + wallOff
	sec := int64(base) + w/1e9
	ns := w % 1e9
	if ns < 0 {
		ns += 1e9
		sec--
	}
	s := uint64(sec + unixToInternal - wallToInternal)
	t := time.Unix(sec, ns)
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = hasMonotonic | s<<30 | uint64(ns)
	r.ext = mono + 1
	r.loc = time.UTC
	return t
}

// Now is time.Now.
func Now() time.Time {
	if rt.Active() {
		rt.Preempt("now")
	}
	return at(rt.Now(), rt.WallOffset())
}

// At returns the instant t nanoseconds after the start of the run.
func At(t int64) time.Time { return at(t, rt.WallOffset()) }

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) { rt.Sleep(int64(d)) }

// Timer is time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	t  *rt.Timer
	vc rt.VC
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *rt.Timer
}

func newTimer(kind string, d time.Duration, f func()) *Timer {
	rt.Preempt("newtimer")
	t := &Timer{f: f}
	if f == nil {
		t.c = make(chan time.Time, 1)
		t.C = t.c
	}
	t.arm(kind, d)
	return t
}

func (t *Timer) arm(kind string, d time.Duration) {
	if t.f != nil {
		vc, tag, harn := rt.CurVC(), rt.Tag(), rt.InHarness()
		t.t = rt.NewTimer(kind, int64(d), 0, func() { rt.GoFrom(vc, tag, harn, t.f) })
		return
	}
	c := t.c
	t.t = rt.NewTimer(kind, int64(d), 0, func() { rt.TrySendTimer(c, at(rt.Now(), rt.WallOffset()), rt.VC{}) })
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer { return newTimer("timer", d, nil) }

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer { return newTimer("afterfunc", d, f) }

// After is time.After.
func After(d time.Duration) <-chan time.Time { return newTimer("after", d, nil).C }

// Stop is Timer.Stop.
func (t *Timer) Stop() bool {
	rt.Preempt("timer.stop")
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	was := rt.StopTimer(t.t)
	if t.c != nil && rt.SyncTimers() {
		if rt.PendingTimer(t.c) {
			was = true
		}
		rt.DrainTimer(t.c)
	}
	return was
}

// Reset is Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm("timer", d)
	return was
}

func newTicker(kind string, d time.Duration) *Ticker {
	rt.Preempt("newticker")
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.t = rt.NewTimer(kind, int64(d), int64(d), func() { rt.TrySendTimer(c, at(rt.Now(), rt.WallOffset()), rt.VC{}) })
	return t
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	return newTicker("ticker", d)
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return newTicker("tick", d).C
}

// Stop is Ticker.Stop.
func (t *Ticker) Stop() {
	rt.Preempt("ticker.stop")
	if t.c == nil {
		return
	}
	rt.StopTimer(t.t)
	if rt.SyncTimers() {
		rt.DrainTimer(t.c)
	}
}

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.c == nil {
		panic("time: Reset called on uninitialized Ticker")
	}
	t.Stop()
	c := t.c
	t.t = rt.NewTimer("ticker", int64(d), int64(d), func() { rt.TrySendTimer(c, at(rt.Now(), rt.WallOffset()), rt.VC{}) })
}
