//go:build go1.21

// Package vtime mirrors the parts of package time that depend on the clock.
package vtime

import (
	"time"

	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// Now mirrors time.Now.
func Now() time.Time { return vsched.Now() }

// Since mirrors time.Since.
func Since(t time.Time) time.Duration { return vsched.Now().Sub(t) }

// Until mirrors time.Until.
func Until(t time.Time) time.Duration { return t.Sub(vsched.Now()) }

// Sleep mirrors time.Sleep.
func Sleep(d time.Duration) { vsched.Sleep(d) }

// Timer mirrors time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	nt *time.Timer
	vt *vsched.Timer
}

func (t *Timer) start(d time.Duration) {
	t.vt = vsched.AddTimer(d, 0, func() {
		if t.f != nil {
			vsched.Go(t.f)
			return
		}
		vsched.NonBlockSend(t.c, vsched.Now())
	})
}

// NewTimer mirrors time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if !vsched.Active() {
		nt := time.NewTimer(d)
		return &Timer{C: nt.C, nt: nt}
	}
	t := &Timer{c: vsched.MakeChan[time.Time](1)}
	t.C = t.c
	t.start(d)
	return t
}

// AfterFunc mirrors time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	if !vsched.Active() {
		return &Timer{nt: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After mirrors time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop mirrors (*time.Timer).Stop. As with Go 1.23+ timers (module go version
// permitting) no stale value is left; modules with older go versions keep the
// value in the channel, which is the behaviour mirrored here.
func (t *Timer) Stop() bool {
	if t.nt != nil {
		return t.nt.Stop()
	}
	return t.vt.Stop()
}

// Reset mirrors (*time.Timer).Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if t.nt != nil {
		return t.nt.Reset(d)
	}
	a := t.vt.Stop()
	t.start(d)
	return a
}

// Ticker mirrors time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	nt *time.Ticker
	vt *vsched.Timer
}

// NewTicker mirrors time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if !vsched.Active() {
		nt := time.NewTicker(d)
		return &Ticker{C: nt.C, nt: nt}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: vsched.MakeChan[time.Time](1)}
	t.C = t.c
	t.start(d)
	return t
}

func (t *Ticker) start(d time.Duration) {
	t.vt = vsched.AddTimer(d, d, func() { vsched.NonBlockSend(t.c, vsched.Now()) })
}

// Stop mirrors (*time.Ticker).Stop.
func (t *Ticker) Stop() {
	if t.nt != nil {
		t.nt.Stop()
		return
	}
	t.vt.Stop()
}

// Reset mirrors (*time.Ticker).Reset.
func (t *Ticker) Reset(d time.Duration) {
	if t.nt != nil {
		t.nt.Reset(d)
		return
	}
	t.vt.Stop()
	t.start(d)
}

// Tick mirrors time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
