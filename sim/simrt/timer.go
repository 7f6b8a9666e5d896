//go:build go1.24

package simrt

import (
	"context"
	"time"
)

// lamp is a flag of the simulator, which tasks share without synchronisation.
type lamp struct {
	on  bool
	gen int
}

//go:norace
func (l *lamp) light() int {
	l.gen++
	l.on = true
	return l.gen
}

// out turns the lamp off, and tells whether it was on.
//
//go:norace
func (l *lamp) out() bool {
	was := l.on
	l.on = false
	return was
}

// lit tells whether the lamp is still on since it was lit as gen.
//
//go:norace
func (l *lamp) lit(gen int) bool { return l.on && l.gen == gen }

// Timer and Ticker stand for those of package time.
type Timer struct {
	C    <-chan time.Time
	ch   chan time.Time
	fn   func()
	lamp lamp
}

func (t *Timer) start(d time.Duration) {
	gen := t.lamp.light()
	Go(func() {
		Sleep(d)
		if !t.lamp.lit(gen) {
			return
		}
		t.lamp.out()
		if t.fn != nil {
			t.fn()
			return
		}
		select {
		case t.ch <- Now():
		default:
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, fn func()) *Timer {
	t := &Timer{fn: fn}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	was := t.lamp.out()
	select {
	case <-t.ch:
	default:
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

type Ticker struct {
	C    <-chan time.Time
	ch   chan time.Time
	lamp lamp
}

func NewTicker(d time.Duration) *Ticker {
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, ch: ch}
	t.Reset(d)
	return t
}

func (t *Ticker) Reset(d time.Duration) {
	gen := t.lamp.light()
	s := running()
	if s == nil {
		return
	}
	Go(func() {
		for t.lamp.lit(gen) && running() == s {
			Sleep(d)
			if !t.lamp.lit(gen) || s.idle() {
				return
			}
			select {
			case t.ch <- Now():
			default:
			}
		}
	})
}

func (t *Ticker) Stop() { t.lamp.out() }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

//go:norace
func running() *Sim {
	if current == nil {
		return nil
	}
	return active
}

// idle tells whether only helpers are left.
//
//go:norace
func (s *Sim) idle() bool {
	for _, t := range s.tasks {
		if !t.helper && t.state != stDone {
			return false
		}
	}
	return true
}

// deadlineCtx is a context which ends at a simulated time.
type deadlineCtx struct {
	context.Context
	at   time.Time
	late bool
	up   context.Context
}

func (c *deadlineCtx) Deadline() (time.Time, bool) { return c.at, true }

func (c *deadlineCtx) Err() error {
	err := c.Context.Err()
	if err != nil && (c.late || c.up.Err() == context.DeadlineExceeded) {
		return context.DeadlineExceeded
	}
	return err
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return withEnd(parent, at, at.Sub(Now()))
}

// WithTimeout goes by the time that passes, whatever the wall clock does.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return withEnd(parent, Now().Add(d), d)
}

func withEnd(parent context.Context, at time.Time, d time.Duration) (context.Context, context.CancelFunc) {
	if p, ok := parent.Deadline(); ok && p.Before(at) {
		at = p // and the parent's end is passed on
	}
	inner, cancel := context.WithCancel(parent)
	c := &deadlineCtx{Context: inner, at: at, up: parent}
	t := AfterFunc(d, func() {
		if inner.Err() == nil {
			c.late = true
		}
		cancel()
	})
	return c, func() { t.Stop(); cancel() }
}
