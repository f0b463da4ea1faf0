//go:build go1.21

// Package vctx mirrors the parts of package context that depend on time.
package vctx

import (
	"context"
	"time"

	"github.com/Vivino/rankdb/zz_verif/vsched"
)

type timeoutCtx struct {
	context.Context // cancellable
	parent          context.Context
	deadline        time.Time
	expired         bool
}

func (c *timeoutCtx) Deadline() (time.Time, bool) { return c.deadline, true }
func (c *timeoutCtx) Err() error {
	err := c.Context.Err()
	if err != nil && c.expired {
		return context.DeadlineExceeded
	}
	return err
}

func (c *timeoutCtx) AfterFunc(f func()) func() bool { return context.AfterFunc(c.Context, f) }

// WithDeadline mirrors context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	if !vsched.Active() {
		return context.WithDeadline(parent, d)
	}
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return context.WithCancel(parent)
	}
	inner, cancel := context.WithCancel(parent)
	c := &timeoutCtx{Context: inner, parent: parent, deadline: d}
	rem := d.Sub(vsched.Now())
	if rem <= 0 {
		c.expired = true
		cancel()
		return c, cancel
	}
	t := vsched.AddTimer(rem, 0, func() {
		if inner.Err() == nil {
			c.expired = true
			cancel()
		}
	})
	return c, func() { t.Stop(); cancel() }
}

// WithTimeout mirrors context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if !vsched.Active() {
		return context.WithTimeout(parent, d)
	}
	return WithDeadline(parent, vsched.Now().Add(d))
}
