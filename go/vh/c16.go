//go:build go1.21

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
	"github.com/cenkalti/backoff"
)

// tries is a backoff allowing n retries, counting over its whole life.
type tries struct {
	n     int
	delay time.Duration
	hook  func()
}

func (t *tries) NextBackOff() time.Duration {
	if t.hook != nil {
		t.hook()
	}
	if t.n <= 0 {
		return backoff.Stop
	}
	t.n--
	return t.delay
}
func (t *tries) Reset() {}

func triesFn(n int) func() backoff.BackOff { return func() backoff.BackOff { return &tries{n: n} } }

var (
	errT  = errors.New("transient")
	errP  = errors.New("custom permanent")
	errP2 = errors.New("other custom permanent")
)

// Outcomes of attempts.
var outs16 = []struct {
	name string
	err  error
}{{"ok", nil}, {"transient", errT}, {"custom", errP}, {"notfound", blobstore.ErrBlobNotFound}, {"toobig", blobstore.ErrBlobTooBig},
	{"canceled", context.Canceled}, {"deadline", context.DeadlineExceeded}, {"custom2", errP2}}

// scripted answers attempts by script and records them.
type scripted struct {
	script []int
	n      int
	op     byte
	bad    string
	hook   func(n int, ctx context.Context)
}

func (s *scripted) next(op byte, ctx context.Context, set, key string) error {
	i := s.n
	s.n++
	if op != s.op || set != "set" || key != "key" {
		s.bad = fmt.Sprintf("attempt %d is %c %s/%s", i, op, set, key)
	}
	if s.hook != nil {
		s.hook(i, ctx)
	}
	if i >= len(s.script) {
		return errT
	}
	return outs16[s.script[i]].err
}

func (s *scripted) Get(ctx context.Context, set, key string) ([]byte, error) {
	if err := s.next('G', ctx, set, key); err != nil {
		return []byte("failed"), err
	}
	return []byte("value"), nil
}

func (s *scripted) Set(ctx context.Context, set, key string, val []byte) error {
	if string(val) != "data" {
		s.bad = fmt.Sprintf("attempt %d writes %q", s.n, val)
	}
	return s.next('S', ctx, set, key)
}

func (s *scripted) Delete(ctx context.Context, set, key string) error { return s.next('D', ctx, set, key) }

func call16(st blobstore.Store, ctx context.Context, op byte) error {
	switch op {
	case 'G':
		b, err := st.Get(ctx, "set", "key")
		if err == nil && !bytes.Equal(b, []byte("value")) {
			return fmt.Errorf("Get returns %q", b)
		}
		if err != nil && len(b) > 0 {
			return fmt.Errorf("Get returns %q and error %v", b, err)
		}
		return err
	case 'S':
		b := []byte("data")
		err := st.Set(ctx, "set", "key", b)
		if string(b) != "data" {
			return fmt.Errorf("Set changed its argument")
		}
		return err
	}
	return st.Delete(ctx, "set", "key")
}

// expect16 returns number of attempts and the error.
func expect16(script []int, retries int, perm map[error]bool) (int, error) {
	var err error
	for i := 0; ; i++ {
		err = errT
		if i < len(script) {
			err = outs16[script[i]].err
		}
		if err == nil || perm[err] || i == retries {
			return i + 1, err
		}
	}
}

func c16(c *h.Ctx) {
	x := &c22ctx{c: c}
	defPerm := map[error]bool{context.Canceled: true, blobstore.ErrBlobNotFound: true, blobstore.ErrBlobTooBig: true}
	with := func(more ...error) map[error]bool {
		m := map[error]bool{}
		for k := range defPerm {
			m[k] = true
		}
		for _, e := range more {
			m[e] = true
		}
		return m
	}
	O := blobstore.WithRetryOpt
	type conf struct {
		name string
		opts []blobstore.RetryStoreOption
		perm map[error]bool
	}
	confs := []conf{
		{"default errors", nil, defPerm},
		{"custom error", []blobstore.RetryStoreOption{O.PermanentErr(errP)}, with(errP)},
		{"two custom errors", []blobstore.RetryStoreOption{O.PermanentErr(errP, errP2)}, with(errP, errP2)},
		{"custom errors added twice", []blobstore.RetryStoreOption{O.PermanentErr(errP), O.PermanentErr(errP2, nil)}, with(errP, errP2)},
		{"no custom errors given", []blobstore.RetryStoreOption{O.PermanentErr(), O.PermanentErr(nil)}, defPerm},
		{"no timeout", []blobstore.RetryStoreOption{O.OpTimeout(0), O.PermanentErr(errP2)}, with(errP2)},
	}
	mk := func(st blobstore.Store, cf conf, g, s, d int) (blobstore.Store, error) {
		o := append([]blobstore.RetryStoreOption{O.Backoff(triesFn(g), triesFn(s), triesFn(d)), O.Backoff(nil, nil, nil)}, cf.opts...)
		return blobstore.NewRetryStore(st, o...)
	}
	one := func(cf conf, st blobstore.Store, sc *scripted, op byte, retries int, script []int) error {
		sc.script, sc.n, sc.op, sc.bad = script, 0, op, ""
		err := call16(st, bg, op)
		n, want := expect16(script, retries, cf.perm)
		if err != want || sc.n != n {
			return fmt.Errorf("%d attempts, error %v; want %d attempts, error %v", sc.n, err, n, want)
		}
		if sc.bad != "" {
			return fmt.Errorf("%s", sc.bad)
		}
		return nil
	}
	names := func(script []int) string {
		var s []string
		for _, i := range script {
			s = append(s, outs16[i].name)
		}
		return strings.Join(s, ",")
	}
	// All outcome patterns.
	maxR := h.Pick(c, 4, 5)
	ops := []byte{'G', 'S', 'D'}
	for ci, cf := range confs {
		for _, op := range ops {
			for r := 0; r <= maxR; r++ {
				cf, op, r := cf, op, r
				// The retries of the other operations differ.
				lim := []int{r + 1, r + 2, r + 3}
				lim[strings.IndexByte("GSD", op)] = r
				sc := &scripted{}
				st, err := mk(sc, cf, lim[0], lim[1], lim[2])
				if err != nil {
					c.Errorf("%v", err)
					return
				}
				pat := r + 1
				if ci > 1 && pat > 3 {
					pat = 3
				}
				stop := false
				seqs(len(outs16), pat, func(sq []int) {
					if stop {
						return
					}
					script := append([]int{}, sq...)
					stop = !x.do(func() string { return fmt.Sprintf("pattern %s %c retries=%d outcomes=%s", cf.name, op, r, names(script)) }, func() error {
						return one(cf, st, sc, op, r, script)
					})
				})
				if stop {
					return
				}
			}
		}
	}
	// Settings of one store never affect another: all ordered pairs and triples of
	// configurations, created in order, each checked afterwards.
	for i := range confs {
		for j := range confs {
			for k := range confs {
				trio := []conf{confs[i], confs[j], confs[k]}
				x.do(func() string { return fmt.Sprintf("isolation %s, %s, %s", trio[0].name, trio[1].name, trio[2].name) }, func() error {
					var sts []blobstore.Store
					var scs []*scripted
					for n, cf := range trio {
						sc := &scripted{}
						st, err := mk(sc, cf, n+1, n+2, n)
						if err != nil {
							return err
						}
						sts, scs = append(sts, st), append(scs, sc)
					}
					for n, cf := range trio {
						for oi, op := range ops {
							for o := range outs16 {
								if err := one(cf, sts[n], scs[n], op, []int{n + 1, n + 2, n}[oi], []int{o, o, o, o}); err != nil {
									return fmt.Errorf("store %d (%s), %c, outcome %s: %v", n, cf.name, op, outs16[o].name, err)
								}
							}
						}
					}
					return nil
				})
			}
		}
	}
	// Cancellation by the caller at every point.
	for _, cf := range confs[:3] {
		for _, op := range ops {
			for r := 0; r <= 3; r++ {
				for at := 0; at <= r; at++ {
					for where := 0; where < 4; where++ {
						cf, op, r, at, where := cf, op, r, at, where
						x.do(func() string {
							return fmt.Sprintf("cancel %s %c retries=%d attempt=%d %s", cf.name, op, r, at, []string{"during", "in backoff", "before", "deadline during"}[where])
						}, func() error {
							ctx, cancel := context.WithCancel(bg)
							defer cancel()
							n := 0
							bo := func() backoff.BackOff {
								return &tries{n: r, hook: func() {
									if where == 1 && n == at+1 {
										cancel()
									}
								}}
							}
							if where == 1 {
								// A long pause that the cancellation has to interrupt.
								f := bo
								bo = func() backoff.BackOff {
									t := f().(*tries)
									hk := t.hook
									t.hook = func() {
										if n == at+1 {
											t.delay = 20 * time.Second
										}
										hk()
									}
									return t
								}
							}
							if where == 2 {
								cancel()
							}
							if where == 3 {
								var c2 func()
								ctx, c2 = context.WithDeadline(ctx, time.Now().Add(5*time.Millisecond))
								defer c2()
							}
							sc := &scripted{op: op}
							sc.hook = func(i int, actx context.Context) {
								n = i + 1
								if where == 0 && i == at {
									cancel()
								}
								if where == 3 && i == at {
									<-actx.Done()
								}
							}
							st, err := blobstore.NewRetryStore(sc, append([]blobstore.RetryStoreOption{O.Backoff(bo, bo, bo)}, cf.opts...)...)
							if err != nil {
								return err
							}
							start := time.Now()
							err = call16(st, ctx, op)
							want := at + 1
							if where == 2 {
								want = 1
							}
							if where == 3 && sc.n < want {
								// Slow machine: the deadline passed earlier.
								want = sc.n
							}
							if sc.n > want || where != 2 && sc.n != want {
								return fmt.Errorf("%d attempts, want %d", sc.n, want)
							}
							if err != errT && !(where == 2 && sc.n == 0 && err != nil) {
								return fmt.Errorf("returns %v, want the error of the last attempt", err)
							}
							if d := time.Since(start); d > 15*time.Second {
								return fmt.Errorf("waited %v after the cancellation", d)
							}
							return nil
						})
					}
				}
			}
		}
	}
	// Time limit per attempt: a store that hangs until its context ends.
	for _, op := range ops {
		for r := 0; r <= 2; r++ {
			for ok := 0; ok <= r+1; ok++ {
				op, r, ok := op, r, ok
				x.do(func() string { return fmt.Sprintf("timeout %c retries=%d hangs=%d", op, r, ok) }, func() error {
					sc := &scripted{op: op}
					for i := 0; i < ok; i++ {
						sc.script = append(sc.script, 6)
					}
					sc.script = append(sc.script, 0)
					bad := ""
					sc.hook = func(i int, ctx context.Context) {
						if _, has := ctx.Deadline(); !has {
							bad = fmt.Sprintf("attempt %d has no deadline", i)
							return
						}
						if i < ok {
							<-ctx.Done()
						} else if ctx.Err() != nil && ok == 0 {
							bad = fmt.Sprintf("attempt %d starts with an ended context", i)
						}
					}
					st, err := blobstore.NewRetryStore(sc, O.Backoff(triesFn(r), triesFn(r), triesFn(r)), O.OpTimeout(3*time.Millisecond))
					if err != nil {
						return err
					}
					err = call16(st, bg, op)
					n, want := expect16(sc.script, r, defPerm)
					if bad != "" {
						return fmt.Errorf("%s", bad)
					}
					if err != want || sc.n != n {
						return fmt.Errorf("%d attempts, error %v; want %d, %v", sc.n, err, n, want)
					}
					return nil
				})
			}
		}
		for _, dl := range []bool{false, true} {
			op, dl := op, dl
			x.do(func() string { return fmt.Sprintf("timeout off %c deadline=%v", op, dl) }, func() error {
				ctx := bg
				var until time.Time
				if dl {
					until = time.Now().Add(time.Hour)
					var cancel func()
					ctx, cancel = context.WithDeadline(ctx, until)
					defer cancel()
				}
				bad := ""
				sc := &scripted{op: op, script: []int{1, 0}, hook: func(i int, ctx context.Context) {
					if d, has := ctx.Deadline(); has != dl || has && !d.Equal(until) {
						bad = fmt.Sprintf("attempt %d has deadline %v", i, d)
					}
				}}
				st, err := blobstore.NewRetryStore(sc, O.Backoff(triesFn(1), triesFn(1), triesFn(1)), O.OpTimeout(0))
				if err != nil {
					return err
				}
				if err := call16(st, ctx, op); err != nil {
					return err
				}
				if bad != "" {
					return fmt.Errorf("%s", bad)
				}
				return nil
			})
		}
	}
	c.Bound("retries", fmt.Sprint("0-", maxR))
	c.Bound("outcomes per attempt", len(outs16))
	c.Count("sequential", x.n/c.NShards)
	if c.Expired() {
		return
	}
	// Concurrent operations of one store: each has its own attempts.
	bound := h.Pick(c, 2, 3)
	for i := 0; i < 3; i++ {
		for j := i; j < 3; j++ {
			for _, fails := range [][2]int{{2, 2}, {1, 2}, {3, 1}, {3, 3}} {
				i, j, fails := i, j, fails
				c.Explore(h.Scenario{Name: fmt.Sprintf("concurrent %c (%d failures), %c (%d failures)", ops[i], fails[0], ops[j], fails[1]), Bound: bound, Policies: []int{0, 1, 5},
					Body: func() (string, error) {
						st := &perKey{n: map[string]int{}, fail: map[string]int{"a": fails[0], "b": fails[1]}}
						rs, err := blobstore.NewRetryStore(st, O.Backoff(triesFn(2), triesFn(2), triesFn(2)), O.OpTimeout(0))
						if err != nil {
							return "", err
						}
						var errs [2]error
						run := func(k int, op byte, key string) func() {
							return func() {
								switch op {
								case 'G':
									_, errs[k] = rs.Get(bg, "set", key)
								case 'S':
									errs[k] = rs.Set(bg, "set", key, nil)
								case 'D':
									errs[k] = rs.Delete(bg, "set", key)
								}
							}
						}
						h.Par(run(0, ops[i], "a"), run(1, ops[j], "b"))
						for k, key := range []string{"a", "b"} {
							want := min(fails[k]+1, 3)
							if st.n[key] != want || (errs[k] == nil) != (fails[k] < 3) {
								return "", fmt.Errorf("%d attempts for %s (want %d), error %v", st.n[key], key, want, errs[k])
							}
						}
						return fmt.Sprint(errs), nil
					}})
			}
		}
	}
	c.Bound("deviations", bound)
}

type perKey struct{ n, fail map[string]int }

func (p *perKey) do(key string) error {
	vsched.Point("store")
	p.n[key]++
	if p.n[key] <= p.fail[key] {
		return errT
	}
	return nil
}
func (p *perKey) Get(ctx context.Context, set, key string) ([]byte, error) { return nil, p.do(key) }
func (p *perKey) Set(ctx context.Context, set, key string, val []byte) error {
	return p.do(key)
}
func (p *perKey) Delete(ctx context.Context, set, key string) error { return p.do(key) }
