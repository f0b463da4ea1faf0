//go:build go1.21

package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/zz_verif/h"
)

// limitStore reports values above the limit.
type limitStore struct {
	*h.Store
	max  int
	over string
}

func (s *limitStore) Set(ctx context.Context, set, key string, val []byte) error {
	if len(val) > s.max && s.over == "" {
		s.over = fmt.Sprintf("value of %d bytes handed to the underlying store, limit is %d", len(val), s.max)
	}
	return s.Store.Set(ctx, set, key, val)
}

// blob is the content written by write number v with the given size.
func blob15(v, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(i>>10)*31 + byte(i) ^ byte(v*67)
	}
	return b
}

type mw struct {
	max   int
	under *limitStore
	ms    *blobstore.MaxSizeStore
}

func newMW(max int) *mw {
	u := &limitStore{Store: h.NewStore(), max: max}
	u.NoPoint = true
	m := &mw{max: max, under: u}
	m.reopen()
	return m
}

func (m *mw) reopen() {
	ms, err := blobstore.NewMaxSizeStore(m.under, m.max)
	if err != nil {
		panic(err)
	}
	m.ms = ms
}

func show15(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%d bytes hash %x", len(b), h.Hash(string(b)))
}

// same checks a read of set/key against the expected content (nil: not found).
func same15(s blobstore.Store, set, key string, want []byte) error {
	b, err := s.Get(bg, set, key)
	if want == nil {
		if err != blobstore.ErrBlobNotFound {
			return fmt.Errorf("%s/%s should not be found: %s", set, key, show15(b, err))
		}
		return nil
	}
	if err != nil || !bytes.Equal(b, want) {
		return fmt.Errorf("%s/%s: got %s, want %s", set, key, show15(b, err), show15(want, nil))
	}
	return nil
}

func c15(c *h.Ctx) {
	if err := h.Seq(0, func() error { c15seq(c); return nil }); err != nil {
		c.Errorf("%v", err)
	}
	if !c.Expired() {
		c15conc(c)
	}
}

func c15seq(c *h.Ctx) {
	x := &c22ctx{c: c}
	for _, p := range []struct {
		name string
		f    func(x *c22ctx)
	}{{"options", c15opts}, {"sizes", c15sizes}, {"pairs", c15pairs}, {"sequences", c15ops}, {"faults", c15faults}, {"limit", c15limit}} {
		n0 := x.n
		p.f(x)
		c.Count(p.name, (x.n-n0)/c.NShards)
		if c.Expired() {
			return
		}
	}
}

func c15opts(x *c22ctx) {
	for _, n := range []int{-1, 0, 1, 1000, 1023, 1024, 1025, 1 << 20} {
		n := n
		x.do(func() string { return fmt.Sprintf("options max=%d", n) }, func() error {
			_, err := blobstore.NewMaxSizeStore(h.NewStore(), n)
			if (err == nil) != (n >= 1024) {
				return fmt.Errorf("returns %v", err)
			}
			return nil
		})
	}
}

func c15sizes(x *c22ctx) {
	for _, max := range []int{1024, 1025, 1500, 2048, 70000} {
		var sizes []int
		if max == 1024 {
			for i := 0; i <= 5*1024+8; i++ {
				sizes = append(sizes, i)
			}
		} else {
			for k := 0; k <= 5; k++ {
				for d := -6; d <= 6; d++ {
					if n := k*max + d; n >= 0 {
						sizes = append(sizes, n)
					}
				}
			}
		}
		for _, n := range sizes {
			max, n := max, n
			if !x.do(func() string { return fmt.Sprintf("size max=%d n=%d", max, n) }, func() error {
				m := newMW(max)
				b := blob15(1, n)
				in := append([]byte{}, b...)
				if err := m.ms.Set(bg, "s", "k", in); err != nil {
					return fmt.Errorf("Set: %v", err)
				}
				if !bytes.Equal(in, b) {
					return fmt.Errorf("Set changed the value it was given")
				}
				if m.under.over != "" {
					return fmt.Errorf("%s", m.under.over)
				}
				for i := range in {
					in[i] = 0xee
				}
				for i := 0; i < 2; i++ {
					if err := same15(m.ms, "s", "k", b); err != nil {
						return err
					}
				}
				g, _ := m.ms.Get(bg, "s", "k")
				for i := range g {
					g[i] = 0xdd
				}
				if err := same15(m.ms, "s", "k", b); err != nil {
					return fmt.Errorf("after changing the returned slice: %v", err)
				}
				re := []func(){func() {}, m.reopen, func() { m.reopen(); m.ms.Get(bg, "s", "k") }}
				full := m.under.Clone()
				for i, f := range re {
					m.under.M = full.Clone().M
					f()
					if err := same15(&blobstoreReader{m}, "s", "k", b); err != nil {
						return fmt.Errorf("reopened: %v", err)
					}
					if err := m.ms.Delete(bg, "s", "k"); err != nil {
						return fmt.Errorf("Delete (%d): %v", i, err)
					}
					if k := m.under.Keys(); len(k) > 0 {
						return fmt.Errorf("Delete (%d) left %v in the underlying store", i, k)
					}
					if err := same15(m.ms, "s", "k", nil); err != nil {
						return err
					}
					if err := m.ms.Delete(bg, "s", "k"); err != nil {
						return fmt.Errorf("deleting a missing blob: %v", err)
					}
				}
				return nil
			}) {
				return
			}
		}
	}
}

// blobstoreReader reads through a new instance, leaving the live one untouched.
type blobstoreReader struct{ m *mw }

func (r *blobstoreReader) Get(ctx context.Context, set, key string) ([]byte, error) {
	ms, err := blobstore.NewMaxSizeStore(r.m.under, r.m.max)
	if err != nil {
		return nil, err
	}
	return ms.Get(ctx, set, key)
}
func (r *blobstoreReader) Set(ctx context.Context, set, key string, val []byte) error { panic("set") }
func (r *blobstoreReader) Delete(ctx context.Context, set, key string) error          { panic("del") }

func c15pairs(x *c22ctx) {
	var sizes []int
	for k := 0; k <= 4; k++ {
		for d := -5; d <= 3; d++ {
			if n := k*1024 + d; n >= 0 {
				sizes = append(sizes, n)
			}
		}
	}
	for _, a := range sizes {
		for _, b := range sizes {
			for mode := 0; mode < 4; mode++ {
				a, b, mode := a, b, mode
				if !x.do(func() string { return fmt.Sprintf("overwrite %d by %d mode %d", a, b, mode) }, func() error {
					m := newMW(1024)
					if err := m.ms.Set(bg, "s", "k", blob15(1, a)); err != nil {
						return err
					}
					if mode&1 != 0 {
						m.reopen()
					}
					if mode&2 != 0 {
						m.ms.Get(bg, "s", "k")
					}
					want := blob15(2, b)
					if err := m.ms.Set(bg, "s", "k", want); err != nil {
						return err
					}
					if err := same15(&blobstoreReader{m}, "s", "k", want); err != nil {
						return fmt.Errorf("read by a new instance: %v", err)
					}
					if err := same15(m.ms, "s", "k", want); err != nil {
						return err
					}
					if m.under.over != "" {
						return fmt.Errorf("%s", m.under.over)
					}
					if mode != 1 {
						// The instance knew the old blob: no left over parts.
						if n, wantN := len(m.under.Keys()), (b+3+1023)/1024; n > wantN {
							return fmt.Errorf("%d blobs in the underlying store for %d bytes", n, b)
						}
					}
					return nil
				}) {
					return
				}
			}
		}
	}
}

type op15 struct {
	kind byte // S, D, G, R(eopen)
	key  int
	size int
}

func (o op15) String() string {
	k := keys15[o.key][0] + "/" + keys15[o.key][1]
	switch o.kind {
	case 'S':
		return fmt.Sprintf("Set(%s,%d)", k, o.size)
	case 'D':
		return "Delete(" + k + ")"
	case 'G':
		return "Get(" + k + ")"
	}
	return "Reopen"
}

// keys15 are sets and keys; the first and last are the same when joined.
var keys15 = [][2]string{{"s", "ta"}, {"s", "b"}, {"st", "a"}}

func seq15(ops []op15) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

func c15ops(x *c22ctx) {
	run := func(ops []op15) error {
		m := newMW(1024)
		want := make([][]byte, len(keys15))
		// Parts of blobs that are overwritten before anything is known about them may be left.
		var known [8]bool
		blind := false
		for i, o := range ops {
			set, key := keys15[o.key][0], keys15[o.key][1]
			switch o.kind {
			case 'S':
				b := blob15(i+1, o.size)
				if err := m.ms.Set(bg, set, key, b); err != nil {
					return fmt.Errorf("step %d: %v", i, err)
				}
				blind = blind || !known[o.key] && want[o.key] != nil
				known[o.key] = true
				want[o.key] = b
			case 'D':
				if err := m.ms.Delete(bg, set, key); err != nil {
					return fmt.Errorf("step %d: %v", i, err)
				}
				want[o.key] = nil
			case 'G':
				known[o.key] = true
				if err := same15(m.ms, set, key, want[o.key]); err != nil {
					return fmt.Errorf("step %d: %v", i, err)
				}
			case 'R':
				m.reopen()
				known = [8]bool{}
			}
			if m.under.over != "" {
				return fmt.Errorf("step %d: %s", i, m.under.over)
			}
		}
		for k := range keys15 {
			if err := same15(&blobstoreReader{m}, keys15[k][0], keys15[k][1], want[k]); err != nil {
				return fmt.Errorf("at the end, new instance: %v", err)
			}
			if len(ops)%2 == 0 && !blind {
				// Nothing more is learned before the blobs are deleted.
				continue
			}
			if err := same15(m.ms, keys15[k][0], keys15[k][1], want[k]); err != nil {
				return fmt.Errorf("at the end: %v", err)
			}
		}
		if blind {
			return nil
		}
		for _, k := range keys15 {
			if err := m.ms.Delete(bg, k[0], k[1]); err != nil {
				return fmt.Errorf("deleting at the end: %v", err)
			}
		}
		if k := m.under.Keys(); len(k) > 0 {
			return fmt.Errorf("deleting all blobs at the end left %v in the underlying store", k)
		}
		return nil
	}
	enum := func(alpha []op15, depth int) {
		var rec func(cur []op15) bool
		rec = func(cur []op15) bool {
			if len(cur) > 0 {
				c := append([]op15{}, cur...)
				if !x.do(func() string { return "sequence " + seq15(c) }, func() error { return run(c) }) {
					return false
				}
			}
			if len(cur) == depth {
				return true
			}
			for _, o := range alpha {
				if !rec(append(cur[:len(cur):len(cur)], o)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}
	var a []op15
	for _, n := range []int{0, 1021, 1022, 1024, 2045, 2046, 3000, 4200} {
		a = append(a, op15{'S', 0, n})
	}
	a = append(a, op15{kind: 'D'}, op15{kind: 'G'}, op15{kind: 'R'})
	d := h.Pick(x.c, 5, 6)
	enum(a, d)
	a = nil
	for k := range keys15 {
		for _, n := range []int{10, 1500, 2500} {
			a = append(a, op15{'S', k, n})
		}
		a = append(a, op15{kind: 'D', key: k}, op15{kind: 'G', key: k})
	}
	a = append(a, op15{kind: 'R'})
	d2 := h.Pick(x.c, 4, 5)
	enum(a, d2)
	x.c.Bound("sequence length, one key", d)
	x.c.Bound("sequence length, three keys", d2)
}

func parts15(n int) int { return (n + 3 + 1023) / 1024 }

// c15faults fails the k-th call of the underlying store.
func c15faults(x *c22ctx) {
	olds := []int{-1, 0, 500, 1021, 1022, 2000, 3000, 4000}
	news := []op15{{'S', 0, 0}, {'S', 0, 600}, {'S', 0, 1022}, {'S', 0, 2001}, {'S', 0, 3001}, {'S', 0, 4001}, {kind: 'D'}, {kind: 'G'}}
	for _, old := range olds {
		for mode := 0; mode < 3; mode++ { // live, reopened, reopened and read
			for _, o := range news {
				for k := 0; k < 12; k++ {
					for _, persist := range []bool{false, true} {
						old, mode, o, k, persist := old, mode, o, k, persist
						fired := false
						key := ""
						name := func() string {
							if key != "" {
								return key
							}
							return fmt.Sprintf("fault old=%d mode=%d %v call=%d persistent=%v", old, mode, o, k, persist)
						}
						x.do(name, func() error {
							m := newMW(1024)
							var before []byte
							if old >= 0 {
								before = blob15(1, old)
								if err := m.ms.Set(bg, "s", "a", before); err != nil {
									return err
								}
							}
							if mode > 0 {
								m.reopen()
							}
							if mode > 1 {
								m.ms.Get(bg, "s", "a")
							}
							n0 := m.under.N
							setFailed, part := false, -1
							m.under.Fault = func(n int, kind byte, set, key string) error {
								if n-n0 == k || persist && n-n0 > k {
									fired = true
									if kind == 'S' {
										setFailed = true
										if part < 0 {
											part = 0
											fmt.Sscanf(strings.TrimPrefix(key, "a+"), "%d", &part)
											if key != "a" {
												part++
											}
										}
									}
									return h.ErrInjected
								}
								return nil
							}
							after := before
							var err error
							switch o.kind {
							case 'S':
								after = blob15(2, o.size)
								err = m.ms.Set(bg, "s", "a", after)
							case 'D':
								after = nil
								err = m.ms.Delete(bg, "s", "a")
							case 'G':
								var b []byte
								b, err = m.ms.Get(bg, "s", "a")
								if err == nil && (before == nil || !bytes.Equal(b, before)) {
									return fmt.Errorf("Get returns %s, want %s", show15(b, nil), show15(before, nil))
								}
							}
							m.under.Fault = nil
							if setFailed && err == nil {
								return fmt.Errorf("a part could not be written, but success was reported")
							}
							if !fired && err != nil && !(err == blobstore.ErrBlobNotFound && o.kind == 'G') {
								return fmt.Errorf("fails without a fault: %v", err)
							}
							var pend error
							pendKey := ""
							check := func(s blobstore.Store, who string) error {
								if err == nil {
									if e := same15(s, "s", "a", after); e != nil {
										return fmt.Errorf("success was reported, but %s: %v", who, e)
									}
									return nil
								}
								b, e := s.Get(bg, "s", "a")
								if e == nil && !(before != nil && bytes.Equal(b, before)) && !(after != nil && bytes.Equal(b, after)) {
									if o.kind == 'S' && before != nil {
										if mixed := mixed15(b, before, after, part); mixed {
											pendKey = fmt.Sprintf("mixed parts after failed overwrite old=%d new=%d parts, part %d failed", parts15(old), parts15(o.size), part)
											pend = fmt.Errorf("after the failure %s reads %s, which is neither the old (%s) nor the new (%s) value", who, show15(b, e), show15(before, nil), show15(after, nil))
											return nil
										}
									}
									return fmt.Errorf("after the failure %s reads %s, which is neither the old (%s) nor the new (%s) value", who, show15(b, e), show15(before, nil), show15(after, nil))
								}
								return nil
							}
							snap := m.under.Clone()
							if e := check(&blobstoreReader{m}, "a new instance"); e != nil {
								return e
							}
							for i := 0; i < 3; i++ {
								for _, live := range []bool{true, false} {
									m.under.M = snap.Clone().M
									if !live {
										m.reopen()
									}
									switch i {
									case 0:
										if e := check(m.ms, "the instance"); e != nil {
											return e
										}
									case 1:
										b := blob15(3, 2500)
										if e := m.ms.Set(bg, "s", "a", b); e != nil {
											return fmt.Errorf("writing again after the fault: %v", e)
										}
										if e := same15(&blobstoreReader{m}, "s", "a", b); e != nil {
											return fmt.Errorf("written again after the fault: %v", e)
										}
									case 2:
										if e := m.ms.Delete(bg, "s", "a"); e != nil {
											return fmt.Errorf("deleting after the fault: %v", e)
										}
										if e := same15(&blobstoreReader{m}, "s", "a", nil); e != nil {
											return fmt.Errorf("deleted after the fault: %v", e)
										}
									}
								}
							}
							key = pendKey
							return pend
						})
						if x.c.Stopped() {
							return
						}
					}
				}
			}
		}
	}
}

// mixed15: b is the new value up to the failed part and the old value from there.
func mixed15(b, old, new []byte, part int) bool {
	// Both are preceded by one byte of part count.
	cut := part*1024 - 1
	n, o := min(cut, len(new)), min(cut, len(old))
	return part > 0 && len(b) >= n && bytes.Equal(b[:n], new[:n]) && bytes.HasPrefix(old[o:], b[n:])
}

// c15limit: the largest size that can be stored and one more.
func c15limit(x *c22ctx) {
	const limit = 65534*1024 - 3
	for _, d := range []int{0, 1, 1024, 5000} {
		d := d
		x.do(func() string { return fmt.Sprintf("limit n=%d", limit+d) }, func() error {
			m := newMW(1024)
			b := blob15(1, limit+d)
			err := m.ms.Set(bg, "s", "k", b)
			if d > 0 {
				if err != blobstore.ErrBlobTooBig {
					return fmt.Errorf("Set: %v", err)
				}
				if n := len(m.under.Keys()); n > 0 {
					return fmt.Errorf("%d parts written", n)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("Set: %v", err)
			}
			if err := same15(m.ms, "s", "k", b); err != nil {
				return err
			}
			m.reopen()
			if err := same15(m.ms, "s", "k", b); err != nil {
				return err
			}
			if err := m.ms.Delete(bg, "s", "k"); err != nil {
				return err
			}
			if n := len(m.under.Keys()); n > 0 {
				return fmt.Errorf("%d parts left", n)
			}
			return nil
		})
	}
}

// c15conc: concurrent operations on one key are linearizable.
func c15conc(c *h.Ctx) {
	type task []op15
	alpha := []op15{{'S', 0, 600}, {'S', 0, 2000}, {'S', 0, 3000}, {kind: 'D'}, {kind: 'G'}}
	var scs []h.Scenario
	bound := h.Pick(c, 3, 4)
	add := func(init int, tasks []task) {
		var n []string
		for _, t := range tasks {
			n = append(n, seq15(t))
		}
		scs = append(scs, h.Scenario{Name: fmt.Sprintf("initial %d, %s", init, strings.Join(n, " | ")), Bound: bound, Policies: []int{0, 1, 5},
			Body: func() (string, error) {
				m := newMW(1024)
				m.under.NoPoint = false
				lin := &linear{}
				if init > 0 {
					b := blob15(99, init)
					if err := m.ms.Set(bg, "s", "a", b); err != nil {
						return "", err
					}
					lin.init = string(b)
				} else {
					lin.init = notFound
				}
				var fns []func()
				for ti, t := range tasks {
					ti, t := ti, t
					fns = append(fns, func() {
						for oi, o := range t {
							v := blob15(ti*5+oi+1, o.size)
							switch o.kind {
							case 'S':
								lin.write(string(v), func() error { return m.ms.Set(bg, "s", "a", v) })
							case 'D':
								lin.write(notFound, func() error { return m.ms.Delete(bg, "s", "a") })
							case 'G':
								lin.read(func() ([]byte, error) { return m.ms.Get(bg, "s", "a") })
							}
						}
					})
				}
				h.Par(fns...)
				lin.read(func() ([]byte, error) { return m.ms.Get(bg, "s", "a") })
				lin.read(func() ([]byte, error) { return (&blobstoreReader{m}).Get(bg, "s", "a") })
				if m.under.over != "" {
					return "", fmt.Errorf("%s", m.under.over)
				}
				return lin.check()
			}})
	}
	for _, init := range []int{0, 3000} {
		for i, a := range alpha {
			for j, b := range alpha[i:] {
				add(init, []task{{a}, {b}})
				for _, d := range alpha[i+j:] {
					add(init, []task{{a}, {b}, {d}})
				}
			}
		}
		add(init, []task{{alpha[1], alpha[4]}, {alpha[2], alpha[3]}})
		add(init, []task{{alpha[2], alpha[4]}, {alpha[3], alpha[4]}})
		add(init, []task{{alpha[0], alpha[4]}, {alpha[2], alpha[4]}})
	}
	for _, sc := range scs {
		if c.Expired() {
			break
		}
		c.Explore(sc)
	}
	c.Bound("deviations", bound)
	c.Count("concurrent scenarios", len(scs)/c.NShards)
}
