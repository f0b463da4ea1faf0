//go:build go1.21

package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/badgerstore"
	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
	"github.com/dgraph-io/badger"
)

// backend is a storage backend under test. Its data lives in a scratch directory.
type backend struct {
	name       string
	persistent bool
	maxVal     int // larger values may be refused (0: no limit)
	open       func(dir string) (blobstore.Store, func() error, error)
}

func nop() error { return nil }

type nolog struct{}

func (nolog) Errorf(string, ...interface{})   {}
func (nolog) Warningf(string, ...interface{}) {}
func (nolog) Infof(string, ...interface{})    {}
func (nolog) Debugf(string, ...interface{})   {}

func badgerOpts(dir string, table int64) badger.Options {
	o := badger.DefaultOptions(dir)
	o = o.WithSyncWrites(false).WithLogger(nolog{}).WithValueLogFileSize(16 << 20).WithMaxTableSize(table).WithNumMemtables(2).WithNumCompactors(1)
	return o
}

type plainSet struct{ w map[string]blobstore.WithSet }

func (p plainSet) s(s blobstore.Store, set string) blobstore.WithSet {
	if p.w[set] == nil {
		p.w[set] = blobstore.StoreWithSet(s, set)
	}
	return p.w[set]
}

// viaSet uses a store through the WithSet interface.
type viaSet struct {
	s blobstore.Store
	p plainSet
}

func (v viaSet) Get(ctx context.Context, set, key string) ([]byte, error) {
	return v.p.s(v.s, set).Get(ctx, key)
}
func (v viaSet) Set(ctx context.Context, set, key string, val []byte) error {
	return v.p.s(v.s, set).Set(ctx, key, val)
}
func (v viaSet) Delete(ctx context.Context, set, key string) error {
	return v.p.s(v.s, set).Delete(ctx, key)
}

func openBadger(table int64) func(dir string) (blobstore.Store, func() error, error) {
	return func(dir string) (blobstore.Store, func() error, error) {
		s, err := badgerstore.New(badgerOpts(filepath.Join(dir, "badger"), table))
		if err != nil {
			return nil, nil, err
		}
		return s, s.Close, nil
	}
}

var backends = []backend{
	{"memory", false, blobstore.MaxSize, func(string) (blobstore.Store, func() error, error) { return memstore.NewMemStore(), nop, nil }},
	{"memory via set", false, blobstore.MaxSize, func(string) (blobstore.Store, func() error, error) {
		return viaSet{memstore.NewMemStore(), plainSet{map[string]blobstore.WithSet{}}}, nop, nil
	}},
	{"test", false, blobstore.MaxSize, func(string) (blobstore.Store, func() error, error) {
		return blobstore.NewTestStore(memstore.NewMemStore()), nop, nil
	}},
	{"bolt", true, 0, func(dir string) (blobstore.Store, func() error, error) {
		s, err := boltstore.NewBoltStore(filepath.Join(dir, "bolt.db"), nil)
		if err != nil {
			return nil, nil, err
		}
		s.DB().NoSync = true
		return s, s.Close, nil
	}},
	{"badger", true, 0, openBadger(8 << 20)},
	{"badger, small transactions", true, 0, openBadger(1 << 14)},
}

func scratch(f func(dir string) error) error {
	base := os.Getenv("VH_SCRATCH")
	dir, err := os.MkdirTemp(base, "vh-store-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	return f(dir)
}

func c17(c *h.Ctx) {
	x := &c22ctx{c: c}
	for _, b := range backends {
		b := b
		n0 := x.n
		c17names(x, b)
		c17sizes(x, b)
		c17seq(x, b)
		if strings.HasPrefix(b.name, "badger") {
			c17queue(x, b)
		}
		c.Count(b.name, (x.n-n0)/c.NShards)
		if c.Expired() {
			return
		}
	}
	c17conc(c)
}

// do1 is one case in its own new store.
func (b backend) do1(x *c22ctx, name func() string, f func(s blobstore.Store, reopen func() (blobstore.Store, error)) error) bool {
	return x.do(func() string { return b.name + ": " + name() }, func() error {
		return scratch(func(dir string) error {
			s, cl, err := b.open(dir)
			if err != nil {
				return fmt.Errorf("opening: %v", err)
			}
			err = f(s, func() (blobstore.Store, error) {
				if err := cl(); err != nil {
					return nil, fmt.Errorf("closing: %v", err)
				}
				if s, cl, err = b.open(dir); err != nil {
					cl = nop
					return nil, fmt.Errorf("opening again: %v", err)
				}
				return s, nil
			})
			if e := cl(); e != nil && err == nil {
				err = fmt.Errorf("closing: %v", e)
			}
			return err
		})
	})
}

// c17names: independence of every pair of set/key names.
func c17names(x *c22ctx, b backend) {
	var names [][2]string
	for _, set := range []string{"aa", "bb", "aa/bb", "aabb", "a", "æ", "a\x00b", strings.Repeat("s", 200), "+0", "3/aa"} {
		for _, key := range []string{"cc", "bb/cc", "bbcc", "CC", "cc ", "cc\x00", "æø", "../cc", strings.Repeat("k", 300), "12345-000001"} {
			names = append(names, [2]string{set, key})
		}
	}
	// One store for all partners of a name.
	for i := range names {
		i := i
		for part := 0; part < 2; part++ {
			part := part
			key := ""
			b.do1(x, func() string {
				if key != "" {
					return key
				}
				return fmt.Sprintf("independence of %.40q", names[i])
			}, func(s blobstore.Store, reopen func() (blobstore.Store, error)) error {
				p := names[i]
				for j := range names {
					if i == j || j%2 != part {
						continue
					}
					q := names[j]
					step := func() error {
						if err := s.Set(bg, p[0], p[1], []byte("first")); err != nil {
							return fmt.Errorf("Set %q: %v", p, err)
						}
						if err := same15(s, q[0], q[1], nil); err != nil {
							return err
						}
						if err := s.Delete(bg, q[0], q[1]); err != nil {
							return err
						}
						if err := same15(s, p[0], p[1], []byte("first")); err != nil {
							return fmt.Errorf("after deleting missing %.40q: %v", q, err)
						}
						if err := s.Set(bg, q[0], q[1], []byte("second")); err != nil {
							return fmt.Errorf("Set %q: %v", q, err)
						}
						if err := same15(s, p[0], p[1], []byte("first")); err != nil {
							return fmt.Errorf("after writing %.40q: %v", q, err)
						}
						if err := same15(s, q[0], q[1], []byte("second")); err != nil {
							return err
						}
						if err := s.Delete(bg, p[0], p[1]); err != nil {
							return err
						}
						if err := same15(s, p[0], p[1], nil); err != nil {
							return err
						}
						if err := same15(s, q[0], q[1], []byte("second")); err != nil {
							return fmt.Errorf("after deleting %.40q: %v", p, err)
						}
						if err := s.Delete(bg, q[0], q[1]); err != nil {
							return err
						}
						return same15(s, q[0], q[1], nil)
					}
					if err := step(); err != nil {
						key = fmt.Sprintf("independence of %.40q and %.40q", p, q)
						return fmt.Errorf("%.40q and %.40q: %v", p, q, err)
					}
				}
				return nil
			})
			if x.c.Stopped() {
				return
			}
		}
	}
}

// c17sizes: values of every boundary size, aliasing, reopening.
func c17sizes(x *c22ctx, b backend) {
	sizes := []int{-1, 0, 1, 2, 15, 16, 31, 32, 33, 255, 256, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 200000, blobstore.MaxSize - 1, blobstore.MaxSize, blobstore.MaxSize + 1}
	for _, n := range sizes {
		n := n
		b.do1(x, func() string { return fmt.Sprintf("value of %d bytes", n) }, func(s blobstore.Store, reopen func() (blobstore.Store, error)) error {
			var v []byte
			if n >= 0 {
				v = blob15(1, n)
			}
			want := append([]byte{}, v...)
			for i := 0; i < 2; i++ {
				if i == 1 {
					if err := s.Set(bg, "set", "key", []byte("previous")); err != nil {
						return err
					}
				}
				err := s.Set(bg, "set", "key", v)
				if err != nil && (b.maxVal > 0 && n > b.maxVal || b.name == "badger, small transactions") {
					if i == 1 {
						return same15(s, "set", "key", []byte("previous"))
					}
					if err := same15(s, "set", "key", nil); err != nil {
						return err
					}
					continue
				}
				if err != nil {
					return fmt.Errorf("Set: %v", err)
				}
				if !bytes.Equal(v, want) {
					return fmt.Errorf("Set changed its argument")
				}
				for i := range v {
					v[i] ^= 0x55
				}
				if err := same15(s, "set", "key", want); err != nil {
					return fmt.Errorf("after changing the written slice: %v", err)
				}
				copy(v, want)
				g, err := s.Get(bg, "set", "key")
				if err != nil {
					return err
				}
				for i := range g {
					g[i] ^= 0x55
				}
				g = append(g, 1, 2, 3)
				if err := same15(s, "set", "key", want); err != nil {
					return fmt.Errorf("after changing the slice read: %v", err)
				}
				if b.persistent {
					if s, err = reopen(); err != nil {
						return err
					}
					if err := same15(s, "set", "key", want); err != nil {
						return fmt.Errorf("after reopening: %v", err)
					}
					g, err := s.Get(bg, "set", "key")
					if err != nil {
						return err
					}
					for i := range g {
						g[i] ^= 0x55
					}
					if err := same15(s, "set", "key", want); err != nil {
						return fmt.Errorf("after reopening and changing the slice read: %v", err)
					}
				}
				if err := s.Delete(bg, "set", "key"); err != nil {
					return err
				}
				if err := same15(s, "set", "key", nil); err != nil {
					return err
				}
				if b.persistent {
					if s, err = reopen(); err != nil {
						return err
					}
					if err := same15(s, "set", "key", nil); err != nil {
						return fmt.Errorf("after deleting and reopening: %v", err)
					}
				}
			}
			return nil
		})
		if x.c.Stopped() {
			return
		}
	}
}

// c17seq runs all operation sequences over two keys, each in its own set of one store,
// step by step, with the store reopened after any subset of steps.
func c17seq(x *c22ctx, b backend) {
	type o struct {
		kind byte
		key  string
		val  int
	}
	alpha := []o{{'S', "k1", 1}, {'S', "k1", 2}, {'S', "k2", 3}, {'D', "k1", 0}, {'D', "k2", 0}, {'F', "", 0}}
	depth := h.Pick(x.c, 4, 5)
	show := func(sq []int) string {
		var s []string
		for _, i := range sq {
			s = append(s, fmt.Sprintf("%c(%s,%d)", alpha[i].kind, alpha[i].key, alpha[i].val))
		}
		return strings.Join(s, " ")
	}
	vals := map[int][]byte{1: []byte("one"), 2: {}, 3: blob15(3, 5000)}
	masks := 1
	if b.persistent {
		masks = 1 << depth
	}
	// Sequences are grouped: a group shares a store.
	for mask := 0; mask < masks; mask++ {
		for grp := 0; grp < len(alpha); grp++ {
			mask, grp := mask, grp
			bad := ""
			b.do1(x, func() string {
				return fmt.Sprintf("sequences of %d starting with %s, reopened after steps %b%s", depth, show([]int{grp}), mask, bad)
			}, func(s blobstore.Store, reopen func() (blobstore.Store, error)) error {
				var err error
				var sq [][]int
				seqs(len(alpha), depth-1, func(q []int) { sq = append(sq, append([]int{grp}, q...)) })
				want := make([]map[string][]byte, len(sq))
				for i := range want {
					want[i] = map[string][]byte{}
				}
				fill := 0
				for step := 0; step < depth; step++ {
					for i, q := range sq {
						set := fmt.Sprint("seq", i)
						op := alpha[q[step]]
						switch op.kind {
						case 'S':
							err = s.Set(bg, set, op.key, vals[op.val])
							want[i][op.key] = vals[op.val]
						case 'D':
							err = s.Delete(bg, set, op.key)
							delete(want[i], op.key)
						case 'F':
							// Other writes in between.
							for k := 0; k < 7 && err == nil; k++ {
								fill++
								err = s.Set(bg, "filler", fmt.Sprint("fill", fill%50), []byte("x"))
							}
						}
						if err == nil {
							for _, k := range []string{"k1", "k2"} {
								w, ok := want[i][k]
								if !ok {
									w = nil
								} else if w == nil {
									w = []byte{}
								}
								if err = same15(s, set, k, w); err != nil {
									break
								}
							}
						}
						if err != nil {
							bad = ": " + show(q[:step+1])
							return err
						}
					}
					if mask&(1<<step) != 0 {
						if s, err = reopen(); err != nil {
							return err
						}
					}
				}
				for i, q := range sq {
					for _, k := range []string{"k1", "k2"} {
						w, ok := want[i][k]
						if ok && w == nil {
							w = []byte{}
						}
						if err = same15(s, fmt.Sprint("seq", i), k, w); err != nil {
							bad = ": " + show(q)
							return fmt.Errorf("at the end: %v", err)
						}
					}
				}
				x.c.Trans(len(sq) * depth)
				x.c.States(len(sq))
				x.c.Trace(len(sq))
				return nil
			})
			if x.c.Stopped() {
				return
			}
		}
	}
	x.c.Bound("sequence length", depth)
}

// c17queue: the write queue of the badger store, every fill level around the flush
// and entries that the database refuses, at every position.
func c17queue(x *c22ctx, b backend) {
	for _, n := range []int{1, 50, 98, 99, 100, 101, 150, 199, 200, 201, 300} {
		for _, size := range []int{5, 2000} {
			n, size := n, size
			b.do1(x, func() string { return fmt.Sprintf("%d writes of %d bytes", n, size) }, func(s blobstore.Store, reopen func() (blobstore.Store, error)) error {
				for i := 0; i < n; i++ {
					if err := s.Set(bg, "set", fmt.Sprint("key", i), blob15(i, size)); err != nil {
						return err
					}
				}
				all := func() error {
					for i := 0; i < n; i++ {
						if err := same15(s, "set", fmt.Sprint("key", i), blob15(i, size)); err != nil {
							return err
						}
					}
					return nil
				}
				if err := all(); err != nil {
					return err
				}
				var err error
				if s, err = reopen(); err != nil {
					return err
				}
				return all()
			})
		}
	}
	for _, at := range []int{0, 1, 50, 98, 99, 100, 120} {
		for _, kind := range []string{"long key", "large value", "reserved key"} {
			at, kind := at, kind
			b.do1(x, func() string { return fmt.Sprintf("%s as write %d", kind, at) }, func(s blobstore.Store, reopen func() (blobstore.Store, error)) error {
				const n = 230
				set, key, val := "set", strings.Repeat("k", 66000), []byte("v")
				switch kind {
				case "large value":
					key, val = "big", blob15(1, 17<<20)
				case "reserved key":
					set, key = "!badger!x", "key"
				}
				okBig := false
				ok := map[int]bool{}
				for i := 0; i < n; i++ {
					if i == at {
						okBig = s.Set(bg, set, key, val) == nil
					}
					ok[i] = s.Set(bg, "set", fmt.Sprint("key", i), blob15(i, 10)) == nil
				}
				all := func(when string) error {
					for i := 0; i < n; i++ {
						if ok[i] {
							if err := same15(s, "set", fmt.Sprint("key", i), blob15(i, 10)); err != nil {
								return fmt.Errorf("%s: successful write lost: %v", when, err)
							}
						}
					}
					if okBig {
						if err := same15(s, set, key, val); err != nil {
							return fmt.Errorf("%s: %.20q: %v", when, key, err)
						}
					}
					return nil
				}
				if err := all("before closing"); err != nil {
					return err
				}
				var err error
				if s, err = reopen(); err != nil {
					return err
				}
				return all("after reopening")
			})
		}
	}
}

// c17conc: concurrent operations on one key of the instrumented backends are linearizable.
func c17conc(c *h.Ctx) {
	alpha := []op15{{'S', 0, 10}, {'S', 0, 20}, {kind: 'D'}, {kind: 'G'}}
	bound := h.Pick(c, 2, 3)
	for _, b := range backends {
		if b.name == "bolt" || b.name == "badger, small transactions" || b.name == "memory via set" {
			continue
		}
		b := b
		err := scratch(func(dir string) error {
			s, cl, err := b.open(dir)
			if err != nil {
				return err
			}
			defer func() { cl() }()
			exec := 0
			isB := strings.HasPrefix(b.name, "badger")
			run := func(init, queued int, tasks [][]op15) {
				var n []string
				for _, t := range tasks {
					n = append(n, seq15(t))
				}
				if c.Expired() {
					return
				}
				bd := bound
				if queued > 0 {
					bd--
				}
				c.Explore(h.Scenario{Name: fmt.Sprintf("%s: initial %d, queued %d, %s", b.name, init, queued, strings.Join(n, " | ")), Bound: bd, Policies: []int{0, 1, 5}, StmtPoints: isB,
					Body: func() (string, error) {
						exec++
						set := fmt.Sprint("conc", exec)
						lin := &linear{init: notFound}
						var err error
						fillQ := func(n int) {
							for i := 0; i < n && err == nil; i++ {
								err = s.Set(bg, "fill", fmt.Sprint("fill", i), []byte("x"))
							}
						}
						vsched.Frozen(func() {
							// The write queue is empty here.
							if init > 0 {
								v := blob15(99, init)
								err = s.Set(bg, set, "kk", v)
								lin.init = string(v)
								if isB {
									fillQ(99) // flush
								}
							}
							if isB {
								fillQ(queued)
							}
						})
						defer vsched.Frozen(func() {
							if !isB || vsched.Aborting() {
								return
							}
							// Empty the queue.
							for i := 0; i < 99; i++ {
								if i < queued {
									s.Delete(bg, "fill", fmt.Sprint("fill", i))
								}
							}
							s.Delete(bg, set, "kk")
						})
						if err != nil {
							return "", err
						}
						var fns []func()
						for ti, t := range tasks {
							ti, t := ti, t
							fns = append(fns, func() {
								for oi, o := range t {
									v := blob15(ti*5+oi+1, o.size)
									switch o.kind {
									case 'S':
										lin.write(string(v), func() error { return s.Set(bg, set, "kk", v) })
									case 'D':
										lin.write(notFound, func() error { return s.Delete(bg, set, "kk") })
									case 'G':
										lin.read(func() ([]byte, error) { return s.Get(bg, set, "kk") })
									}
								}
							})
						}
						h.Par(fns...)
						lin.read(func() ([]byte, error) { return s.Get(bg, set, "kk") })
						return lin.check()
					}})
			}
			for _, init := range []int{0, 15} {
				for _, q := range []int{0, 98, 99} {
					if q > 0 && !isB {
						continue
					}
					if q == 98 {
						run(init, q, [][]op15{{alpha[0], alpha[1]}, {alpha[3], alpha[3]}})
						run(init, q, [][]op15{{alpha[0]}, {alpha[1]}})
						continue
					}
					for i, a := range alpha {
						for _, d := range alpha[i:] {
							run(init, q, [][]op15{{a}, {d}})
						}
					}
					run(init, q, [][]op15{{alpha[0], alpha[3]}, {alpha[2], alpha[3]}})
					run(init, q, [][]op15{{alpha[0], alpha[1]}, {alpha[3], alpha[3]}})
					run(init, q, [][]op15{{alpha[0]}, {alpha[2]}, {alpha[3]}})
				}
			}
			return nil
		})
		if err != nil {
			c.Errorf("%s: %v", b.name, err)
		}
	}
	c.Bound("deviations", bound)
}

