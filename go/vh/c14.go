//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// lop is one call on the lazy saver: S(et), D(elete), G(et) or W(ait until nothing
// happens any more without time passing).
type lop struct {
	kind byte
	k    int
}

// lkeys are the blobs used: the last two have the same concatenation of set and key.
var lkeys = [][2]string{{"s", "a"}, {"s", "b"}, {"x/y", "z"}, {"x", "y/z"}}

// lprog is a program of concurrent threads on a lazy saver. Every key has at most one writer.
type lprog struct {
	name          string
	limit, flush  int
	savers        int
	threads       [][]lop
	init          []int // keys stored before
	fault         int   // save attempt that fails (-1: none)
	earlyShutdown bool  // shut down while readers run
}

func parseLops(s string) (r []lop) {
	for _, f := range strings.Fields(s) {
		o := lop{kind: f[0]}
		if len(f) > 1 {
			o.k = int(f[1] - 'a')
		}
		r = append(r, o)
	}
	return
}

// slowStore makes the time a mutation of the store takes visible: other tasks may run
// before and after the effect.
type slowStore struct {
	*h.Store
	att  *int
	fail int
	log  []h.Op
}

func (s *slowStore) attempt(kind byte, set, key string, val []byte) error {
	n := *s.att
	*s.att++
	var err error
	if n == s.fail {
		err = h.ErrInjected
	}
	s.log = append(s.log, h.Op{Kind: kind, Set: set, Key: key, Val: append([]byte(nil), val...), Err: err})
	return err
}

func (s *slowStore) Set(ctx context.Context, set, key string, val []byte) error {
	vsched.Point("set begins")
	if err := s.attempt('S', set, key, val); err != nil {
		return err
	}
	err := s.Store.Set(ctx, set, key, val)
	vsched.Point("set ends")
	return err
}

func (s *slowStore) Delete(ctx context.Context, set, key string) error {
	vsched.Point("delete begins")
	if err := s.attempt('D', set, key, nil); err != nil {
		return err
	}
	err := s.Store.Delete(ctx, set, key)
	vsched.Point("delete ends")
	return err
}

// khist is the history of writes to one key. Entry 0 is the initial state.
type khist struct {
	vals    []string // "" is deleted
	started int      // index of the latest write started
	done    int      // index of the latest write that returned
}

func (p *lprog) body() (string, error) {
	ms := h.NewStore()
	ms.NoPoint = true
	att := 0
	st := &slowStore{Store: ms, att: &att, fail: p.fault}
	hist := make([]khist, len(lkeys))
	for k := range hist {
		hist[k].vals = []string{""}
	}
	for _, k := range p.init {
		v := fmt.Sprintf("init%d", k)
		hist[k].vals[0] = v
		_ = ms.Set(bg, lkeys[k][0], lkeys[k][1], []byte(v))
	}
	ls, err := blobstore.NewLazySaver(st, blobstore.WithLazySaveOption.Items(p.limit, p.flush), blobstore.WithLazySaveOption.Savers(p.savers),
		blobstore.WithLazySaveOption.MaxTime(10*time.Millisecond), blobstore.WithLazySaveOption.Logger(log.NullLogger()))
	if err != nil {
		return "", err
	}
	var fail error
	bad := func(f string, a ...any) {
		if fail == nil {
			fail = fmt.Errorf(f, a...)
		}
	}
	down := false
	var outcome strings.Builder
	var fns []func()
	for t, ops := range p.threads {
		t, ops := t, ops
		fns = append(fns, func() {
			seen := make([]int, len(lkeys)) // reads of one thread never go back
			buf := make([]byte, 0, 64)
			for i, o := range ops {
				kh := &hist[o.k]
				set, key := lkeys[o.k][0], lkeys[o.k][1]
				switch o.kind {
				case 'S':
					v := fmt.Sprintf("t%d.%d", t, i)
					kh.vals = append(kh.vals, v)
					kh.started = len(kh.vals) - 1
					n := kh.started
					buf = append(buf[:0], v...)
					if err := ls.Set(bg, set, key, buf); err != nil {
						bad("Set %s/%s returned %v", set, key, err)
					}
					copy(buf, "~~~~~~~~") // The buffer is ours again.
					kh.done = n
				case 'D':
					kh.vals = append(kh.vals, "")
					kh.started = len(kh.vals) - 1
					n := kh.started
					if err := ls.Delete(bg, set, key); err != nil {
						bad("Delete %s/%s returned %v", set, key, err)
					}
					kh.done = n
				case 'W':
					vsched.Quiesce(1)
				case 'G':
					lo := kh.done
					if seen[o.k] > lo {
						lo = seen[o.k]
					}
					b, err := ls.Get(bg, set, key)
					if p.earlyShutdown && errors.Is(err, blobstore.ErrShuttingDown) {
						if !down {
							bad("Get returned %v before the shutdown", err)
						}
						continue
					}
					if err != nil && !errors.Is(err, blobstore.ErrBlobNotFound) {
						bad("Get %s/%s returned %v", set, key, err)
						continue
					}
					v := string(b)
					for j := range b {
						b[j] = '!' // Ours as well.
					}
					fmt.Fprintf(&outcome, "%d%c%s ", t, 'a'+o.k, v)
					if p.fault >= 0 {
						// The write that failed may be lost; nothing else is promised here.
						lo = 0
					}
					at := -1
					for n := lo; n <= kh.started; n++ {
						if kh.vals[n] == v {
							at = n
							break
						}
					}
					if at < 0 {
						bad("thread %d: Get %s/%s returned %q; the writes so far are %q, number %d was the last to return before and %d the last one read by the thread, number %d the last one started",
							t, set, key, v, kh.vals, kh.done, seen[o.k], kh.started)
						continue
					}
					if p.fault < 0 {
						seen[o.k] = at
					}
				}
			}
		})
	}
	if p.earlyShutdown {
		// The first thread writes; the others read, also during the shutdown.
		n := 0
		for i, f := range fns {
			i, f := i, f
			vsched.GoNamed(fmt.Sprintf("T%d", i), func() {
				f()
				n |= 1 << i
			})
		}
		vsched.Block("writer", func() bool { return n&1 != 0 })
		down = true
		ls.Shutdown()
		vsched.Block("join", func() bool { return n == 1<<len(fns)-1 })
	} else {
		h.Par(fns...)
		ls.Shutdown()
	}
	if fail != nil {
		return "", fail
	}
	// Every key was saved in write order, ending with the last write.
	for k, kh := range hist {
		pos, saved, n := 0, 0, 0
		for _, o := range st.log {
			if o.Set != lkeys[k][0] || o.Key != lkeys[k][1] {
				continue
			}
			n++
			v := string(o.Val)
			at := -1
			for j := pos + 1; j < len(kh.vals); j++ {
				if kh.vals[j] == v {
					at = j
					break
				}
			}
			if at < 0 {
				return "", fmt.Errorf("%s/%s: the saves of the key (%s) are not in the order of the writes %q", lkeys[k][0], lkeys[k][1], saves(st.log), kh.vals[1:])
			}
			pos = at
			if o.Err == nil {
				saved = at
			}
		}
		if last := len(kh.vals) - 1; last > 0 && (n == 0 || kh.vals[pos] != kh.vals[last]) {
			return "", fmt.Errorf("%s/%s: after the shutdown, the last write %q was never saved: %s", lkeys[k][0], lkeys[k][1], kh.vals[last], saves(st.log))
		}
		got := string(ms.M[lkeys[k][0]][lkeys[k][1]])
		if got != kh.vals[saved] {
			return "", fmt.Errorf("%s/%s: after the shutdown the store has %q, want %q; saves: %s", lkeys[k][0], lkeys[k][1], got, kh.vals[saved], saves(st.log))
		}
	}
	for set, m := range ms.M {
		for key := range m {
			known := false
			for _, k := range lkeys {
				known = known || k[0] == set && k[1] == key
			}
			if !known {
				return "", fmt.Errorf("unexpected blob %s/%s in the store", set, key)
			}
		}
	}
	return outcome.String() + "|" + saves(st.log), nil
}

func saves(ops []h.Op) string {
	var r []string
	for _, o := range ops {
		s := fmt.Sprintf("%c %s/%s=%s", o.Kind, o.Set, o.Key, o.Val)
		if o.Err != nil {
			s += "(fails)"
		}
		r = append(r, s)
	}
	return strings.Join(r, ", ")
}

func (p *lprog) scenario(bound int, pols []int, timers bool) h.Scenario {
	name := fmt.Sprintf("%s items=%d/%d savers=%d fault=%d", p.name, p.limit, p.flush, p.savers, p.fault)
	return h.Scenario{Name: name, Body: p.body, Bound: bound, Policies: pols, TimerDevs: timers, Fair: 30, MaxSteps: 20000}
}

func progs14() []*lprog {
	var res []*lprog
	type cfg struct{ limit, flush, savers int }
	for _, p := range []struct {
		name, threads string
		init          []int
		cfgs          []cfg
		early         bool
		faults        int
	}{
		{"write-write-write, read-read", "Sa Sa Sa|Ga Ga", nil, []cfg{{1, 1, 1}, {1, 1, 2}, {2, 1, 2}, {3, 2, 2}}, false, 3},
		{"write-delete-write, read-read", "Sa Da Sa|Ga Ga", []int{0}, []cfg{{1, 1, 2}, {2, 1, 2}, {3, 1, 3}}, false, 3},
		{"delete, read", "Da Ga|Ga", []int{0}, []cfg{{1, 1, 1}, {2, 1, 2}}, false, 1},
		{"own writes", "Sa Ga Sa Ga Da Ga", []int{0}, []cfg{{1, 1, 2}, {2, 1, 2}}, false, 2},
		{"two keys", "Sa Sa|Sb Db|Ga Gb", []int{1}, []cfg{{1, 1, 1}, {2, 1, 2}, {3, 2, 2}}, false, 2},
		{"full queue", "Sa Sa|Sb Sb|Sc Gc", nil, []cfg{{1, 1, 1}, {2, 2, 1}, {2, 1, 2}}, false, 2},
		{"similar names", "Sc Gc|Sd Gd|Gc Gd", []int{2, 3}, []cfg{{2, 1, 1}, {3, 3, 2}}, false, 1},
		{"similar names, delete", "Sc Dc|Sd Gd", []int{2}, []cfg{{3, 3, 2}}, false, 1},
		{"shutdown while reading", "Sa Sb Da|Ga Gb Ga", []int{0}, []cfg{{1, 1, 1}, {3, 3, 2}}, true, 0},
		{"wait for the timer", "Sa W Sa W Ga|Gb Sb", nil, []cfg{{3, 3, 2}, {2, 1, 1}}, false, 1},
	} {
		for _, g := range p.cfgs {
			for f := -1; f < p.faults; f++ {
				lp := &lprog{name: p.name, limit: g.limit, flush: g.flush, savers: g.savers, init: p.init, fault: f, earlyShutdown: p.early}
				for _, t := range strings.Split(p.threads, "|") {
					lp.threads = append(lp.threads, parseLops(t))
				}
				res = append(res, lp)
			}
		}
	}
	return res
}

func c14(c *h.Ctx) {
	ps := progs14()
	b := h.Pick(c, 2, 3)
	c.Bound("programs", len(ps))
	c.Bound("complete", fmt.Sprintf("all schedules with at most %d deviations (task switches or early timers) from each of 3 base schedules", b))
	for _, p := range ps {
		bb := b
		if p.fault >= 0 {
			bb--
		}
		c.Explore(p.scenario(bb, []int{0, 1, 2}, true))
		if c.Stopped() || c.Expired() {
			return
		}
	}
	c.Bound("beyond", "one more deviation, as far as the time allows (see counters)")
	var deep []h.Scenario
	for _, p := range ps {
		bb := b + 1
		if p.fault >= 0 {
			bb--
		}
		s := p.scenario(bb, []int{1}, true)
		s.Extra = true
		deep = append(deep, s)
	}
	c.ExploreAll(deep)
}
