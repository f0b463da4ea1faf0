//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// cntCache counts lookups.
type cntCache struct {
	rankdb.Cache
	hits, misses uint64
}

func (c *cntCache) Get(key interface{}) (interface{}, bool) {
	v, ok := c.Cache.Get(key)
	if ok {
		c.hits++
	} else {
		c.misses++
	}
	return v, ok
}

// checkStats compares the statistics of the list with its content, and the reported cache
// lookups with the lookups the cache has seen.
func checkStats(in *inst) error {
	want := in.m.sorted()
	n := len(want)
	for _, elems := range []bool{false, true} {
		s, err := in.l.Stats(bg, in.st, elems)
		if err != nil {
			return fmt.Errorf("Stats: %v", err)
		}
		if s.Elements != n {
			return fmt.Errorf("Stats report %d elements, want %d", s.Elements, n)
		}
		// The sizes reported must be those of the segments stored.
		sc, _ := in.segSizes()
		if s.Segments != len(sc) {
			return fmt.Errorf("Stats report %d segments, %d are stored", s.Segments, len(sc))
		}
		if !elems || n == 0 {
			if s.Top != nil || s.Bottom != nil {
				return fmt.Errorf("Stats(%v) of a list of %d report elements", elems, n)
			}
			continue
		}
		if s.Top == nil || s.Bottom == nil {
			return fmt.Errorf("Stats miss the top or bottom element")
		}
		if !eqElem(s.Top.Element, want[0]) || s.Top.FromTop != 0 || s.Top.FromBottom != n-1 {
			return fmt.Errorf("Stats: top is %s (from top %d, from bottom %d), want %s (0, %d)", es(s.Top.Element), s.Top.FromTop, s.Top.FromBottom, es(want[0]), n-1)
		}
		if !eqElem(s.Bottom.Element, want[n-1]) || s.Bottom.FromTop != n-1 || s.Bottom.FromBottom != 0 {
			return fmt.Errorf("Stats: bottom is %s (from top %d, from bottom %d), want %s (%d, 0)", es(s.Bottom.Element), s.Bottom.FromTop, s.Bottom.FromBottom, es(want[n-1]), n-1)
		}
	}
	cc, _ := in.cache.(*cntCache)
	stats := func() (hits, misses uint64, err error) {
		s, err := in.l.Stats(bg, in.st, false)
		if err != nil {
			return 0, 0, err
		}
		hits, misses = s.CacheHits, s.CacheMisses
		pct := 0.0
		if hits+misses > 0 {
			pct = 100 * float64(hits) / float64(hits+misses)
		}
		if math.Abs(pct-s.CachePct) > 1e-6 {
			return 0, 0, fmt.Errorf("%d hits and %d misses are reported as %v%%", hits, misses, s.CachePct)
		}
		return hits, misses, nil
	}
	uses := []struct {
		name string
		do   func() error
	}{
		{"GetRankTop", func() error { _, err := in.l.GetRankTop(bg, in.st, 0, n+1); return err }},
		{"GetElements", func() error { _, err := in.l.GetElements(bg, in.st, ids8, 1); return err }},
		{"GetElements of absent elements", func() error {
			_, err := in.l.GetElements(bg, in.st, []rankdb.ElementID{1 << 40}, 0)
			return err
		}},
	}
	for _, u := range uses {
		h0, m0, err := stats()
		if err != nil {
			return err
		}
		var ch, cm uint64
		if cc != nil {
			ch, cm = cc.hits, cc.misses
		}
		if err := u.do(); err != nil && !errors.Is(err, rankdb.ErrOffsetOutOfBounds) {
			return fmt.Errorf("%s: %v", u.name, err)
		}
		h1, m1, err := stats()
		if err != nil {
			return err
		}
		if cc != nil {
			ch, cm = cc.hits-ch, cc.misses-cm
		}
		if h1-h0 != ch || m1-m0 != cm {
			return fmt.Errorf("%s: the reported cache hits went from %d to %d and misses from %d to %d, but the cache was asked for %d segments it had and %d it did not have",
				u.name, h0, h1, m0, m1, ch, cm)
		}
	}
	return nil
}

func c32(c *h.Ctx) {
	for _, w := range contentWorlds(c) {
		w.wrap = func(k rankdb.Cache) rankdb.Cache { return &cntCache{Cache: k} }
		w.check = func(in *inst, c *h.Ctx) error { return checkStats(in) }
		w.explore(c)
		if c.Stopped() {
			return
		}
	}
	lazyStats(c)
}

// lcall is one call on a lazy saver.
type lcall struct {
	kind byte // S, D, G, T (time passes), I (idle: whatever can be done now is done)
	k    int
	n    int // bytes
}

func (l lcall) String() string {
	switch l.kind {
	case 'S':
		return fmt.Sprintf("set %c %dB", 'a'+l.k, l.n)
	case 'D':
		return fmt.Sprintf("delete %c", 'a'+l.k)
	case 'G':
		return fmt.Sprintf("get %c", 'a'+l.k)
	case 'T':
		return "time passes"
	}
	return "idle"
}

// cntStore counts what reaches the storage.
type cntStore struct {
	*h.Store
	gets, sets, dels int
	getB, setB       int64
	fail             bool
}

func (s *cntStore) Get(ctx context.Context, set, key string) ([]byte, error) {
	b, err := s.Store.Get(ctx, set, key)
	s.gets++
	s.getB += int64(len(b))
	return b, err
}

func (s *cntStore) Set(ctx context.Context, set, key string, val []byte) error {
	s.sets++
	s.setB += int64(len(val))
	if s.fail {
		return h.ErrInjected
	}
	return s.Store.Set(ctx, set, key, val)
}

func (s *cntStore) Delete(ctx context.Context, set, key string) error {
	s.dels++
	if s.fail {
		return h.ErrInjected
	}
	return s.Store.Delete(ctx, set, key)
}

// lazyStats runs all sequences of calls on a lazy saver and compares its statistics with what
// was called and what reached the storage.
func lazyStats(c *h.Ctx) {
	calls := []lcall{{'S', 0, 3}, {'S', 0, 1500}, {'S', 1, 10}, {'S', 2, 0}, {'D', 0, 0}, {'D', 1, 0}, {'G', 0, 0}, {'G', 1, 0}, {'G', 3, 0}, {kind: 'T'}, {kind: 'I'}}
	depth := h.Pick(c, 4, 5)
	type cfg struct {
		items, flush, savers int
		fail                 bool
	}
	cfgs := []cfg{{10, 5, 1, false}, {10, 1, 2, false}, {2, 1, 1, false}, {10, 5, 1, true}}
	for _, g := range cfgs {
		seq := make([]lcall, 0, depth)
		var rec func() bool
		rec = func() bool {
			if len(seq) == depth {
				if !c.Mine() {
					return true
				}
				if c.Expired() {
					c.Bound("depth: write cache", "cut off (time)")
					return false
				}
				desc := func() string {
					return fmt.Sprintf("write cache of %d items, flushing above %d, %d savers, saves fail=%v: %v", g.items, g.flush, g.savers, g.fail, seq)
				}
				c.Begin(desc)
				var err error
				res := vsched.Run(vsched.Config{Fair: 30, MaxSteps: 200000}, func() { err = runLazyStats(g.items, g.flush, g.savers, g.fail, seq) })
				if res.Fail != nil {
					err = fmt.Errorf("%s: %s", res.Fail.Kind, res.Fail.Msg)
				}
				c.Trace(1)
				c.Trans(len(seq))
				if err != nil {
					c.Violate(desc(), desc(), "%s: %v", desc(), err)
					return !c.Stopped()
				}
				return true
			}
			for _, l := range calls {
				seq = append(seq, l)
				ok := rec()
				seq = seq[:len(seq)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		if !rec() {
			return
		}
	}
	c.Bound("depth: write cache", depth)
}

func runLazyStats(items, flush, savers int, fail bool, seq []lcall) error {
	st := &cntStore{Store: h.NewStore(), fail: fail}
	_ = st.Store.Set(bg, "s", "d", []byte("stored before"))
	ls, err := blobstore.NewLazySaver(st, blobstore.WithLazySaveOption.Items(items, flush), blobstore.WithLazySaveOption.Savers(savers),
		blobstore.WithLazySaveOption.MaxTime(10*time.Millisecond), blobstore.WithLazySaveOption.SaveTimeout(time.Minute),
		blobstore.WithLazySaveOption.Logger(log.NullLogger()))
	if err != nil {
		return err
	}
	var gets, sets, dels int
	var getB, setB int64
	// check compares; when idle, nothing is being saved.
	check := func(at string) error {
		s := ls.Stats()
		if s.Options.MaxItems != items || s.Options.FlushItems != flush || s.Options.Savers != savers || s.Options.MaxTime != 10*time.Millisecond || s.Options.SaveTimeout != time.Minute {
			return fmt.Errorf("%s: statistics report the options %+v", at, s.Options)
		}
		var bad []string
		cmp := func(name string, got, want int64) {
			if got != want {
				bad = append(bad, fmt.Sprintf("%s is %d, want %d", name, got, want))
			}
		}
		cmp("gets", int64(s.Gets), int64(gets))
		cmp("sets", int64(s.Sets), int64(sets))
		cmp("deletes", int64(s.Deletes), int64(dels))
		cmp("get_bytes", s.GetBytes, getB)
		cmp("set_bytes", s.SetBytes, setB)
		cmp("loaded_bytes", s.LoadedBytes, getB)
		cmp("out_gets", int64(s.OutGets), int64(st.gets))
		cmp("out_sets", int64(s.OutSets), int64(st.sets))
		cmp("out_deletes", int64(s.OutDeletes), int64(st.dels))
		cmp("out_get_bytes", s.OutGetBytes, st.getB)
		cmp("out_set_bytes", s.OutSetBytes, st.setB)
		cmp("saved_bytes", s.SavedBytes, getB-st.getB+setB-st.setB-s.ItemBytes)
		if s.ItemQueue > items {
			bad = append(bad, fmt.Sprintf("%d items are queued, the limit is %d", s.ItemQueue, items))
		}
		if len(bad) > 0 {
			return fmt.Errorf("%s: %s", at, strings.Join(bad, ", "))
		}
		return nil
	}
	// queued are the versions not handed to the storage yet.
	queued := map[string]int{}
	for i, l := range seq {
		key := string(rune('a' + l.k))
		at := fmt.Sprintf("after call %d (%s)", i+1, l)
		switch l.kind {
		case 'S':
			sets++
			setB += int64(l.n)
			queued[key] = l.n
			if err := ls.Set(bg, "s", key, make([]byte, l.n)); err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
		case 'D':
			dels++
			queued[key] = 0
			if err := ls.Delete(bg, "s", key); err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
		case 'G':
			b, err := ls.Get(bg, "s", key)
			if err != nil && !errors.Is(err, blobstore.ErrBlobNotFound) {
				return fmt.Errorf("%s: %v", at, err)
			}
			gets++
			getB += int64(len(b))
		case 'T':
			vsched.Quiesce(1 << 20)
			queued = map[string]int{}
			if s := ls.Stats(); s.ItemQueue != 0 || s.ItemBytes != 0 {
				return fmt.Errorf("%s: statistics report %d items of %d bytes in the queue, but everything was saved", at, s.ItemQueue, s.ItemBytes)
			}
		case 'I':
			vsched.Quiesce(0)
		}
		vsched.Quiesce(0)
		if err := check(at); err != nil {
			return err
		}
		s := ls.Stats()
		if flush >= len(seq) {
			// Nothing is saved before time passes.
			var b int64
			for _, n := range queued {
				b += int64(n)
			}
			if s.ItemQueue != len(queued) || s.ItemBytes != b {
				return fmt.Errorf("%s: statistics report %d items of %d bytes in the queue, want %d of %d bytes", at, s.ItemQueue, s.ItemBytes, len(queued), b)
			}
		} else if s.ItemQueue > flush {
			return fmt.Errorf("%s: %d items stay in the queue, which is flushed above %d", at, s.ItemQueue, flush)
		}
	}
	ls.Shutdown()
	if err := check("after shutdown"); err != nil {
		return err
	}
	if s := ls.Stats(); s.ItemQueue != 0 || s.ItemBytes != 0 {
		return fmt.Errorf("after shutdown: statistics report %d items of %d bytes in the queue", s.ItemQueue, s.ItemBytes)
	}
	return nil
}
