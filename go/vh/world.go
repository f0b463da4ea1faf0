//go:build go1.21

package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
	"github.com/Vivino/rankdb/zz_verif/h"
)

var bg = log.WithLogger(context.Background(), log.NullLogger())

const lset = "set1"

// inst is a live list together with the reference model.
type inst struct {
	st    *h.Store
	cache rankdb.Cache
	l     *rankdb.List
	mgr   *rankdb.Manager
	m     *model
	merge int
	split int
	hist  []string
	aux   map[string]any
	loadI bool
	// sub is a second list in the same store (a clone or copy). gone lists are deleted.
	sub  *inst
	gone bool
	// dir is the model of the stored directory (C08).
	dir *dirState
	// bk is a backup made (C09).
	bk *bkup
}

func (in *inst) opts(more ...rankdb.ListOption) []rankdb.ListOption {
	o := []rankdb.ListOption{rankdb.WithListOption.MergeSplitSize(in.merge, in.split), rankdb.WithListOption.LoadIndex(in.loadI)}
	if in.cache != nil {
		o = append(o, rankdb.WithListOption.Cache(in.cache))
	}
	return append(o, more...)
}

// op is one operation on an inst, applied to the list and to the model.
type op struct {
	name string
	ok   func(in *inst) bool
	do   func(in *inst) error
	// upd are the elements of an update.
	upd []rankdb.Element
}

// world is a closed space of operation sequences.
type world struct {
	// note is what the check is doing.
	note         string
	name         string
	merge, split int
	cache        int // -1 none, 0 unbounded, n bounded
	noLoadIdx    bool
	init         []op
	ops          []op
	depth        int
	check        func(in *inst, c *h.Ctx) error
	pol          int
	maxSteps     int
	// minOwn: levels explored by all workers before the frontier is distributed.
	shared int
	// wrap replaces the cache.
	wrap func(rankdb.Cache) rankdb.Cache
	// lazy: only check states not seen before.
	lazy bool
	// stateful
	visited map[uint64]bool
}

func (w *world) fresh() *inst {
	in := &inst{st: h.NewStore(), m: newModel(), merge: w.merge, split: w.split, loadI: !w.noLoadIdx, aux: map[string]any{}}
	if w.cache >= 0 {
		in.cache = h.NewCache(w.cache)
		if w.wrap != nil {
			in.cache = w.wrap(in.cache)
		}
	}
	return in
}

// canon is the canonical form of the list state: ranked elements and the ranges and
// sizes of the score and index segments, independent of generated ids.
func (in *inst) canon() (uint64, error) {
	hash, err := in.canonOne()
	if err != nil || in.sub == nil {
		return hash, err
	}
	sub, err := in.sub.canon()
	return h.Hash(fmt.Sprint(hash, sub, in.sub.merge, in.sub.split, in.sub.l.Set)), err
}

func (in *inst) canonOne() (uint64, error) {
	if in.gone {
		return 1, nil
	}
	f := fnv.New64a()
	var b [8]byte
	w := func(v uint64) { binary.LittleEndian.PutUint64(b[:], v); f.Write(b[:]) }
	st := blobstore.StoreWithSet(in.st, in.l.Set)
	for _, id := range []rankdb.SegmentsID{in.l.Scores, in.l.Index} {
		s, err := id.Load(bg, st, nil)
		if err != nil {
			return 0, fmt.Errorf("loading stored segments %q: %v", id, err)
		}
		w(uint64(len(s.Segments)))
		for i := range s.Segments {
			g := &s.Segments[i]
			w(g.Min)
			w(g.Max)
			w(uint64(g.MinTie))
			if !s.IsIndex {
				w(uint64(g.MaxTie))
			}
			w(uint64(g.N))
			w(uint64(g.ID))
		}
		w(uint64(s.NextID))
	}
	for _, e := range in.m.sorted() {
		w(uint64(e.ID))
		w(e.Score)
		w(uint64(e.TieBreaker))
		w(uint64(e.Updated))
		w(h.Hash(string(e.Payload)))
	}
	for _, k := range h.SortedKeys(in.aux) {
		f.Write([]byte(fmt.Sprint(k, "=", in.aux[k])))
	}
	return f.Sum64(), nil
}

// segments returns the sizes of stored score and index segments.
func (in *inst) segSizes() (s, i []int) {
	st := blobstore.StoreWithSet(in.st, in.l.Set)
	get := func(id rankdb.SegmentsID) (r []int) {
		g, err := id.Load(bg, st, nil)
		if err != nil {
			return nil
		}
		for i := range g.Segments {
			r = append(r, g.Segments[i].N)
		}
		return r
	}
	return get(in.l.Scores), get(in.l.Index)
}

type wnode struct {
	init int
	ops  []int16
}

func (w *world) desc(n wnode) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "world %s (merge=%d split=%d cache=%d policy=%d): %s", w.name, w.merge, w.split, w.cache, w.pol, w.init[n.init].name)
	for _, o := range n.ops {
		sb.WriteString("; ")
		sb.WriteString(w.ops[o].name)
	}
	return sb.String()
}

// run replays the node in one deterministic execution; last op is checked.
// applicable is false if the last op was not applicable.
func (w *world) run(c *h.Ctx, n wnode) (hash uint64, applicable bool, err error) {
	c.Begin(func() string { return w.desc(n) })
	err = h.Seq(w.pol, func() error {
		in := w.fresh()
		if err := w.init[n.init].do(in); err != nil {
			return fmt.Errorf("%s: %v", w.init[n.init].name, err)
		}
		for i, o := range n.ops {
			op := &w.ops[o]
			if i == len(n.ops)-1 && op.ok != nil && !op.ok(in) {
				return nil
			}
			if err := op.do(in); err != nil {
				return fmt.Errorf("%s: %v", op.name, err)
			}
		}
		applicable = true
		if w.lazy {
			var err error
			hash, err = in.canon()
			if err != nil {
				return err
			}
			if w.visited[hash] {
				return nil
			}
			return w.check(in, c)
		}
		if w.check != nil {
			if err := w.check(in, c); err != nil {
				return err
			}
		}
		var err error
		hash, err = in.canon()
		return err
	})
	if err != nil && w.note != "" {
		err = fmt.Errorf("%s: %v", w.note, err)
	}
	w.note = ""
	return
}

// explore enumerates all operation sequences up to the depth, merging equal states.
func (w *world) explore(c *h.Ctx) {
	visited := map[uint64]bool{}
	w.visited = visited
	var frontier []wnode
	report := func(n wnode, err error) {
		d := w.desc(n)
		c.Violate(d, d, "%s: %v", d, err)
	}
	own := func(hash uint64) bool { return int(hash%uint64(c.NShards)) == c.Shard }
	for i := range w.init {
		n := wnode{init: i}
		hash, _, err := w.run(c, n)
		c.Trace(1)
		if err != nil {
			report(n, err)
			if c.Stopped() {
				return
			}
			continue
		}
		if !visited[hash] {
			visited[hash] = true
			c.StateHash(hash ^ h.Hash(w.name))
			frontier = append(frontier, n)
		}
	}
	shared := w.shared
	if shared == 0 {
		shared = 1
	}
	done := 0
	for d := 1; d <= w.depth && len(frontier) > 0; d++ {
		var next []wnode
		for fi, n := range frontier {
			for o := range w.ops {
				if c.Expired() {
					c.Bound("depth:"+w.name, fmt.Sprintf("%d complete of %d (time)", done, w.depth))
					return
				}
				nn := wnode{init: n.init, ops: append(append(make([]int16, 0, len(n.ops)+1), n.ops...), int16(o))}
				// Distribute work: beyond the shared levels each (node, op) belongs to one worker.
				if d == shared+1 && int(h.Hash(fmt.Sprint(fi, o))%uint64(c.NShards)) != c.Shard {
					continue
				}
				hash, app, err := w.run(c, nn)
				if err != nil {
					report(nn, err)
					if c.Stopped() {
						return
					}
					continue
				}
				if !app {
					continue
				}
				c.Trace(1)
				c.Trans(1)
				if visited[hash] {
					continue
				}
				visited[hash] = true
				if d > shared || own(hash) {
					c.StateHash(hash ^ h.Hash(w.name))
				}
				if c.WantSample() && d == w.depth {
					c.Sample(w.desc(nn))
				}
				next = append(next, nn)
			}
		}
		frontier = next
		done = d
	}
	c.Bound("depth:"+w.name, w.depth)
}
