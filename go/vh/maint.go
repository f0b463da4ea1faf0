//go:build go1.21

package main

import (
	"fmt"
	"math"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/zz_verif/h"
)

// checkHealthy verifies content, consistency and that no lock is held.
func checkHealthy(in *inst) error {
	if err := in.l.Verify(bg, in.st); err != nil {
		return fmt.Errorf("Verify: %v", err)
	}
	if err := in.l.VerifyElements(bg, in.st); err != nil {
		return fmt.Errorf("VerifyElements: %v", err)
	}
	if err := checkContent(in); err != nil {
		return err
	}
	if err := checkByID(in, ids8); err != nil {
		return err
	}
	return checkStored(in)
}

// checkStored independently verifies the stored segments: contiguous ranges covering
// everything, counts, parents, elements in range and order, index pointing at the right segment.
func checkStored(in *inst) error {
	if in.l.Scores.Unset() || in.l.Index.Unset() {
		return fmt.Errorf("segment ids not set on list")
	}
	ws := blobstore.StoreWithSet(in.st, in.l.Set)
	sc, err := in.l.Scores.Load(bg, ws, nil)
	if err != nil {
		return fmt.Errorf("stored scores: %v", err)
	}
	ix, err := in.l.Index.Load(bg, ws, nil)
	if err != nil {
		return fmt.Errorf("stored index: %v", err)
	}
	if sc.IsIndex || !ix.IsIndex {
		return fmt.Errorf("index flag: scores %v index %v", sc.IsIndex, ix.IsIndex)
	}
	for _, s := range []*rankdb.Segments{sc, ix} {
		total := 0
		seen := map[rankdb.SegmentID]bool{}
		for i := range s.Segments {
			g := &s.Segments[i]
			if seen[g.ID] {
				return fmt.Errorf("segment id %d used twice", g.ID)
			}
			seen[g.ID] = true
			total += g.N
			if g.Parent != s.ID {
				return fmt.Errorf("segment parent %q, want %q", g.Parent, s.ID)
			}
			if i == 0 && g.Max != math.MaxUint64 {
				return fmt.Errorf("first segment does not start at the maximum: %v", g.Max)
			}
			if i == len(s.Segments)-1 && g.Min != 0 {
				return fmt.Errorf("last segment does not end at 0: %v", g.Min)
			}
		}
		if total != len(in.m.m) {
			return fmt.Errorf("stored segments (index=%v) hold %d elements, want %d", s.IsIndex, total, len(in.m.m))
		}
	}
	return nil
}

func maintWorlds(c *h.Ctx) []*world {
	six := []rankdb.Element{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)}
	tied := []rankdb.Element{el(1, 40, 2, 1), el(2, 40, 2, 2), el(3, 40, 2, 3), el(4, 40, 1, 1), el(5, 40, 1, 1), el(6, 40, 0, 1), el(7, 40, 0, 2)}
	ops := []op{
		opSplit, opReindex, opRelease, opRepair, opReload,
		opUpdate(el(1, 10, 0, 2)),
		opUpdate(el(2, math.MaxUint64, 0, 2), el(6, 45, 0, 2)),
		opUpdate(el(3, 40, 0, 2), el(4, 0, 0, 2)),
		opUpdate(el(1, 40, 1, 3), el(6, 40, 1, 3), el(7, 40, 1, 3)),
		opInsert(el(0, 40, 0, 2)),
		opInsert(el(math.MaxUint64, 55, 0, 2), el(7, 15, 0, 2)),
		opDelete(1, 2),
		opDelete(3, 4, 5),
		opDelete(0, 6, 7, math.MaxUint64),
		{name: "stats", do: func(in *inst) error {
			s, err := in.l.Stats(bg, in.st, false)
			if err != nil {
				return err
			}
			if s.Elements != len(in.m.m) {
				return fmt.Errorf("stats report %d elements, want %d", s.Elements, len(in.m.m))
			}
			return nil
		}},
		{name: "stats(elements)", do: func(in *inst) error {
			s, err := in.l.Stats(bg, in.st, true)
			if err != nil {
				return err
			}
			w := in.m.sorted()
			if len(w) == 0 {
				if s.Top != nil || s.Bottom != nil {
					return fmt.Errorf("stats of empty list report elements")
				}
				return nil
			}
			if s.Top == nil || s.Bottom == nil {
				return fmt.Errorf("stats miss top or bottom element")
			}
			if err := sameRanked(*s.Top, wantRanked(w, 0, 0)); err != nil {
				return fmt.Errorf("stats top: %v", err)
			}
			if err := sameRanked(*s.Bottom, wantRanked(w, len(w)-1, 0)); err != nil {
				return fmt.Errorf("stats bottom: %v", err)
			}
			return nil
		}},
		{name: "prune", do: func(in *inst) error { return in.mgr.Lists.Prune(bg) }},
		{name: "split until stable", do: func(in *inst) error {
			for i := 0; i < 20; i++ {
				if err := in.l.ForceSplit(bg, in.st); err != nil {
					return err
				}
			}
			return checkSizes(in)
		}},
	}
	mk := func(name string, merge, split, cache, pol, depth int, noload bool) *world {
		return &world{name: name, merge: merge, split: split, cache: cache, pol: pol, depth: depth, ops: ops, noLoadIdx: noload,
			init: []op{initNew(), initNew(six...), initBuilt("new+insert6+split", initNew(), opInsert(six...), opSplit),
				initNew(tied...), initBuilt("new+insert tied+split", initNew(), opInsert(tied...), opSplit)}}
	}
	d := h.Pick(c, 4, 6)
	return []*world{
		mk("A", 2, 4, -1, 0, d, true),
		mk("B", 1, 4, 0, 1, d-1, false),
		mk("C", 4, 5, 2, 3, d-1, true),
		mk("D", 7, 8, -1, 2, d-1, true),
	}
}

// checkSizes: repeated maintenance must bring segments within the split size unless
// tied elements prevent it.
func checkSizes(in *inst) error {
	ws := blobstore.StoreWithSet(in.st, in.l.Set)
	sc, err := in.l.Scores.Load(bg, ws, nil)
	if err != nil {
		return err
	}
	s := in.m.sorted()
	off := 0
	for i := range sc.Segments {
		n := sc.Segments[i].N
		if n > in.split && off+n <= len(s) {
			tied := false
			for k := off + 1; k < off+n; k++ {
				tied = tied || s[k].Score == s[k-1].Score && s[k].TieBreaker == s[k-1].TieBreaker
			}
			if !tied {
				return fmt.Errorf("score segment %d holds %d elements after repeated splitting, split size %d, elements %s", i, n, in.split, ess(s[off:off+n]))
			}
		}
		off += n
	}
	ix, err := in.l.Index.Load(bg, ws, nil)
	if err != nil {
		return err
	}
	for i := range ix.Segments {
		if n := ix.Segments[i].N; n > in.split {
			return fmt.Errorf("index segment %d holds %d elements after repeated splitting, split size %d", i, n, in.split)
		}
	}
	return nil
}

func c07(c *h.Ctx) {
	for _, w := range maintWorlds(c) {
		w.check = func(in *inst, c *h.Ctx) error {
			if err := checkHealthy(in); err != nil {
				return err
			}
			return in.l.VerifyUnlocked(bg, time.Minute)
		}
		w.explore(c)
		if c.Stopped() {
			return
		}
	}
}
