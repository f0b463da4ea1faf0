//go:build go1.21

package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
)

// wantRanked computes the expected ranked element at index i.
func wantRanked(s []rankdb.Element, i, radius int) rankdb.RankedElement {
	r := rankdb.RankedElement{Element: s[i], FromTop: i, FromBottom: len(s) - i - 1}
	for k := 1; k <= radius && i-k >= 0; k++ {
		r.Above = append(r.Above, s[i-k])
	}
	for k := 1; k <= radius && i+k < len(s); k++ {
		r.Below = append(r.Below, s[i+k])
	}
	return r
}

func sameRanked(g, w rankdb.RankedElement) error {
	if !eqElem(g.Element, w.Element) {
		return fmt.Errorf("got element %s, want %s", es(g.Element), es(w.Element))
	}
	if g.FromTop != w.FromTop || g.FromBottom != w.FromBottom {
		return fmt.Errorf("element %d: got rank top=%d bottom=%d, want top=%d bottom=%d", g.ID, g.FromTop, g.FromBottom, w.FromTop, w.FromBottom)
	}
	if err := sameElems(g.Above, w.Above); err != nil {
		return fmt.Errorf("element %d: neighbours above: %v", g.ID, err)
	}
	if err := sameElems(g.Below, w.Below); err != nil {
		return fmt.Errorf("element %d: neighbours below: %v", g.ID, err)
	}
	return nil
}

func index(s []rankdb.Element) map[rankdb.ElementID]int {
	m := make(map[rankdb.ElementID]int, len(s))
	for i, e := range s {
		m[e.ID] = i
	}
	return m
}

// checkLookup looks up ids with the radius and compares everything.
func checkLookup(in *inst, s []rankdb.Element, idx map[rankdb.ElementID]int, ids []rankdb.ElementID, radius int) error {
	got, err := in.l.GetElements(bg, in.st, append([]rankdb.ElementID{}, ids...), radius)
	if err != nil {
		return fmt.Errorf("GetElements(%v, radius %d): %v", ids, radius, err)
	}
	want := map[int]bool{}
	for _, id := range ids {
		if i, ok := idx[id]; ok {
			want[i] = true
		}
	}
	var wi []int
	for i := range want {
		wi = append(wi, i)
	}
	sort.Ints(wi)
	if len(got) != len(wi) {
		return fmt.Errorf("GetElements(%v, radius %d): got %v, want elements at ranks %v of %s", ids, radius, got.IDs(), wi, ess(s))
	}
	for k, i := range wi {
		if err := sameRanked(got[k], wantRanked(s, i, radius)); err != nil {
			return fmt.Errorf("GetElements(%v, radius %d) result %d: %v; list %s", ids, radius, k, err, ess(s))
		}
	}
	return nil
}

func checkRanks(in *inst, c *h.Ctx) error {
	s := in.m.sorted()
	idx := index(s)
	all := append([]rankdb.ElementID{}, ids8...)
	dup := append(append([]rankdb.ElementID{}, 3, 1, 1, 99), all...)
	// absent ids around the present ones
	for _, r := range []int{0, 1, 2, len(s), len(s) + 2} {
		if err := checkLookup(in, s, idx, dup, r); err != nil {
			return err
		}
	}
	for _, id := range all {
		for _, r := range []int{0, 1, 3} {
			if err := checkLookup(in, s, idx, []rankdb.ElementID{id}, r); err != nil {
				return err
			}
		}
	}
	for i := 0; i < len(all); i++ {
		for j := 0; j < len(all); j++ {
			if i != j {
				if err := checkLookup(in, s, idx, []rankdb.ElementID{all[i], all[j]}, 1); err != nil {
					return err
				}
			}
		}
	}
	c.Count("lookups", 5+3*len(all)+len(all)*(len(all)-1))
	return checkLookup(in, s, idx, nil, 1)
}

func checkWindows(in *inst, c *h.Ctx) error {
	s := in.m.sorted()
	n := len(s)
	for off := 0; off <= n+2; off++ {
		for _, cnt := range []int{0, 1, 2, 3, 4, n, n + 5} {
			got, err := in.l.GetRankTop(bg, in.st, off, cnt)
			if off >= n {
				if err != rankdb.ErrOffsetOutOfBounds {
					return fmt.Errorf("GetRankTop(%d,%d) on %d elements: err=%v, want out of bounds", off, cnt, n, err)
				}
			} else {
				if err != nil {
					return fmt.Errorf("GetRankTop(%d,%d): %v", off, cnt, err)
				}
				end := off + cnt
				if end > n {
					end = n
				}
				if err := sameElems(got, s[off:end]); err != nil {
					return fmt.Errorf("GetRankTop(%d,%d): %v", off, cnt, err)
				}
			}
			got, err = in.l.GetRankBottom(bg, in.st, off, cnt)
			if off >= n {
				if err != rankdb.ErrOffsetOutOfBounds {
					return fmt.Errorf("GetRankBottom(%d,%d) on %d elements: err=%v, want out of bounds", off, cnt, n, err)
				}
			} else {
				if err != nil {
					return fmt.Errorf("GetRankBottom(%d,%d): %v", off, cnt, err)
				}
				start := n - off - 1
				end := start + cnt
				if end > n {
					end = n
				}
				if err := sameElems(got, s[start:end]); err != nil {
					return fmt.Errorf("GetRankBottom(%d,%d): %v", off, cnt, err)
				}
			}
		}
	}
	c.Count("windows", (n+3)*7*2)
	return nil
}

func checkScores(in *inst, c *h.Ctx) error {
	s := in.m.sorted()
	scores := map[uint64]bool{0: true, math.MaxUint64: true, 1: true, math.MaxUint64 - 1: true}
	for _, e := range s {
		scores[e.Score] = true
		scores[e.Score-1] = true
		scores[e.Score+1] = true
	}
	for sc := range scores {
		first := sort.Search(len(s), func(i int) bool { return s[i].Score <= sc })
		for _, cnt := range []int{0, 1, 2, 3, len(s), len(s) + 3} {
			got, err := in.l.GetRankScoreDesc(bg, in.st, sc, cnt)
			if err != nil {
				return fmt.Errorf("GetRankScoreDesc(%d,%d): %v", sc, cnt, err)
			}
			end := first + cnt
			if end > len(s) {
				end = len(s)
			}
			if len(got) != end-first {
				return fmt.Errorf("GetRankScoreDesc(%d,%d): got %s, want %s", sc, cnt, ess(got.Elements()), ess(s[first:end]))
			}
			for i := range got {
				if err := sameRanked(got[i], wantRanked(s, first+i, 0)); err != nil {
					return fmt.Errorf("GetRankScoreDesc(%d,%d) result %d: %v; list %s", sc, cnt, i, err, ess(s))
				}
			}
		}
	}
	c.Count("score_queries", len(scores)*6)
	return nil
}

func checkPercentiles(in *inst, c *h.Ctx) error {
	s := in.m.sorted()
	n := len(s)
	ps := []float64{0, 1, -1, 2, math.Inf(1), math.Inf(-1), 0.5, 0.25, 0.1, 0.9, 0.99, math.SmallestNonzeroFloat64, math.Nextafter(1, 0)}
	for i := 0; i <= n; i++ {
		p := float64(i) / float64(n)
		if n == 0 {
			continue
		}
		ps = append(ps, p, math.Nextafter(p, 0), math.Nextafter(p, 2), p+0.5/float64(n))
	}
	for k, p := range ps {
		radius := []int{0, 1, 2, n + 1}[k%4]
		got, err := in.l.GetPercentile(bg, in.st, p, radius)
		if n == 0 {
			if err == nil && got != nil {
				return fmt.Errorf("GetPercentile(%v) on empty list: got %v", p, got)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("GetPercentile(%v,%d): %v", p, radius, err)
		}
		q := math.Min(1, math.Max(0, p))
		rat := new(big.Rat).SetFloat64(q)
		rat.Mul(rat, big.NewRat(int64(n), 1))
		want := int(new(big.Int).Quo(rat.Num(), rat.Denom()).Int64())
		if want >= n {
			want = n - 1
		}
		if err := sameRanked(*got, wantRanked(s, want, radius)); err != nil {
			return fmt.Errorf("GetPercentile(%v,%d) of %d elements: %v; list %s", p, radius, n, err, ess(s))
		}
	}
	c.Count("percentile_queries", len(ps))
	return nil
}

// readWorlds: like the content worlds, with a focus on segment layouts.
func readWorlds(c *h.Ctx, depth int, check func(in *inst, c *h.Ctx) error) {
	for i, w := range contentWorlds(c) {
		w.depth = depth
		if i > 0 {
			w.depth--
		}
		w.check = check
		w.lazy = true
		w.explore(c)
		if c.Stopped() {
			return
		}
	}
}

func readCheck(quick, thorough int, check func(in *inst, c *h.Ctx) error) h.Spec {
	return h.Spec{Rule: "all operation sequences up to the depth; every distinct state (ranked content + segment ranges) is queried over the full parameter grid",
		Budget: 60 * time.Second, Run: func(c *h.Ctx) { readWorlds(c, h.Pick(c, quick, thorough), check) }}
}

// c06: update results.
func c06(c *h.Ctx) {
	type batch = []rankdb.Element
	radii := []int{0, 1, 3}
	mkop := func(r int, e ...rankdb.Element) op {
		o := opUpdate(e...)
		o.name = fmt.Sprintf("%s+results(radius %d)", o.name, r)
		o.do = func(in *inst) error {
			before := in.m.sorted()
			bidx := index(before)
			got, err := in.l.UpdateElements(bg, in.st, cloneElems(e), r, true)
			if err != nil {
				return err
			}
			in.m.put(cloneElems(e)...)
			after := in.m.sorted()
			aidx := index(after)
			var want []int
			for _, x := range e {
				want = append(want, aidx[x.ID])
			}
			sort.Ints(want)
			if len(got) != len(want) {
				return fmt.Errorf("%d results %v, want %d", len(got), got.IDs(), len(want))
			}
			for k, i := range want {
				w := wantRanked(after, i, r)
				if err := sameRanked(got[k], w); err != nil {
					return fmt.Errorf("result %d: %v; list after %s", k, err, ess(after))
				}
				bi, existed := bidx[w.ID]
				b := got[k].Before
				if existed != (b != nil) {
					return fmt.Errorf("element %d existed before: %v, but previous rank reported: %v", w.ID, existed, b != nil)
				}
				if existed {
					wb := wantRanked(before, bi, 0)
					if !eqElem(b.Element, wb.Element) {
						return fmt.Errorf("element %d: previous value reported %s, was %s", w.ID, es(b.Element), es(wb.Element))
					}
					if b.FromTop != wb.FromTop || b.FromBottom != wb.FromBottom {
						return fmt.Errorf("element %d: previous rank reported top=%d bottom=%d, was top=%d bottom=%d; list before %s", w.ID, b.FromTop, b.FromBottom, wb.FromTop, wb.FromBottom, ess(before))
					}
				}
			}
			return nil
		}
		return o
	}
	for i, w := range contentWorlds(c) {
		if w.name == "T" || w.name == "big" {
			for k := range w.ops {
				if u := w.ops[k].upd; u != nil {
					w.ops[k] = mkop(radii[k%3], u...)
				}
			}
			w.explore(c)
			if c.Stopped() {
				return
			}
			continue
		}
		var ops []op
		for k, b := range []batch{
			{el(1, 10, 0, 2)}, {el(1, 40, 0, 2)}, {el(2, math.MaxUint64, 0, 2)}, {el(3, 0, 0, 2)}, {el(4, 40, 1, 1)},
			{el(7, 40, 0, 1)}, {el(1, 50, 0, 3), el(6, 50, 0, 3), el(7, 5, 0, 3)}, {el(5, 60, 0, 1), el(2, 20, math.MaxUint32, 4)},
			{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)},
			{el(6, 60, 0, 1), el(5, 50, 0, 1), el(4, 40, 1, 1), el(3, 40, 0, 1), el(2, 20, 0, 1), el(1, 10, 0, 1)},
		} {
			ops = append(ops, mkop(radii[k%3], b...))
		}
		ops = append(ops, opInsert(el(0, 40, 0, 2)), opInsert(el(math.MaxUint64, 55, 0, 2), el(0, 15, 0, 2)), opDelete(1), opDelete(3, 4), opDelete(2, 5, 6, 7), opSplit, opReload)
		w.ops = ops
		w.depth = h.Pick(c, 4, 6)
		if i > 0 {
			w.depth--
		}
		w.explore(c)
		if c.Stopped() {
			return
		}
	}
}
