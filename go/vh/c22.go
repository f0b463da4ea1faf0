//go:build go1.21

package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

func hasDup(in []rankdb.Element) bool {
	e := rankdb.Elements(in)
	return e.HasDuplicates() != nil
}

// uni is the element universe: all combinations of a small domain, rank order.
func uni(ids, scores, ties, upds int) []rankdb.Element {
	var u []rankdb.Element
	for s := 0; s < scores; s++ {
		for t := 0; t < ties; t++ {
			for d := 1; d <= upds; d++ {
				for id := 1; id <= ids; id++ {
					u = append(u, el(uint64(id), uint64(s), uint32(t), uint32(d)))
				}
			}
		}
	}
	sort.Slice(u, func(i, j int) bool { return above(u[i], u[j]) })
	return u
}

// withCap copies e into a slice with spare capacity; the spare part holds sentinels.
func withCap(e []rankdb.Element, spare int) rankdb.Elements {
	b := make(rankdb.Elements, len(e), len(e)+spare)
	copy(b, e)
	x := b[:cap(b)]
	for i := len(e); i < len(x); i++ {
		x[i] = el(uint64(1000+i), 77, 7, 7)
	}
	return b
}

func insertSorted(l []rankdb.Element, e rankdb.Element) []rankdb.Element {
	r := append(append([]rankdb.Element{}, l...), e)
	sort.SliceStable(r, func(i, j int) bool { return above(r[i], r[j]) })
	return r
}

type c22ctx struct {
	c *h.Ctx
	n int
}

// do runs one case; cases are distributed over the workers.
func (x *c22ctx) do(name func() string, f func() error) bool {
	x.n++
	if x.n%x.c.NShards != x.c.Shard {
		return true
	}
	if x.n&0x3ff == x.c.Shard && x.c.Expired() {
		return false
	}
	x.c.Trace(1)
	x.c.States(1)
	x.c.Trans(1)
	x.c.Begin(name)
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		err = f()
	}()
	if err != nil {
		n := name()
		x.c.Violate(strings.SplitN(n, " ", 2)[0]+" "+n, n, "%s: %v", n, err)
		return !x.c.Stopped()
	}
	return true
}

func c22(c *h.Ctx) {
	if err := h.Seq(0, func() error { c22body(c); return nil }); err != nil {
		c.Errorf("%v", err)
	}
}

func c22body(c *h.Ctx) {
	x := &c22ctx{c: c}
	parts := []struct {
		name string
		f    func(x *c22ctx)
	}{
		{"order", c22order}, {"sort", c22sort}, {"dedup", c22dedup}, {"receiver operations", c22ops}, {"merge", c22merge},
		{"mergededup", c22mergeDedup}, {"split", c22split}, {"ids", c22ids}, {"misc", c22misc}, {"bigsort", c22bigsort},
	}
	for _, p := range parts {
		n0 := x.n
		p.f(x)
		c.Count(p.name, (x.n-n0)/c.NShards)
		if c.Expired() {
			return
		}
	}
}

func c22order(x *c22ctx) {
	big1 := []rankdb.Element{}
	for _, s := range []uint64{0, 1, math.MaxUint64 - 1, math.MaxUint64, 1 << 63} {
		for _, t := range []uint32{0, 1, math.MaxUint32 - 1, math.MaxUint32, 1 << 31} {
			for _, u := range []uint32{1, 2, math.MaxUint32} {
				for _, id := range []uint64{0, 1, math.MaxUint64} {
					big1 = append(big1, rankdb.Element{ID: rankdb.ElementID(id), Score: s, TieBreaker: t, Updated: u})
				}
			}
		}
	}
	lim := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 96), big.NewInt(1))
	val := func(s uint64, t uint32) *big.Int {
		v := new(big.Int).SetUint64(s)
		return v.Add(v.Lsh(v, 32), new(big.Int).SetUint64(uint64(t)))
	}
	for _, a := range big1 {
		a := a
		for _, b := range big1 {
			b := b
			x.do(func() string { return fmt.Sprintf("Above %s %s", es(a), es(b)) }, func() error {
				if a.Above(b) != above(a, b) {
					return fmt.Errorf("Above = %v", a.Above(b))
				}
				s := rankdb.Elements{a, b}
				if s.Sorter()(0, 1) != above(a, b) {
					return fmt.Errorf("Sorter = %v", s.Sorter()(0, 1))
				}
				if s.IDSorter()(0, 1) != (a.ID < b.ID) {
					return fmt.Errorf("IDSorter = %v", s.IDSorter()(0, 1))
				}
				return nil
			})
		}
		x.do(func() string { return "PrevMax/AboveThis " + es(a) }, func() error {
			v := val(a.Score, a.TieBreaker)
			p := new(big.Int).Sub(v, big.NewInt(1))
			if p.Sign() < 0 {
				p = big.NewInt(0)
			}
			if s, t := a.PrevMax(); val(s, t).Cmp(p) != 0 {
				return fmt.Errorf("PrevMax = %d,%d", s, t)
			}
			n := new(big.Int).Add(v, big.NewInt(1))
			if n.Cmp(lim) > 0 {
				n = lim
			}
			if s, t := a.AboveThis(); val(s, t).Cmp(n) != 0 {
				return fmt.Errorf("AboveThis = %d,%d", s, t)
			}
			for _, seg := range []rankdb.SegmentID{0, 1, math.MaxUint32} {
				i := a.AsIndex(seg)
				if i.ID != a.ID || i.Score != uint64(a.ID) || i.TieBreaker != uint32(seg) || i.Updated != a.Updated {
					return fmt.Errorf("AsIndex(%d) = %s", seg, es(i.Element))
				}
			}
			return nil
		})
	}
}

func perms(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

func c22sort(x *c22ctx) {
	u := uni(3, 2, 2, 2)
	for n := 0; n <= h.Pick(x.c, 8, 9); n++ {
		for _, base := range []int{0, 3, 9, 24 - n} {
			if base+n > len(u) {
				continue
			}
			want := u[base : base+n]
			perms(n, func(p []int) {
				in := make([]rankdb.Element, n)
				for i := range p {
					in[i] = want[p[i]]
				}
				x.do(func() string { return "Sort " + ess(in) }, func() error {
					l := withCap(in, 1)
					ch := l.Sort()
					if err := sameElems(l, want); err != nil {
						return err
					}
					sorted := true
					for i := range in {
						sorted = sorted && eqElem(in[i], want[i])
					}
					if ch == sorted {
						return fmt.Errorf("reported change=%v", ch)
					}
					if n > 5 {
						return nil
					}
					r := rankdb.Elements(in).Ranked(0, n)
					r.Sort()
					return sameElems(r.Elements(), want)
				})
			})
		}
	}
}

// seqs calls f with every sequence over 0..k-1 of length n.
func seqs(k, n int, f func(s []int)) {
	s := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(s)
			return
		}
		for v := 0; v < k; v++ {
			s[i] = v
			rec(i + 1)
		}
	}
	rec(0)
}

func c22dedup(x *c22ctx) {
	check := func(in []rankdb.Element) {
		x.do(func() string { return "Deduplicate " + ess(in) }, func() error {
			for v := 0; v < 2; v++ {
				l := withCap(in, 0)
				var ch bool
				if v == 0 {
					ch = l.Deduplicate()
				} else {
					l = rankdb.NewElements(l)
				}
				ids := map[rankdb.ElementID]int{}
				for i := range in {
					ids[in[i].ID]++
				}
				if v == 0 && ch != (len(ids) != len(in)) {
					return fmt.Errorf("reported change=%v", ch)
				}
				if (len(ids) != len(in)) != (hasDup(in)) {
					return fmt.Errorf("HasDuplicates wrong")
				}
				if len(l) != len(ids) {
					return fmt.Errorf("got %s", ess(l))
				}
				for i, e := range l {
					if i > 0 && above(e, l[i-1]) {
						return fmt.Errorf("result not sorted: %s", ess(l))
					}
					found := false
					for _, o := range in {
						if o.ID != e.ID {
							continue
						}
						found = found || eqElem(o, e)
						if o.Updated > e.Updated {
							return fmt.Errorf("kept %s, but %s was updated later", es(e), es(o))
						}
						if o.Updated == e.Updated && o.Score > e.Score {
							return fmt.Errorf("kept %s, but %s has a higher score and the same update time", es(e), es(o))
						}
					}
					if !found {
						return fmt.Errorf("result %s was never in the input", es(e))
					}
					delete(ids, e.ID)
				}
				if len(ids) != 0 {
					return fmt.Errorf("ids missing or repeated: %s", ess(l))
				}
			}
			return nil
		})
	}
	mk := func(u []rankdb.Element, s []int) []rankdb.Element {
		in := make([]rankdb.Element, len(s))
		for i, v := range s {
			in[i] = u[v]
			in[i].Payload = []byte{byte(i)}
		}
		return in
	}
	u := uni(2, 3, 1, 2)
	for n := 0; n <= h.Pick(x.c, 5, 6); n++ {
		seqs(len(u), n, func(s []int) { check(mk(u, s)) })
	}
	u = uni(3, 2, 2, 2)
	for n := 0; n <= h.Pick(x.c, 3, 4); n++ {
		seqs(len(u), n, func(s []int) { check(mk(u, s)) })
	}
	u = uni(1, 3, 1, 3)
	for n := 4; n <= h.Pick(x.c, 5, 7); n++ {
		seqs(len(u), n, func(s []int) { check(mk(u, s)) })
	}
	// Beyond the insertion sort limit of the sort package: every pair of duplicates in 14..20 elements.
	for n := 14; n <= 20; n += 3 {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for _, d := range []int{-1, 0, 1} {
					for _, ds := range []int{-1, 1} {
						if i == j {
							continue
						}
						in := make([]rankdb.Element, n)
						for k := range in {
							in[k] = el(uint64(k*7%n), uint64(k%5+1), 0, 5)
						}
						in[j].ID = in[i].ID
						in[j].Score = in[i].Score + uint64(int64(ds))
						in[j].Updated = uint32(5 + d)
						check(in)
					}
				}
			}
		}
	}
}

// c22ops checks every receiver operation on every collection of distinct ids.
func c22ops(x *c22ctx) {
	nid := 4
	u := uni(nid, 2, 2, 2)
	byID := map[rankdb.ElementID][]rankdb.Element{}
	for _, e := range u {
		byID[e.ID] = append(byID[e.ID], e)
	}
	var states [][]rankdb.Element
	var rec func(id int, cur []rankdb.Element)
	rec = func(id int, cur []rankdb.Element) {
		if id > nid {
			s := append([]rankdb.Element{}, cur...)
			sort.Slice(s, func(i, j int) bool { return above(s[i], s[j]) })
			states = append(states, s)
			return
		}
		rec(id+1, cur)
		for _, e := range byID[rankdb.ElementID(id)] {
			rec(id+1, append(cur[:len(cur):len(cur)], e))
		}
	}
	rec(1, nil)
	var upd []rankdb.Element
	for _, e := range append(u, el(9, 1, 0, 1), el(9, 0, 0, 2), el(0, 1, 1, 1)) {
		e.Payload = []byte("new")
		upd = append(upd, e)
	}
	zero := el(1, 1, 0, 0)
	zero.Payload = []byte("new")
	upd = append(upd, zero)
	ids := []rankdb.ElementID{0, 1, 2, 3, 4, 9}
	for _, s := range states {
		s := s
		pos := map[rankdb.ElementID]int{}
		for i, e := range s {
			pos[e.ID] = i
		}
		without := func(id rankdb.ElementID) []rankdb.Element {
			r := []rankdb.Element{}
			for _, e := range s {
				if e.ID != id {
					r = append(r, e)
				}
			}
			return r
		}
		for _, spare := range []int{0, 2} {
			spare := spare
			for _, e := range upd {
				e := e
				want := func(base []rankdb.Element) ([]rankdb.Element, int, rankdb.Element) {
					w := e
					if w.Updated == 0 {
						w.Updated = uint32(vsched.Now().Unix())
					}
					r := insertSorted(base, w)
					for i := range r {
						if string(r[i].Payload) == "new" {
							return r, i, w
						}
					}
					return r, -1, w
				}
				_, exists := pos[e.ID]
				if !exists && e.Updated != 0 {
					x.do(func() string { return fmt.Sprintf("Insert into %s (spare capacity %d) %s", ess(s), spare, es(e)) }, func() error {
						l := withCap(s, spare)
						i := l.Insert(e)
						w, wi, _ := want(s)
						if i != wi {
							return fmt.Errorf("returned index %d, want %d", i, wi)
						}
						return sameElems(l, w)
					})
				}
				x.do(func() string { return fmt.Sprintf("Add to %s (spare capacity %d) %s", ess(s), spare, es(e)) }, func() error {
					l := withCap(s, spare)
					r, err := l.Add(e)
					if err != nil {
						return err
					}
					w, wi, _ := want(without(e.ID))
					if r.FromTop != wi || r.FromBottom != len(w)-1-wi {
						return fmt.Errorf("returned rank %+v, want top %d of %d", *r, wi, len(w))
					}
					return sameElems(l, w)
				})
				x.do(func() string { return fmt.Sprintf("Update of %s (spare capacity %d) %s", ess(s), spare, es(e)) }, func() error {
					l := withCap(s, spare)
					r, err := l.Update(e)
					if !exists {
						if err != rankdb.ErrNotFound {
							return fmt.Errorf("returned %v, %v", r, err)
						}
						return sameElems(l, s)
					}
					if err != nil {
						return err
					}
					w, wi, _ := want(without(e.ID))
					if r.FromTop != wi || r.FromBottom != len(w)-1-wi {
						return fmt.Errorf("returned rank %+v, want top %d of %d", *r, wi, len(w))
					}
					return sameElems(l, w)
				})
			}
		}
		for _, id := range ids {
			id := id
			x.do(func() string { return fmt.Sprintf("Delete/Find in %s %d", ess(s), id) }, func() error {
				l := withCap(s, 1)
				p, exists := pos[id]
				f, ferr := l.Find(id)
				i, ierr := l.FindIdx(id)
				if exists {
					if ferr != nil || ierr != nil || i != p || !eqElem(*f, s[p]) {
						return fmt.Errorf("Find: %v %v, FindIdx: %v %v", f, ferr, i, ierr)
					}
					f.Score += 5
					if !eqElem(l[p], s[p]) {
						return fmt.Errorf("the found element is shared with the collection")
					}
				} else if ferr != rankdb.ErrNotFound || ierr != rankdb.ErrNotFound {
					return fmt.Errorf("Find: %v %v, FindIdx: %v %v", f, ferr, i, ierr)
				}
				err := l.Delete(id)
				if exists != (err == nil) || !exists && err != rankdb.ErrNotFound {
					return fmt.Errorf("Delete: %v", err)
				}
				return sameElems(l, without(id))
			})
		}
		x.do(func() string { return "read-only operations on " + ess(s) }, func() error {
			l := withCap(s, 0)
			min, max, minT, maxT := l.MinMax()
			if len(s) == 0 {
				if min != 0 || max != math.MaxUint64 || minT != 0 || maxT != math.MaxUint32 {
					return fmt.Errorf("MinMax of empty: %d %d %d %d", min, max, minT, maxT)
				}
			} else {
				a, b := s[0], s[len(s)-1]
				if min != b.Score || minT != b.TieBreaker || max != a.Score || maxT != a.TieBreaker {
					return fmt.Errorf("MinMax: %d %d %d %d", min, max, minT, maxT)
				}
			}
			for sc := uint64(0); sc < 3; sc++ {
				w := -1
				for i := range s {
					if s[i].Score == sc {
						w = i
						break
					}
				}
				i, err := l.FindScoreIdx(sc)
				if w < 0 && err != rankdb.ErrNotFound || w >= 0 && (err != nil || i != w) {
					return fmt.Errorf("FindScoreIdx(%d) = %d, %v", sc, i, err)
				}
			}
			cl := l.Clone(true)
			if err := sameElems(cl, s); err != nil {
				return fmt.Errorf("clone: %v", err)
			}
			for i := range cl {
				cl[i].Payload[0] = 'x'
				cl[i].Score += 9
			}
			cl.UpdateTime(time.Unix(77, 0))
			if err := sameElems(l, s); err != nil {
				return fmt.Errorf("changing a deep clone changed the original: %v", err)
			}
			cl = l.Clone(false)
			if err := sameElems(cl, s); err != nil {
				return fmt.Errorf("shallow clone: %v", err)
			}
			cl.UpdateTime(time.Unix(77, 0))
			for i := range cl {
				if w := s[i]; cl[i].Updated != 77 || cl[i].Score != w.Score || cl[i].ID != w.ID {
					return fmt.Errorf("UpdateTime: %s", ess(cl))
				}
			}
			ie := l.ElementIDs(7)
			wi := []rankdb.Element{}
			for _, e := range s {
				wi = append(wi, rankdb.Element{ID: e.ID, Score: uint64(e.ID), TieBreaker: 7, Updated: e.Updated})
			}
			sort.Slice(wi, func(i, j int) bool { return above(wi[i], wi[j]) })
			if err := sameElems(ie.Elements, wi); err != nil {
				return fmt.Errorf("ElementIDs: %v", err)
			}
			for _, off := range []int{0, 3} {
				r := l.Ranked(off, 10)
				for i := range s {
					if err := sameRanked(r[i], rankdb.RankedElement{Element: s[i], FromTop: off + i, FromBottom: 9 - off - i}); err != nil {
						return fmt.Errorf("Ranked: %v", err)
					}
				}
				r.Offset(2)
				for i := range s {
					if err := sameRanked(r[i], rankdb.RankedElement{Element: s[i], FromTop: off + 2 + i, FromBottom: 7 - off - i}); err != nil {
						return fmt.Errorf("Offset: %v", err)
					}
				}
				r.CalculateFromBottom(20)
				for i := range s {
					if err := sameRanked(r[i], rankdb.RankedElement{Element: s[i], FromTop: off + 2 + i, FromBottom: 17 - off - i}); err != nil {
						return fmt.Errorf("CalculateFromBottom: %v", err)
					}
				}
				if fmt.Sprint(r.IDs()) != fmt.Sprint(l.IDs()) {
					return fmt.Errorf("IDs: %v %v", r.IDs(), l.IDs())
				}
			}
			for i, id := range l.IDs() {
				if id != s[i].ID {
					return fmt.Errorf("IDs: %v", l.IDs())
				}
			}
			return sameElems(l, s)
		})
	}
}

// c22merge: all interleavings of two sorted sequences, with all capacity classes.
func c22merge(x *c22ctx) {
	u := uni(16, 2, 2, 2) // 128 distinct, ranked
	// stride through the universe so that neighbours differ in different keys
	for _, stride := range []int{1, 5} {
		pick := func(i int) rankdb.Element { return u[i*stride%len(u)] }
		if stride == 5 {
			pick = func(i int) rankdb.Element { return u[i*5] }
		}
		maxA, maxB := h.Pick(x.c, 6, 8), h.Pick(x.c, 6, 8)
		var sizes [][2]int
		for a := 0; a <= maxA; a++ {
			for b := 0; b <= maxB; b++ {
				sizes = append(sizes, [2]int{a, b})
			}
		}
		// Around the batch size that switches strategy.
		for _, b := range []int{9, 10, 11, 12} {
			sizes = append(sizes, [2]int{0, b}, [2]int{1, b}, [2]int{2, b}, [2]int{3, b})
		}
		for _, sz := range sizes {
			a, b := sz[0], sz[1]
			if stride == 5 && a+b > 16 {
				continue
			}
			comb(a+b, a, func(inA []bool) {
				la, lb, w := []rankdb.Element{}, []rankdb.Element{}, make([]rankdb.Element, a+b)
				for i, m := range inA {
					w[i] = pick(i)
					if m {
						la = append(la, w[i])
					} else {
						lb = append(lb, w[i])
					}
				}
				for _, spare := range []int{0, b - 1, b, b + 3} {
					if spare < 0 {
						continue
					}
					for _, sliced := range []bool{false, true} {
						mergeCase(x, la, lb, w, spare, sliced)
					}
				}
			})
		}
	}
	// Around the total size that switches strategy.
	for _, tot := range []int{999, 1000, 1001, 1002} {
		for _, b := range []int{1, 2, 10} {
			step := 37
			for p := 0; p <= tot-b; p += step {
				for _, gap := range []int{0, 1, 5} {
					w := make([]rankdb.Element, tot)
					for i := range w {
						w[i] = el(uint64(i), uint64(5000-i/3), 0, 5)
					}
					la, lb := []rankdb.Element{}, []rankdb.Element{}
					nb := 0
					for i := range w {
						if nb < b && i >= p && (gap == 0 || (i-p)%gap == 0 || tot-i <= b-nb) {
							lb = append(lb, w[i])
							nb++
						} else {
							la = append(la, w[i])
						}
					}
					for _, spare := range []int{0, b, b + 5} {
						for _, sliced := range []bool{false, true} {
							mergeCase(x, la, lb, w, spare, sliced)
						}
					}
				}
			}
		}
	}
}

func mergeCase(x *c22ctx, la, lb, w []rankdb.Element, spare int, sliced bool) {
	x.do(func() string {
		return fmt.Sprintf("Merge %s + %s spare capacity %d sliced=%v", ess(la), ess(lb), spare, sliced)
	}, func() error {
		l := withCap(la, spare)
		back := l[:cap(l)]
		before := append([]rankdb.Element{}, back...)
		ins := withCap(lb, 2)
		l.Merge(ins, sliced)
		if err := sameElems(l, w); err != nil {
			return err
		}
		if err := sameElems(ins, lb); err != nil {
			return fmt.Errorf("inserted elements were modified: %v", err)
		}
		if sliced && len(lb) > 0 {
			if err := sameElems(back, before); err != nil {
				return fmt.Errorf("shared backing array was modified: %v", err)
			}
		}
		return nil
	})
}

// comb calls f for every choice of k out of n positions.
func comb(n, k int, f func(in []bool)) {
	in := make([]bool, n)
	var rec func(i, left int)
	rec = func(i, left int) {
		if n-i < left {
			return
		}
		if i == n {
			f(in)
			return
		}
		if left > 0 {
			in[i] = true
			rec(i+1, left-1)
		}
		in[i] = false
		rec(i+1, left)
	}
	rec(0, k)
}

func c22mergeDedup(x *c22ctx) {
	nid := 3
	var states [][]rankdb.Element
	u := uni(nid, 2, 1, 2)
	byID := map[rankdb.ElementID][]rankdb.Element{}
	for _, e := range u {
		byID[e.ID] = append(byID[e.ID], e)
	}
	var rec func(id int, cur []rankdb.Element)
	rec = func(id int, cur []rankdb.Element) {
		if id > nid {
			states = append(states, append([]rankdb.Element{}, cur...))
			return
		}
		rec(id+1, cur)
		for _, e := range byID[rankdb.ElementID(id)] {
			rec(id+1, append(cur[:len(cur):len(cur)], e))
		}
	}
	rec(1, nil)
	for _, a := range states {
		for _, b := range states {
			// Sorted and unsorted (by id), with and without spare capacity.
			for v := 0; v < 4; v++ {
				a, b, v := a, b, v
				x.do(func() string { return fmt.Sprintf("MergeDeduplicate %s + %s variant %d", ess(a), ess(b), v) }, func() error {
					m := newModel()
					m.put(a...)
					ins := append([]rankdb.Element{}, b...)
					for i := range ins {
						ins[i].Payload = []byte("new")
					}
					m.put(ins...)
					la, li := withCap(a, v&1*3), withCap(ins, v&1*4)
					if v&2 != 0 {
						sort.Slice(la, func(i, j int) bool { return above(la[i], la[j]) })
						sort.Slice(li, func(i, j int) bool { return above(li[i], li[j]) })
					}
					w := m.sorted()
					if len(b) == 0 {
						w = append([]rankdb.Element{}, la...)
					}
					l := la
					keep := append([]rankdb.Element{}, la[:cap(la)]...)
					l.MergeDeduplicate(li)
					if err := sameElems(la[:cap(la)], keep); err != nil {
						return fmt.Errorf("previous content of the receiver was modified in place: %v", err)
					}
					return sameElems(l, w)
				})
			}
		}
	}
}

func c22split(x *c22ctx) {
	maxN := h.Pick(x.c, 12, 15)
	for n := 0; n <= maxN; n++ {
		bits := n - 1
		if bits < 0 {
			bits = 0
		}
		for pat := 0; pat < 1<<bits; pat++ {
			l := make(rankdb.Elements, n)
			sc, tie := uint64(1000), uint32(1000)
			for i := range l {
				if i > 0 && pat>>(i-1)&1 == 1 {
					if i%2 == 0 {
						sc--
					} else {
						tie--
					}
				}
				l[i] = el(uint64(i+1), sc, tie, 5)
			}
			for each := 1; each <= n+1; each++ {
				each := each
				x.do(func() string { return fmt.Sprintf("SplitSize(%d) of %s", each, ess(l)) }, func() error {
					in := cloneElems(l)
					res := in.SplitSize(each)
					var cat []rankdb.Element
					for i, p := range res {
						if n > 0 && len(p) == 0 {
							return fmt.Errorf("part %d is empty", i)
						}
						if len(p) > each && (p[each-1].Score != p[len(p)-1].Score || p[each-1].TieBreaker != p[len(p)-1].TieBreaker) {
							return fmt.Errorf("part %d has %d elements: %s", i, len(p), ess(p))
						}
						if i > 0 && len(p) > 0 {
							last := cat[len(cat)-1]
							if last.Score == p[0].Score && last.TieBreaker == p[0].TieBreaker {
								return fmt.Errorf("part %d begins with the score and tie breaker the previous part ends with: %s", i, ess(p))
							}
						}
						cat = append(cat, p...)
					}
					if len(res) > (n+each-1)/each && n > 0 {
						return fmt.Errorf("%d parts", len(res))
					}
					return sameElems(cat, l)
				})
			}
		}
	}
	// FirstElementsWithScore: every small score list against every small collection.
	for n := 0; n <= 5; n++ {
		seqs(5, n, func(s []int) {
			for i := 1; i < n; i++ {
				if s[i] > s[i-1] {
					return
				}
			}
			l := make(rankdb.Elements, n)
			for i, v := range s {
				l[i] = el(uint64(i+1), uint64(v), 0, 5)
			}
			for m := 0; m <= 4; m++ {
				seqs(5, m, func(q []int) {
					for i := 1; i < m; i++ {
						if q[i] >= q[i-1] {
							return
						}
					}
					sc := make([]uint64, m)
					for i, v := range q {
						sc[i] = uint64(v)
					}
					x.do(func() string { return fmt.Sprintf("FirstElementsWithScore(%v) of %s", sc, ess(l)) }, func() error {
						got := l.FirstElementsWithScore(append([]uint64{}, sc...))
						if len(got) > len(sc) {
							return fmt.Errorf("%d results", len(got))
						}
						for _, want := range sc {
							i, err := l.FindScoreIdx(want)
							if err != nil {
								continue
							}
							ok := false
							for _, g := range got {
								ok = ok || eqElem(g, l[i])
							}
							if !ok {
								return fmt.Errorf("first element with score %d (%s) missing from %s", want, es(l[i]), ess(got))
							}
						}
						for i, g := range got {
							if i > 0 && !above(got[i-1], g) {
								return fmt.Errorf("not in order: %s", ess(got))
							}
						}
						if len(sc) == 1 {
							for i := range l {
								if l[i].Score <= sc[0] {
									if len(got) != 1 || !eqElem(got[0], l[i]) {
										return fmt.Errorf("got %s, want %s", ess(got), es(l[i]))
									}
									return nil
								}
							}
							if len(got) != 0 {
								return fmt.Errorf("got %s, want nothing", ess(got))
							}
						}
						return nil
					})
				})
			}
		})
	}
}

func c22ids(x *c22ctx) {
	dom := []rankdb.ElementID{0, 1, 7, math.MaxUint64}
	mk := func(s []int) rankdb.ElementIDs {
		r := make(rankdb.ElementIDs, len(s))
		for i, v := range s {
			r[i] = dom[v]
		}
		return r
	}
	var all []rankdb.ElementIDs
	for n := 0; n <= 4; n++ {
		seqs(4, n, func(s []int) { all = append(all, mk(s)) })
	}
	set := func(e rankdb.ElementIDs) map[rankdb.ElementID]bool {
		m := map[rankdb.ElementID]bool{}
		for _, i := range e {
			m[i] = true
		}
		return m
	}
	for _, a := range all {
		a := a
		x.do(func() string { return fmt.Sprintf("ElementIDs %v", a) }, func() error {
			c := append(rankdb.ElementIDs{}, a...)
			c.Deduplicate()
			m := set(a)
			if len(c) != len(m) {
				return fmt.Errorf("Deduplicate: %v", c)
			}
			for i := range c {
				if !m[c[i]] || i > 0 && c[i-1] <= c[i] {
					return fmt.Errorf("Deduplicate: %v", c)
				}
			}
			c = append(rankdb.ElementIDs{}, a...)
			c.Sort()
			w := append(rankdb.ElementIDs{}, a...)
			sort.Slice(w, func(i, j int) bool { return w[i] > w[j] })
			if fmt.Sprint(c) != fmt.Sprint(w) {
				return fmt.Errorf("Sort: %v", c)
			}
			if fmt.Sprint(a.AsScore()) != fmt.Sprint([]rankdb.ElementID(a)) {
				return fmt.Errorf("AsScore: %v", a.AsScore())
			}
			mp := a.Map()
			for id := range mp {
				if !m[id] {
					return fmt.Errorf("Map: %v", mp)
				}
			}
			if len(mp) != len(m) {
				return fmt.Errorf("Map: %v", mp)
			}
			return nil
		})
		for _, b := range all {
			if len(a)+len(b) > 6 {
				continue
			}
			b := b
			x.do(func() string { return fmt.Sprintf("ElementIDs %v NotIn/Overlap %v", a, b) }, func() error {
				sa, sb := set(a), set(b)
				ni := a.NotIn(b)
				for _, id := range ni {
					if !sa[id] || sb[id] {
						return fmt.Errorf("NotIn: %v", ni)
					}
				}
				if n := set(ni); len(n) != len(ni) {
					return fmt.Errorf("NotIn repeats: %v", ni)
				}
				no, wantNo := len(ni), 0
				for id := range sa {
					if !sb[id] {
						wantNo++
					}
				}
				if no != wantNo {
					return fmt.Errorf("NotIn: %v", ni)
				}
				ov := a.Overlap(b)
				var w rankdb.ElementIDs
				for _, id := range b {
					if sa[id] {
						w = append(w, id)
					}
				}
				if fmt.Sprint([]rankdb.ElementID(ov)) != fmt.Sprint([]rankdb.ElementID(w)) {
					return fmt.Errorf("Overlap: %v want %v", ov, w)
				}
				return nil
			})
		}
	}
	// List ids.
	ld := []rankdb.ListID{"", "a", "ab", "b"}
	for n := 0; n <= 5; n++ {
		seqs(4, n, func(s []int) {
			a := make(rankdb.ListIDs, n)
			m := map[rankdb.ListID]bool{}
			for i, v := range s {
				a[i] = ld[v]
				m[a[i]] = true
			}
			x.do(func() string { return fmt.Sprintf("ListIDs.Deduplicate %q", a) }, func() error {
				c := append(rankdb.ListIDs{}, a...)
				ch := c.Deduplicate()
				if ch != (len(m) != n) || len(c) != len(m) {
					return fmt.Errorf("changed=%v %q", ch, c)
				}
				for i := range c {
					if !m[c[i]] || i > 0 && c[i-1] >= c[i] {
						return fmt.Errorf("%q", c)
					}
				}
				return nil
			})
		})
	}
}

// c22misc: index order used to group index entries by segment.
func c22misc(x *c22ctx) {
	u := uni(1, 3, 3, 1)
	for _, a := range u {
		for _, b := range u {
			a, b := a, b
			x.do(func() string { return fmt.Sprintf("SegmentSorter %s %s", es(a), es(b)) }, func() error {
				s := rankdb.IndexElements{Elements: rankdb.Elements{a, b}}
				w := a.TieBreaker > b.TieBreaker || a.TieBreaker == b.TieBreaker && a.Score > b.Score
				if s.SegmentSorter()(0, 1) != w {
					return fmt.Errorf("= %v", !w)
				}
				return nil
			})
		}
	}
}

// c22bigsort: sizes that use the parallel sort.
func c22bigsort(x *c22ctx) {
	orders := map[string]func(i, n int) int{
		"reversed":     func(i, n int) int { return n - 1 - i },
		"rotated":      func(i, n int) int { return (i + n/3) % n },
		"interleaved":  func(i, n int) int { return i * 7919 % n },
		"swapped ends": func(i, n int) int { return map[int]int{0: n - 1, n - 1: 0}[i] + b2i(i != 0 && i != n-1)*i },
		"last first":   func(i, n int) int { return (i + n - 1) % n },
		"evens first":  func(i, n int) int { return i*2%n + b2i(n%2 == 0)*(i*2/n) },
	}
	ties := map[string]func(i int) rankdb.Element{
		"distinct":        func(i int) rankdb.Element { return rankdb.Element{ID: rankdb.ElementID(i), Score: uint64(i), Updated: 1} },
		"all scores tied": func(i int) rankdb.Element { return rankdb.Element{ID: rankdb.ElementID(i), Score: 5, Updated: 1} },
		"runs of 100":     func(i int) rankdb.Element { return rankdb.Element{ID: rankdb.ElementID(i), Score: uint64(i / 100), Updated: 1} },
		"runs of 4000":    func(i int) rankdb.Element { return rankdb.Element{ID: rankdb.ElementID(i), Score: uint64(i / 4000), Updated: 1} },
		"tie breakers":    func(i int) rankdb.Element { return rankdb.Element{ID: rankdb.ElementID(i), Score: 1, TieBreaker: uint32(i / 7), Updated: uint32(1 + i%3)} },
	}
	sizes := h.Pick(x.c, []int{24999, 25000, 25001, 27500}, []int{24999, 25000, 25001, 26000, 27499, 27500, 27501, 30000, 32500, 40000, 100001})
	for _, n := range sizes {
		for _, on := range h.SortedKeys(orders) {
			for _, tn := range h.SortedKeys(ties) {
				o, t, n, on, tn := orders[on], ties[tn], n, on, tn
				x.do(func() string { return fmt.Sprintf("Sort of %d elements, %s, %s", n, on, tn) }, func() error {
					l := make(rankdb.Elements, n)
					seen := make([]bool, n)
					for i := range l {
						k := o(i, n)
						if seen[k] {
							k = i // not a permutation for this size: fill up below
						}
						seen[k] = true
						l[i] = t(k)
					}
					w := append([]rankdb.Element{}, l...)
					sort.SliceStable(w, func(i, j int) bool { return above(w[i], w[j]) })
					l.Sort()
					if len(l) != n {
						return fmt.Errorf("%d elements after sorting", len(l))
					}
					for i := range w {
						if l[i].ID != w[i].ID || l[i].Score != w[i].Score || l[i].TieBreaker != w[i].TieBreaker || l[i].Updated != w[i].Updated {
							return fmt.Errorf("element %d is %s, want %s", i, es(l[i]), es(w[i]))
						}
					}
					return nil
				})
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
