//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// fop is an operation that is run with a failing store.
type fop struct {
	name string
	// do runs the operation. When it reports success it checks the result and
	// updates the model.
	do func(in *inst) error
	// touched are the elements the operation is about (nil: none).
	touched []rankdb.ElementID
	// all: everything is touched.
	all bool
	// rebuild operations replace all segments.
	rebuild bool
	// after elements may appear with these values.
	after []rankdb.Element
	ok    func(in *inst) bool
	// read operations change nothing.
	read bool
}

// errSilent is a wrong result reported as success.
type errSilent struct{ error }

func fread(name string, f func(in *inst) error) fop {
	return fop{name: name, do: f, read: true}
}

func elemIDs(es []rankdb.Element) (r []rankdb.ElementID) {
	for _, e := range es {
		r = append(r, e.ID)
	}
	return
}

func silent(err error) error {
	if err != nil {
		return errSilent{err}
	}
	return nil
}

func fops18() []fop {
	upd := func(radius int, results bool, e ...rankdb.Element) fop {
		return fop{name: fmt.Sprintf("update(%s) results=%v", names(e), results), touched: elemIDs(e), after: e, do: func(in *inst) error {
			old := in.m.sorted()
			r, err := in.l.UpdateElements(bg, in.st, cloneElems(e), radius, results)
			if err != nil {
				return err
			}
			in.m.put(cloneElems(e)...)
			if !results {
				return nil
			}
			s := in.m.sorted()
			idx, oidx := index(s), index(old)
			if len(r) != len(e) {
				return silent(fmt.Errorf("update returned %d results", len(r)))
			}
			for _, g := range r {
				if err := sameRanked(g, wantRanked(s, idx[g.ID], radius)); err != nil {
					return silent(fmt.Errorf("update result: %v", err))
				}
				if i, ok := oidx[g.ID]; ok != (g.Before != nil) || ok && g.Before.FromTop != i {
					return silent(fmt.Errorf("update result of %d: wrong previous rank", g.ID))
				}
			}
			return nil
		}}
	}
	ins := func(e ...rankdb.Element) fop {
		o := opInsert(e...)
		return fop{name: o.name, touched: elemIDs(e), after: e, do: o.do, ok: o.ok}
	}
	del := func(ids ...rankdb.ElementID) fop {
		return fop{name: fmt.Sprint("delete", ids), touched: ids, do: func(in *inst) error {
			if err := in.l.DeleteElements(bg, in.st, append([]rankdb.ElementID{}, ids...)); err != nil {
				return err
			}
			in.m.del(ids...)
			return nil
		}}
	}
	pop := func(e ...rankdb.Element) fop {
		return fop{name: "populate(" + names(e) + ")", all: true, after: e, do: func(in *inst) error {
			if err := in.l.Populate(bg, in.st, cloneElems(e)); err != nil {
				return err
			}
			in.m = newModel()
			in.m.put(cloneElems(e)...)
			return nil
		}}
	}
	return []fop{
		upd(1, true, el(1, 10, 0, 2), el(7, 45, 0, 2)),
		upd(0, false, el(2, 70, 0, 3), el(6, 65, 0, 3)),
		upd(0, false, el(0, 40, 0, 2), el(3, 40, 0, 2), el(5, 41, 0, 2)),
		ins(el(0, 40, 0, 2), el(9, 5, 0, 2)),
		del(3, 6),
		del(1),
		pop(el(5, 30, 0, 4), el(6, 35, 0, 4), el(8, 35, 1, 4)),
		pop(),
		{name: "split", do: opSplit.do},
		{name: "reindex", do: opReindex.do},
		{name: "repair", do: opRepair.do, rebuild: true},
		{name: "repair(clear)", do: func(in *inst) error {
			// Asked to clear the list if it cannot be loaded.
			if err := opRepairClear.do(in); err != nil {
				return err
			}
			// Segments that could not be loaded have been dropped.
			in.st.Fault = nil
			got, err := in.l.GetRankTop(bg, in.st, 0, 1000)
			if err != nil && err != rankdb.ErrOffsetOutOfBounds {
				return silent(err)
			}
			m := newModel()
			for _, g := range got {
				if e, ok := in.m.m[g.ID]; !ok || !eqElem(e, g) {
					return silent(fmt.Errorf("element %s appeared", es(g)))
				}
				m.put(g)
			}
			in.m = m
			return nil
		}, all: true},
		fread("get", func(in *inst) error {
			s := in.m.sorted()
			got, err := in.l.GetElements(bg, in.st, []rankdb.ElementID{1, 3, 4, 8}, 3)
			if err != nil {
				return err
			}
			x := 0
			for i, e := range s {
				if e.ID != 1 && e.ID != 3 && e.ID != 4 && e.ID != 8 {
					continue
				}
				if x >= len(got) {
					return silent(fmt.Errorf("get misses elements: %v", got.IDs()))
				}
				if err := sameRanked(got[x], wantRanked(s, i, 3)); err != nil {
					return silent(err)
				}
				x++
			}
			if x != len(got) {
				return silent(fmt.Errorf("get returned too many elements: %v", got.IDs()))
			}
			return nil
		}),
		fread("top", func(in *inst) error {
			s := in.m.sorted()
			if len(s) < 2 {
				return nil
			}
			got, err := in.l.GetRankTop(bg, in.st, 1, 4)
			if err != nil {
				return err
			}
			return silent(sameElems(got, s[1:min(5, len(s))]))
		}),
		fread("bottom", func(in *inst) error {
			s := in.m.sorted()
			if len(s) == 0 {
				return nil
			}
			got, err := in.l.GetRankBottom(bg, in.st, 0, len(s))
			if err != nil {
				return err
			}
			for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
				s[i], s[j] = s[j], s[i]
			}
			return silent(sameElems(got, s))
		}),
		fread("score", func(in *inst) error {
			s := in.m.sorted()
			got, err := in.l.GetRankScoreDesc(bg, in.st, 45, 3)
			if err != nil {
				return err
			}
			n := 0
			for i, e := range s {
				if e.Score <= 45 && n < 3 {
					if n >= len(got) || !eqElem(got[n].Element, e) || got[n].FromTop != i {
						return silent(fmt.Errorf("wrong result %v", got))
					}
					n++
				}
			}
			if n != len(got) {
				return silent(fmt.Errorf("wrong result %v", got))
			}
			return nil
		}),
		fread("percentile", func(in *inst) error {
			s := in.m.sorted()
			got, err := in.l.GetPercentile(bg, in.st, 0.5, 2)
			if err != nil || len(s) == 0 {
				return err
			}
			return silent(sameRanked(*got, wantRanked(s, len(s)/2, 2)))
		}),
		fread("stats", func(in *inst) error {
			s := in.m.sorted()
			got, err := in.l.Stats(bg, in.st, true)
			if err != nil {
				return err
			}
			if got.Elements != len(s) {
				return silent(fmt.Errorf("%d elements reported", got.Elements))
			}
			if len(s) > 0 && (got.Top == nil || got.Bottom == nil || got.Top.ID != s[0].ID || got.Bottom.ID != s[len(s)-1].ID) {
				return silent(fmt.Errorf("wrong top or bottom element"))
			}
			return nil
		}),
		fread("len", func(in *inst) error {
			n, err := in.l.Len(bg, in.st)
			if err == nil && n != len(in.m.m) {
				return silent(fmt.Errorf("%d elements reported", n))
			}
			return err
		}),
		fread("verify", func(in *inst) error {
			if err := in.l.Verify(bg, in.st); err != nil {
				return err
			}
			return in.l.VerifyElements(bg, in.st)
		}),
		fread("backup", func(in *inst) error {
			b, err := listBytes(in)
			if err != nil {
				return err
			}
			in.st.Fault = nil
			id := rankdb.ListID("restored")
			l, err := rankdb.RestoreList(bg, in.st, rankdb.NewReaderMsgp(b), nil, &id)
			if err != nil {
				return silent(err)
			}
			x := &inst{st: in.st, l: l, mgr: in.mgr, m: in.m.clone(), aux: map[string]any{}}
			return silent(checkHealthy(x))
		}),
		fread("clone", func(in *inst) error {
			l, err := rankdb.NewList(bg, "clone", lset, in.st, rankdb.WithListOption.MergeSplitSize(1, 3), rankdb.WithListOption.Clone(in.l))
			if err != nil {
				return err
			}
			in.st.Fault = nil
			x := &inst{st: in.st, l: l, mgr: in.mgr, m: in.m.clone(), aux: map[string]any{}}
			return silent(checkHealthy(x))
		}),
		{name: "new list", read: true, do: func(in *inst) error {
			e := []rankdb.Element{el(1, 1, 0, 1), el(2, 1, 0, 1), el(3, 2, 0, 1), el(4, 1, 1, 1)}
			l, err := rankdb.NewList(bg, "other", lset, in.st, rankdb.WithListOption.MergeSplitSize(1, 3))
			if err != nil {
				return err
			}
			if err := l.Populate(bg, in.st, cloneElems(e)); err != nil {
				// As good as new after a retry.
				in.st.Fault = nil
				if err := l.Populate(bg, in.st, cloneElems(e)); err != nil {
					return silent(fmt.Errorf("populating again: %v", err))
				}
			}
			in.st.Fault = nil
			x := &inst{st: in.st, l: l, mgr: in.mgr, m: newModel(), aux: map[string]any{}}
			x.m.put(e...)
			return silent(checkHealthy(x))
		}},
		{name: "save", read: true, do: func(in *inst) error { return in.mgr.SaveLists(bg, false) }},
	}
}

// checkPartial verifies the content after a failed and repaired operation.
func checkPartial(in *inst, o *fop, before *model) error {
	if err := in.l.Verify(bg, in.st); err != nil {
		return fmt.Errorf("Verify: %v", err)
	}
	if err := in.l.VerifyElements(bg, in.st); err != nil {
		return fmt.Errorf("VerifyElements: %v", err)
	}
	got, err := in.l.GetRankTop(bg, in.st, 0, 1000)
	if err != nil && err != rankdb.ErrOffsetOutOfBounds {
		return err
	}
	touched := map[rankdb.ElementID]bool{}
	for _, id := range o.touched {
		touched[id] = true
	}
	m := newModel()
	for _, g := range got {
		if _, ok := m.m[g.ID]; ok {
			return fmt.Errorf("element %d is in the list twice: %s", g.ID, ess(got))
		}
		m.put(g)
		b, ok := before.m[g.ID]
		good := ok && eqElem(b, g)
		for _, a := range o.after {
			good = good || eqElem(a, g)
		}
		if !good {
			return fmt.Errorf("element %s was never written", es(g))
		}
	}
	if !o.all {
		for id, e := range before.m {
			if _, ok := m.m[id]; !ok && !touched[id] {
				return fmt.Errorf("element %s is lost, the list is %s", es(e), ess(got))
			}
		}
	}
	in.m = m
	return checkHealthy(in)
}

// usable performs a few operations.
func usable(in *inst) error {
	for _, o := range []op{opUpdate(el(4, 44, 0, 9), el(10, 1, 0, 9)), opDelete(2), opSplit, opInsert(el(11, 42, 0, 9))} {
		if err := o.do(in); err != nil {
			return fmt.Errorf("%s: %v", o.name, err)
		}
		if err := checkHealthy(in); err != nil {
			return fmt.Errorf("after %s: %v", o.name, err)
		}
	}
	return nil
}

// fault runs the operation on a copy of the state with faults from call n on.
// With again the operation is then repeated without faults.
func (in *inst) fault(o *fop, n int, once bool, kinds string, warm, again bool) (fired bool, err error) {
	f := &inst{st: in.st.Clone(), m: in.m.clone(), merge: in.merge, split: in.split, loadI: in.loadI, aux: map[string]any{}, l: in.l}
	if hc, ok := in.cache.(*h.Cache); ok && hc != nil {
		f.cache = h.NewCache(hc.Cap)
	}
	if f.mgr, err = rankdb.NewManager(f.st, "meta"); err != nil {
		return false, err
	}
	if err := f.mgr.LoadLists(bg, f.cache); err != nil {
		return false, err
	}
	l, ok := f.mgr.Lists.ByID(in.l.ID)
	if !ok {
		return false, fmt.Errorf("the list is missing")
	}
	f.l = l
	vsched.Quiesce(0)
	if warm {
		if _, err := f.l.GetRankTop(bg, f.st, 0, 100); err != nil && err != rankdb.ErrOffsetOutOfBounds {
			return false, err
		}
	}
	if o.ok != nil && !o.ok(f) {
		return false, nil
	}
	before := f.m.clone()
	calls := 0
	f.st.Fault = func(_ int, kind byte, set, key string) error {
		if !strings.ContainsRune(kinds, rune(kind)) {
			return nil
		}
		calls++
		if calls-1 == n || calls-1 > n && !once {
			fired = true
			return h.ErrInjected
		}
		return nil
	}
	opErr := o.do(f)
	f.st.Fault = nil
	if !fired {
		return false, nil
	}
	var s errSilent
	if errors.As(opErr, &s) {
		return fired, fmt.Errorf("reports success, but: %v", s.error)
	}
	if opErr == nil {
		if err := checkHealthy(f); err != nil {
			return fired, fmt.Errorf("reports success, but then: %v", err)
		}
		if err := f.reload(); err != nil {
			return fired, err
		}
		if err := checkHealthy(f); err != nil {
			return fired, fmt.Errorf("reports success, but after a reload: %v", err)
		}
		return fired, usable(f)
	}
	if again {
		if err := f.again(o, before); err != nil {
			return fired, fmt.Errorf("returned %q; repeated without faults it succeeds, but %v", opErr, err)
		}
		return fired, nil
	}
	// The same in a fresh process.
	r := &inst{st: f.st.Clone(), m: f.m.clone(), merge: in.merge, split: in.split, loadI: in.loadI, aux: map[string]any{}, cache: f.cache, l: f.l}
	live := f.mgr.Storage
	f.mgr.Storage = r.st
	r.mgr = f.mgr
	err = r.reload()
	f.mgr.Storage = live
	if err != nil {
		return fired, fmt.Errorf("returned %q; reloading: %v", opErr, err)
	}
	for i, x := range []*inst{f, r} {
		where := []string{"", ", in a fresh process"}[i]
		if o.read {
			// A failed read changes nothing.
			if err := checkHealthy(x); err != nil {
				return fired, fmt.Errorf("returned %q; then%s: %v", opErr, where, err)
			}
		}
		if err := x.l.Repair(bg, x.st, false); err != nil {
			return fired, fmt.Errorf("returned %q; then%s Repair: %v", opErr, where, err)
		}
		if err := checkPartial(x, o, before); err != nil {
			return fired, fmt.Errorf("returned %q; after a repair%s: %v", opErr, where, err)
		}
		if err := usable(x); err != nil {
			return fired, fmt.Errorf("returned %q; after a repair%s: %v", opErr, where, err)
		}
	}
	return fired, nil
}

// again repeats an operation that has failed. If that is reported as a success it must be one.
func (in *inst) again(o *fop, before *model) error {
	var s errSilent
	err := o.do(in)
	if errors.As(err, &s) {
		// The ranks before the operation include what the failed one has done.
		in.m.put(cloneElems(o.after)...)
	} else if err != nil {
		return nil
	}
	done := func() error {
		ids := append([]rankdb.ElementID{}, o.touched...)
		got, err := in.l.GetElements(bg, in.st, ids, 0)
		if err != nil {
			return fmt.Errorf("GetElements: %v", err)
		}
		if len(got) != len(o.after) {
			return fmt.Errorf("%d of the elements are found, want %d", len(got), len(o.after))
		}
		for _, g := range got {
			if w, ok := in.m.m[g.ID]; !ok || !eqElem(g.Element, w) {
				return fmt.Errorf("element %s is found, want %s", es(g.Element), es(w))
			}
		}
		return nil
	}
	if err := done(); err != nil {
		return err
	}
	if err := in.reload(); err != nil {
		return fmt.Errorf("reload: %v", err)
	}
	if err := done(); err != nil {
		return fmt.Errorf("after a reload: %v", err)
	}
	for _, a := range o.after {
		if b, ok := before.m[a.ID]; ok && b.Updated >= a.Updated {
			// If the other is still there, a repair keeps that.
			return nil
		}
	}
	if err := in.l.Repair(bg, in.st, false); err != nil {
		return fmt.Errorf("Repair: %v", err)
	}
	if err := checkHealthy(in); err != nil {
		return fmt.Errorf("after a reload and a repair: %v", err)
	}
	return nil
}

func worlds18(c *h.Ctx, fops []fop, each func(o *fop, n int, mode string, err error)) []*world {
	six := []rankdb.Element{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)}
	tied := []rankdb.Element{el(1, 40, 2, 1), el(2, 40, 2, 2), el(3, 40, 2, 3), el(4, 40, 1, 1), el(5, 40, 1, 1), el(6, 40, 0, 1), el(7, 40, 0, 2)}
	check := func(w *world, in *inst, c *h.Ctx) error {
		hash, err := in.canon()
		if err != nil {
			return err
		}
		if int(hash%uint64(c.NShards)) != c.Shard {
			return nil
		}
		if err := in.mgr.SaveLists(bg, false); err != nil {
			return err
		}
		var first error
	ops:
		for i := range fops {
			o := &fops[i]
			for _, warm := range []bool{false, true} {
				if warm && in.cache == nil {
					// Nothing but the segments stays in memory.
					if !(in.m != nil && len(in.m.m)%2 == 0) {
						continue
					}
				}
				for _, kinds := range []string{"SGD", "S"} {
					for mode := 0; mode < 3; mode++ {
						once, again := mode != 1, mode == 2
						if again && (kinds == "S" || o.read || o.all || o.after == nil && o.touched == nil) {
							continue
						}
						for n := 0; ; n++ {
							if c.Expired() {
								return nil
							}
							w.note = fmt.Sprintf("%s with storage call %d (of %s) failing (once=%v, loaded=%v, repeated=%v)", o.name, n, kinds, once, warm, again)
							fired, err := in.fault(o, n, once, kinds, warm, again)
							if !fired && err == nil {
								w.note = ""
								break
							}
							c.Trace(1)
							c.Trans(1)
							if err != nil {
								err = fmt.Errorf("%s: %v", w.note, err)
								w.note = ""
								if os.Getenv("VH_KEEP") == "" {
									return err
								}
								fmt.Fprintln(os.Stderr, "C18:", err)
								if first == nil {
									first = err
								}
								continue ops
							}
						}
					}
				}
			}
		}
		return first
	}
	mk := func(name string, merge, split, cache, pol, depth int, noload bool) *world {
		var w *world
		w = &world{name: name, merge: merge, split: split, cache: cache, pol: pol, depth: depth, noLoadIdx: noload, lazy: true, shared: 9,
			check: func(in *inst, c *h.Ctx) error { return check(w, in, c) },
			init:  []op{initNew(), initNew(six...), initNew(tied...), initBuilt("new+insert6", initNew(), opInsert(six...)), initBuilt("new+insert tied", initNew(), opInsert(tied...))},
			ops: []op{
				opUpdate(el(1, 10, 0, 2), el(7, 45, 0, 2)),
				opUpdate(el(2, math.MaxUint64, 0, 3), el(3, 40, 0, 2)),
				opInsert(el(0, 40, 0, 2), el(9, 41, 0, 2)),
				opDelete(3, 4), opDelete(1, 2, 5),
				opSplit, opReindex,
			}}
		return w
	}
	d := h.Pick(c, 1, 3)
	return []*world{
		mk("faults", 2, 4, -1, 0, d, true),
		mk("faults, cached", 2, 4, 0, 1, d, false),
		mk("faults, small segments", 1, 2, 3, 2, d, true),
		mk("faults, tiny segments", 0, 1, -1, 0, d, false),
	}
}

func c18(c *h.Ctx) {
	for _, w := range worlds18(c, fops18(), nil) {
		if c.Stopped() || c.Expired() {
			return
		}
		w.explore(c)
	}
}
