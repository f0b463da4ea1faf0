//go:build go1.21

package main

import (
	"fmt"
	"math"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// boot loads the directory of the store in a fresh process.
func boot(st *h.Store, src *inst, id rankdb.ListID) (*inst, error) {
	r := &inst{st: st, m: src.m.clone(), merge: src.merge, split: src.split, loadI: src.loadI, aux: map[string]any{}}
	if hc, ok := src.cache.(*h.Cache); ok && hc != nil {
		r.cache = h.NewCache(hc.Cap)
	}
	var err error
	if r.mgr, err = rankdb.NewManager(r.st, "meta"); err != nil {
		return nil, err
	}
	if err := r.mgr.LoadLists(bg, r.cache); err != nil {
		return nil, fmt.Errorf("loading the lists: %v", err)
	}
	vsched.Quiesce(0)
	r.l, _ = r.mgr.Lists.ByID(id)
	return r, nil
}

// abuse uses a list that is not repaired. Only returning is required.
func abuse(in *inst, write bool) {
	in.l.GetRankTop(bg, in.st, 0, 10)
	in.l.GetRankBottom(bg, in.st, 1, 10)
	in.l.GetElements(bg, in.st, ids8, 2)
	in.l.GetRankScoreDesc(bg, in.st, 40, 3)
	in.l.GetPercentile(bg, in.st, 0.5, 1)
	in.l.Stats(bg, in.st, true)
	in.l.Verify(bg, in.st)
	in.l.VerifyElements(bg, in.st)
	if !write {
		return
	}
	in.l.UpdateElements(bg, in.st, rankdb.Elements{el(1, 12, 0, 20), el(4, 90, 0, 20), el(20, 40, 1, 20)}, 1, true)
	in.l.DeleteElements(bg, in.st, []rankdb.ElementID{3, 20})
	in.l.ForceSplit(bg, in.st)
	in.l.GetElements(bg, in.st, ids8, 2)
	in.l.Insert(bg, in.st, rankdb.Elements{el(21, 40, 0, 20)})
}

// recovers verifies one crashed state.
// before is the content before the operations.
func recovers(src *inst, st *h.Store, os []*fop, before *model) error {
	for mode := 0; mode < 3; mode++ {
		r, err := boot(st.Clone(), src, src.l.ID)
		if err != nil {
			return err
		}
		if r.l == nil {
			return fmt.Errorf("the list is not in the directory")
		}
		if mode > 0 {
			abuse(r, mode == 2)
		}
		if err := r.l.Repair(bg, r.st, false); err != nil {
			return fmt.Errorf("repair (mode %d): %v", mode, err)
		}
		u := fop{touched: nil}
		for _, o := range os {
			u.touched = append(u.touched, o.touched...)
			u.after = append(u.after, o.after...)
			// The directory refers to the segments that were replaced.
			u.all = u.all || o.all || o.rebuild
		}
		if mode == 2 {
			u.all = true
			u.after = append(u.after, el(1, 12, 0, 20), el(4, 90, 0, 20), el(20, 40, 1, 20), el(21, 40, 0, 20))
		}
		if err := checkPartial(r, &u, before); err != nil {
			return fmt.Errorf("after a repair (mode %d): %v", mode, err)
		}
		if mode == 2 {
			continue
		}
		if err := usable(r); err != nil {
			return fmt.Errorf("after a repair (mode %d): %v", mode, err)
		}
		if err := r.reload(); err != nil {
			return err
		}
		if err := checkHealthy(r); err != nil {
			return fmt.Errorf("after a repair and a reload (mode %d): %v", mode, err)
		}
	}
	return nil
}

// crash runs the operation and a save of the directory on a copy of the state
// and verifies every prefix of the writes.
func (in *inst) crash(c *h.Ctx, o *fop, warm bool, each func(k int, op string)) error {
	f, err := boot(in.st.Clone(), in, in.l.ID)
	if err != nil {
		return err
	}
	if warm {
		if _, err := f.l.GetRankTop(bg, f.st, 0, 100); err != nil && err != rankdb.ErrOffsetOutOfBounds {
			return err
		}
	}
	if o.ok != nil && !o.ok(f) {
		return nil
	}
	before := f.m.clone()
	base := f.st.Clone()
	f.st.Record, f.st.Ops = true, nil
	if err := o.do(f); err != nil {
		return err
	}
	if err := f.mgr.SaveLists(bg, false); err != nil {
		return err
	}
	f.st.Record = false
	muts := f.st.Mutations()
	for k := 0; k <= len(muts); k++ {
		if k > 0 {
			base.Apply(muts[k-1])
		}
		s := "end"
		if k < len(muts) {
			s = muts[k].String()
		}
		each(k, s)
		if err := recovers(f, base, []*fop{o}, before); err != nil {
			return err
		}
		c.Trace(1)
		c.Trans(1)
	}
	return nil
}

func fops19() []fop {
	var r []fop
	for _, o := range fops18() {
		if o.read {
			continue
		}
		switch o.name {
		case "new list", "clone", "backup", "repair(clear)", "save":
			continue
		}
		r = append(r, o)
	}
	return r
}

// dirOps are operations on other lists.
type dirOp struct {
	name string
	id   rankdb.ListID
	pre  func(in *inst) error
	do   func(in *inst) error
}

func dirOps() []dirOp {
	e := []rankdb.Element{el(1, 1, 0, 1), el(2, 1, 0, 1), el(3, 2, 0, 1), el(4, 1, 1, 1)}
	add := func(in *inst, l *rankdb.List, err error) error {
		if err != nil {
			return err
		}
		in.mgr.Lists.Add(l)
		return in.mgr.SaveLists(bg, false)
	}
	create := func(in *inst) error {
		l, err := rankdb.NewList(bg, "other", lset, in.st, rankdb.WithListOption.MergeSplitSize(1, 3), rankdb.WithListOption.Populate(cloneElems(e)))
		return add(in, l, err)
	}
	var list []byte
	return []dirOp{
		{name: "new list", id: "other", do: create},
		{name: "clone", id: "other", do: func(in *inst) error {
			l, err := rankdb.NewList(bg, "other", lset, in.st, rankdb.WithListOption.MergeSplitSize(1, 3), rankdb.WithListOption.Clone(in.l))
			return add(in, l, err)
		}},
		{name: "delete list", id: "other", pre: create, do: func(in *inst) error {
			if err := in.mgr.DeleteList(bg, "other"); err != nil {
				return err
			}
			return in.mgr.SaveLists(bg, false)
		}},
		{name: "replace list", id: "other", pre: create, do: func(in *inst) error {
			// The way the API replaces lists.
			old, _ := in.mgr.Lists.ByID("other")
			l, err := rankdb.NewList(bg, "other", lset, in.st, rankdb.WithListOption.Populate(rankdb.Elements{el(7, 7, 7, 7)}))
			if err != nil {
				return err
			}
			if err := old.DeleteAll(bg, in.st); err != nil {
				return err
			}
			return add(in, l, nil)
		}},
		{name: "restore", id: "other", pre: func(in *inst) (err error) {
			list, err = listBytes(in)
			return
		}, do: func(in *inst) error {
			id := rankdb.ListID("other")
			l, err := rankdb.RestoreList(bg, in.st, rankdb.NewReaderMsgp(list), in.cache, &id)
			return add(in, l, err)
		}},
	}
}

// crashDir interrupts an operation on another list.
func (in *inst) crashDir(c *h.Ctx, o *dirOp, each func(k int, op string)) error {
	f, err := boot(in.st.Clone(), in, in.l.ID)
	if err != nil {
		return err
	}
	if o.pre != nil {
		if err := o.pre(f); err != nil {
			return err
		}
	}
	// want are the elements of the other list before and after.
	want := newModel()
	read := func() error {
		l, ok := f.mgr.Lists.ByID(o.id)
		if !ok {
			return nil
		}
		e, err := l.GetRankTop(bg, f.st, 0, 100)
		if err == rankdb.ErrOffsetOutOfBounds {
			err = nil
		}
		want.put(e...)
		return err
	}
	if err := read(); err != nil {
		return err
	}
	base := f.st.Clone()
	f.st.Record, f.st.Ops = true, nil
	if err := o.do(f); err != nil {
		return err
	}
	f.st.Record = false
	muts := f.st.Mutations()
	if err := read(); err != nil {
		return err
	}
	for k := 0; k <= len(muts); k++ {
		if k > 0 {
			base.Apply(muts[k-1])
		}
		s := "end"
		if k < len(muts) {
			s = muts[k].String()
		}
		each(k, s)
		c.Trace(1)
		c.Trans(1)
		r, err := boot(base.Clone(), f, f.l.ID)
		if err != nil {
			return err
		}
		if r.l == nil {
			return fmt.Errorf("the list is missing")
		}
		if err := checkHealthy(r); err != nil {
			return fmt.Errorf("another list: %v", err)
		}
		l, ok := r.mgr.Lists.ByID(o.id)
		if !ok {
			continue
		}
		x := &inst{st: r.st, l: l, mgr: r.mgr, m: want.clone(), aux: map[string]any{}}
		abuse(x, false)
		if err := l.Repair(bg, r.st, false); err != nil {
			return fmt.Errorf("repair: %v", err)
		}
		if err := checkPartial(x, &fop{all: true}, want); err != nil {
			return fmt.Errorf("after a repair: %v", err)
		}
		if err := usable(x); err != nil {
			return fmt.Errorf("after a repair: %v", err)
		}
		if err := checkHealthy(r); err != nil {
			return fmt.Errorf("another list, after a repair: %v", err)
		}
	}
	return nil
}

func worlds19(c *h.Ctx) []*world {
	fops := fops19()
	dops := dirOps()
	six := []rankdb.Element{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)}
	tied := []rankdb.Element{el(1, 40, 2, 1), el(2, 40, 2, 2), el(3, 40, 2, 3), el(4, 40, 1, 1), el(5, 40, 1, 1), el(6, 40, 0, 1), el(7, 40, 0, 2)}
	check := func(w *world, in *inst, c *h.Ctx) error {
		hash, err := in.canon()
		if err != nil {
			return err
		}
		if int(hash%uint64(c.NShards)) != c.Shard {
			return nil
		}
		if err := in.mgr.SaveLists(bg, false); err != nil {
			return err
		}
		for i := range fops {
			o := &fops[i]
			for _, warm := range []bool{false, true} {
				if c.Expired() {
					return nil
				}
				if warm && in.cache == nil {
					continue
				}
				if err := in.crash(c, o, warm, func(k int, op string) {
					w.note = fmt.Sprintf("%s (loaded=%v), crash before write %d (%s)", o.name, warm, k, op)
				}); err != nil {
					return err
				}
			}
		}
		for i := range dops {
			o := &dops[i]
			if err := in.crashDir(c, o, func(k int, op string) {
				w.note = fmt.Sprintf("%s, crash before write %d (%s)", o.name, k, op)
			}); err != nil {
				return err
			}
		}
		w.note = ""
		return nil
	}
	mk := func(name string, merge, split, cache, pol, depth int, noload bool) *world {
		var w *world
		w = &world{name: name, merge: merge, split: split, cache: cache, pol: pol, depth: depth, noLoadIdx: noload, lazy: true, shared: 9,
			check: func(in *inst, c *h.Ctx) error { return check(w, in, c) },
			init:  []op{initNew(), initNew(six...), initNew(tied...), initBuilt("new+insert6", initNew(), opInsert(six...)), initBuilt("new+insert tied", initNew(), opInsert(tied...))},
			ops: []op{
				opUpdate(el(1, 10, 0, 2), el(7, 45, 0, 2)),
				opUpdate(el(2, math.MaxUint64, 0, 3), el(3, 40, 0, 2)),
				opInsert(el(0, 40, 0, 2), el(9, 41, 0, 2)),
				opDelete(3, 4), opDelete(1, 2, 5),
				opSplit, opReindex,
			}}
		return w
	}
	d := h.Pick(c, 1, 3)
	return []*world{
		mk("crash", 2, 4, -1, 0, d, true),
		mk("crash, cached", 2, 4, 0, 1, d, false),
		mk("crash, small segments", 1, 2, 3, 2, d, true),
		mk("crash, tiny segments", 0, 1, -1, 0, d, false),
	}
}

// prog19 interrupts concurrent operations.
type prog19 struct {
	merge, split, cache int
	ops                 []*fop
	seen                map[uint64]bool
	n                   *int64
}

func (p *prog19) name() string {
	s := fmt.Sprintf("crash of concurrent operations (merge=%d split=%d cache=%d)", p.merge, p.split, p.cache)
	for _, o := range p.ops {
		s += " || " + o.name
	}
	return s
}

func (p *prog19) body() (out string, err error) {
	in := &inst{st: h.NewStore(), m: newModel(), merge: p.merge, split: p.split, loadI: false, aux: map[string]any{}}
	if p.cache >= 0 {
		in.cache = h.NewCache(p.cache)
	}
	vsched.Frozen(func() {
		if err = initNew(el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)).do(in); err == nil {
			err = in.mgr.SaveLists(bg, false)
		}
	})
	if err != nil {
		return "", err
	}
	before := in.m.clone()
	base := in.st.Clone()
	in.st.Record, in.st.Ops = true, nil
	errs := make([]error, len(p.ops))
	var fns []func()
	for i := range p.ops {
		i := i
		fns = append(fns, func() { errs[i] = p.ops[i].do(in) })
	}
	h.Par(fns...)
	vsched.Frozen(func() {
		for i, e := range errs {
			if e != nil {
				err = fmt.Errorf("%s: %v", p.ops[i].name, e)
				return
			}
		}
		vsched.Quiesce(0)
		if err = in.mgr.SaveLists(bg, false); err != nil {
			return
		}
		in.st.Record = false
		muts := in.st.Mutations()
		for k := 0; k <= len(muts); k++ {
			if k > 0 {
				base.Apply(muts[k-1])
			}
			out += muts[max(k-1, 0)].String()
			hash := h.Hash(fmt.Sprint(base.M))
			if p.seen[hash] {
				continue
			}
			if err = recovers(in, base, p.ops, before); err != nil {
				err = fmt.Errorf("crash after write %d (%s): %v", k, muts[max(k-1, 0)], err)
				return
			}
			*p.n++
			p.seen[hash] = true
		}
	})
	return
}

func progs19(n *int64) []*prog19 {
	by := map[string]*fop{}
	all := fops18()
	for i := range all {
		by[all[i].name] = &all[i]
	}
	u1, u2, ins, del, del1, pop := &all[1], &all[2], &all[3], &all[4], &all[5], &all[6]
	split, reindex, repair, save := by["split"], by["reindex"], by["repair"], by["save"]
	release := &fop{name: "release", do: opRelease.do}
	var r []*prog19
	for _, t := range [][]*fop{
		{u1, u2}, {u1, ins}, {u1, del}, {ins, del1}, {u1, split}, {ins, split}, {del, split}, {u2, reindex}, {del, reindex},
		{u1, repair}, {ins, repair}, {u1, pop}, {u1, save}, {split, save}, {pop, save}, {repair, save}, {split, reindex}, {u2, release}, {u1, u2, split},
	} {
		for _, cache := range []int{-1, 0} {
			r = append(r, &prog19{merge: 2, split: 4, cache: cache, ops: t, seen: map[uint64]bool{}, n: n})
		}
		r = append(r, &prog19{merge: 1, split: 2, cache: 1, ops: t, seen: map[uint64]bool{}, n: n})
	}
	return r
}

func c19(c *h.Ctx) {
	var n int64
	var scs []h.Scenario
	for _, p := range progs19(&n) {
		scs = append(scs, h.Scenario{Name: p.name(), Body: p.body, Bound: h.Pick(c, 1, 2), Policies: []int{0, 1, 5}, MaxSteps: 2000000})
	}
	end := c.Deadline
	c.Deadline = time.Now().Add(time.Until(end) / 2)
	c.ExploreAll(scs)
	c.Deadline = end
	c.Count("crash states of concurrent operations", int(n))
	for _, w := range worlds19(c) {
		if c.Stopped() || c.Expired() {
			return
		}
		w.explore(c)
	}
}
