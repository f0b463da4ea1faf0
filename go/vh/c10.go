//go:build go1.21

package main

import (
	"errors"
	"fmt"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
)

// on runs an operation on the clone instead of the source.
func on(o op) op {
	ok := o.ok
	do := o.do
	o.name = "clone." + o.name
	o.ok = func(in *inst) bool { return in.sub != nil && !in.sub.gone && (ok == nil || ok(in.sub)) }
	o.do = func(in *inst) error { return do(in.sub) }
	return o
}

// src restricts an operation to a source that exists.
func src(o op) op {
	ok := o.ok
	o.ok = func(in *inst) bool { return !in.gone && (ok == nil || ok(in)) }
	return o
}

// opClone clones the source into a new list.
func opClone(merge, split int, set string) op {
	return op{name: fmt.Sprintf("clone(merge=%d split=%d set=%s)", merge, split, set),
		ok: func(in *inst) bool { return in.sub == nil && !in.gone },
		do: func(in *inst) error {
			sub := &inst{st: in.st, cache: in.cache, mgr: in.mgr, merge: merge, split: split, loadI: in.loadI, m: in.m.clone(), aux: map[string]any{}}
			l, err := rankdb.NewList(bg, "clone", set, in.st, sub.opts(rankdb.WithListOption.Clone(in.l), rankdb.WithListOption.Metadata(map[string]string{"of": "list"}))...)
			if err != nil {
				return err
			}
			if l.MergeSize != merge || l.SplitSize != split || l.Set != set || l.ID != "clone" || l.LoadIndex != in.loadI || len(l.Metadata) != 1 || l.Metadata["of"] != "list" {
				return fmt.Errorf("the clone does not have its own settings: id %s set %s merge %d split %d metadata %v", l.ID, l.Set, l.MergeSize, l.SplitSize, l.Metadata)
			}
			sub.l = l
			in.mgr.Lists.Add(l)
			in.sub = sub
			return nil
		}}
}

var opDeleteList = op{name: "delete list", do: func(in *inst) error {
	if err := in.mgr.DeleteList(bg, in.l.ID); err != nil {
		return err
	}
	in.gone = true
	in.m = newModel()
	return nil
}}

var opReloadBoth = op{name: "reload", do: func(in *inst) error {
	if in.gone {
		in.l = in.sub.l
	}
	if err := in.reload(); err != nil {
		return err
	}
	if in.sub != nil && !in.sub.gone {
		l, ok := in.mgr.Lists.ByID("clone")
		if !ok {
			return errors.New("clone missing after reload")
		}
		in.sub.l, in.sub.mgr, in.sub.cache = l, in.mgr, in.cache
	}
	return nil
}, ok: func(in *inst) bool { return !in.gone || in.sub != nil && !in.sub.gone }}

// checkBoth checks content and consistency of source and clone.
func checkBoth(in *inst, c *h.Ctx) error {
	if in.sub == nil {
		return nil // states without clone belong to other properties
	}
	for i, x := range []*inst{in, in.sub} {
		what := []string{"source", "clone"}[i]
		if x.gone {
			continue
		}
		if err := checkHealthy(x); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
	}
	return nil
}

func worlds10(c *h.Ctx) []*world {
	six := []rankdb.Element{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)}
	ties := []rankdb.Element{el(1, 40, 2, 1), el(2, 40, 2, 2), el(3, 40, 1, 3), el(4, 40, 1, 1), el(5, 40, 0, 1), el(6, 40, 0, 1), el(7, 40, 0, 2)}
	both := []op{
		opUpdate(el(1, 10, 0, 2), el(7, 45, 0, 2)),
		opUpdate(el(2, 70, 0, 3)),
		opInsert(el(0, 40, 0, 2)),
		opDelete(3, 4),
		opPopulate(el(5, 30, 0, 4), el(6, 35, 0, 4)),
		opSplit, opReindex, opRelease, opRepair, opDeleteList,
	}
	mk := func(name string, merge, split, cache, pol int, clones ...op) *world {
		var ops []op
		for _, o := range both {
			if o.name != opDeleteList.name {
				ops = append(ops, src(o))
			} else {
				o = src(o)
				ok := o.ok
				o.ok = func(in *inst) bool { return ok(in) && in.sub != nil }
				ops = append(ops, o)
			}
		}
		ops = append(ops, opReloadBoth)
		ops = append(ops, clones...)
		for _, o := range both {
			ops = append(ops, on(o))
		}
		return &world{name: name, merge: merge, split: split, cache: cache, pol: pol, depth: h.Pick(c, 4, 5), ops: ops,
			init:  []op{initNew(), initNew(six...), initBuilt("new+insert6", initNew(), opInsert(six...)), initNew(ties...)},
			check: checkBoth}
	}
	return []*world{
		mk("clone same settings", 2, 4, -1, 0, opClone(2, 4, lset), opClone(2, 4, "set2")),
		mk("clone same settings, cached", 2, 4, 0, 1, opClone(2, 4, lset), opClone(2, 4, "set2")),
		mk("clone smaller", 4, 8, 0, 0, opClone(1, 2, lset), opClone(0, 1, lset)),
		mk("clone larger", 1, 2, 1, 1, opClone(3, 6, lset), opClone(5, 50, "set2")),
	}
}

// cClone clones the list while other operations run; the clone must be a state the list
// went through.
func cClone(merge, split int) cop {
	return cop{name: fmt.Sprintf("clone(%d/%d)", merge, split), do: func(in *inst, r *cres) error {
		o := []rankdb.ListOption{rankdb.WithListOption.MergeSplitSize(merge, split), rankdb.WithListOption.LoadIndex(false), rankdb.WithListOption.Clone(in.l)}
		if in.cache != nil {
			o = append(o, rankdb.WithListOption.Cache(in.cache))
		}
		l, err := rankdb.NewList(bg, "clone", lset, in.st, o...)
		if err != nil {
			return err
		}
		in.aux["clone"] = l
		return nil
	}}
}

func checkCloneSnapshot(p *cprog) func(in *inst) error {
	return func(in *inst) error {
		l, ok := in.aux["clone"].(*rankdb.List)
		if !ok {
			return errors.New("no clone made")
		}
		return p.checkSnapshot(in, l, "clone")
	}
}

func progs10() (core, ps []*cprog) {
	base := []rankdb.Element{el(1, 80, 0, 1), el(2, 70, 0, 1), el(3, 60, 0, 1), el(4, 50, 0, 1), el(5, 40, 0, 1), el(6, 30, 0, 1), el(7, 20, 0, 1), el(8, 10, 0, 1)}
	T := func(o ...cop) []cop { return o }
	mk := func(name string, cache int, init []op, threads ...[]cop) *cprog {
		p := &cprog{name: name, merge: 2, split: 4, cache: cache, init: init, threads: threads, noLoad: true}
		p.after = checkCloneSnapshot(p)
		return p
	}
	large := []op{initNew(base...)}
	small := []op{initNew(base[:5]...)}
	grown := []op{initBuilt("grown", initNew(), opInsert(base...))}
	for _, cache := range []int{-1, 0} {
		ps = append(ps,
			mk("clone-move", cache, large, T(cClone(2, 4)), T(cUpdate(false, 0, el(1, 15, 0, 2)), cUpdate(false, 0, el(8, 75, 0, 2)))),
			mk("clone-insert-delete", cache, large, T(cClone(2, 4)), T(cInsert(el(9, 65, 0, 2)), cDelete(7)), T(cDelete(1))),
			mk("clone-split-update", cache, grown, T(cClone(1, 3)), T(cSplit), T(cUpdate(false, 0, el(1, 15, 0, 2)))),
			mk("clone-release-update", cache, large, T(cClone(3, 6)), T(cRelease), T(cUpdate(false, 0, el(1, 15, 0, 2)))),
			mk("clone-reindex-delete", cache, large, T(cClone(3, 6)), T(cReindex), T(cDelete(1, 8))),
			mk("clone-repair-get", cache, large, T(cClone(3, 6)), T(cRepair), T(cGet(1, base[3:4], 4))),
		)
		core = append(core,
			mk("small clone-move", cache, small, T(cClone(2, 4)), T(cUpdate(false, 0, el(1, 15, 0, 2)))),
			mk("small clone-delete", cache, small, T(cClone(2, 4)), T(cDelete(1, 5))),
			mk("small clone-split", cache, []op{initBuilt("grown", initNew(), opInsert(base[:5]...))}, T(cClone(2, 4)), T(cSplit)),
		)
	}
	return core, ps
}

func c10(c *h.Ctx) {
	for _, w := range worlds10(c) {
		w.explore(c)
		if c.Stopped() || c.Expired() {
			return
		}
	}
	core, ps := progs10()
	runProgs(c, core, ps)
}
