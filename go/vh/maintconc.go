//go:build go1.21

package main

import (
	"fmt"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
)

// cBackup backs the list up and remembers the data; the restored copy must be a state
// between two writes.
var cBackup = cop{name: "backup", do: func(in *inst, r *cres) error {
	w := rankdb.NewWriterMsg()
	defer w.Close()
	if err := in.l.Backup(bg, in.st, w); err != nil {
		return err
	}
	in.aux["backup"] = append([]byte{}, w.Buffer().Bytes()...)
	return nil
}}

// snapshots returns all contents that may be observed at some point of the program.
func (p *cprog) snapshots(base *model) map[string]bool {
	res := map[string]bool{}
	pos := make([]int, len(p.threads))
	var rec func(m *model)
	rec = func(m *model) {
		res[ess(m.sorted())] = true
		for t := range p.threads {
			if pos[t] < len(p.threads[t]) {
				o := p.threads[t][pos[t]]
				pos[t]++
				n := m
				if o.apply != nil {
					n = m.clone()
					o.apply(n)
				}
				rec(n)
				pos[t]--
			}
		}
	}
	rec(base)
	return res
}

// checkSnapshot verifies that l contains one of the states of the program.
func (p *cprog) checkSnapshot(in *inst, l *rankdb.List, what string) error {
	got, err := l.GetRankTop(bg, in.st, 0, 1000)
	if err == rankdb.ErrOffsetOutOfBounds {
		err = nil
	}
	if err != nil {
		return fmt.Errorf("reading %s: %v", what, err)
	}
	want := p.snapshots(in.m)
	if !want[ess(got)] {
		return fmt.Errorf("%s is not a state the list went through: %s\nstates: %v", what, ess(got), h.SortedKeys(want))
	}
	if err := l.Verify(bg, in.st); err != nil {
		return fmt.Errorf("%s: Verify: %v", what, err)
	}
	if err := l.VerifyElements(bg, in.st); err != nil {
		return fmt.Errorf("%s: VerifyElements: %v", what, err)
	}
	return nil
}

func checkBackupSnapshot(p *cprog) func(in *inst) error {
	return func(in *inst) error {
		b, ok := in.aux["backup"].([]byte)
		if !ok {
			return fmt.Errorf("no backup made")
		}
		id := rankdb.ListID("restored")
		l, err := rankdb.RestoreList(bg, in.st, rankdb.NewReaderMsgp(b), nil, &id)
		if err != nil {
			return fmt.Errorf("restoring backup made concurrently: %v", err)
		}
		return p.checkSnapshot(in, l, "restored backup")
	}
}

func progs13() []*cprog {
	base := []rankdb.Element{el(1, 80, 0, 1), el(2, 70, 0, 1), el(3, 60, 0, 1), el(4, 50, 0, 1), el(5, 40, 0, 1), el(6, 30, 0, 1), el(7, 20, 0, 1), el(8, 10, 0, 1)}
	stable := func(ids ...int) (r []rankdb.Element) {
		for _, i := range ids {
			r = append(r, base[i-1])
		}
		return
	}
	T := func(o ...cop) []cop { return o }
	up := func(e ...rankdb.Element) cop { return cUpdate(false, 0, e...) }
	// Unsplit list: one large segment each, so that split has work to do; and a list with
	// nearly empty segments, so that merging has work to do.
	var res []*cprog
	layouts := []struct {
		name         string
		merge, split int
		init         []op
	}{
		{"split", 2, 4, []op{initBuilt("grown", initNew(), opInsert(base...))}},
		{"merge", 5, 6, []op{initBuilt("shrunk", initNew(append(append([]rankdb.Element{}, base...), el(11, 75, 0, 1), el(12, 65, 0, 1), el(13, 55, 0, 1), el(14, 45, 0, 1), el(15, 35, 0, 1), el(16, 25, 0, 1), el(17, 15, 0, 1), el(18, 5, 0, 1))...),
			opDelete(11, 12, 13, 14, 15, 16, 17, 18))}},
	}
	add := func(lay int, name string, cache int, threads ...[]cop) *cprog {
		l := layouts[lay]
		p := &cprog{name: l.name + "/" + name, merge: l.merge, split: l.split, cache: cache, init: l.init, threads: threads, noLoad: true}
		res = append(res, p)
		return p
	}
	mix := up(el(1, 15, 0, 2), el(8, 75, 0, 2), el(9, 55, 0, 2))
	prune := cOp(op{name: "prune", do: func(in *inst) error { return in.mgr.Lists.Prune(bg) }})
	pop := cop{name: "populate(20:5)", do: func(in *inst, r *cres) error {
		return in.l.Populate(bg, in.st, rankdb.Elements{el(20, 5, 0, 9), el(21, 4, 0, 9)})
	}, apply: func(m *model) {
		m.m = map[rankdb.ElementID]rankdb.Element{}
		m.put(el(20, 5, 0, 9), el(21, 4, 0, 9))
	}}
	for _, cache := range []int{-1, 0} {
		for lay := range layouts {
			add(lay, "split-update", cache, T(cSplit), T(mix))
			add(lay, "split-get", cache, T(cSplit), T(cGet(2, stable(2, 7), 2, 7)))
			add(lay, "release-update", cache, T(cRelease), T(mix))
		}
		add(0, "split-delete-get", cache, T(cSplit), T(cDelete(1, 5)), T(cGet(0, stable(3), 3)))
		add(0, "reindex-update", cache, T(cReindex), T(mix))
		add(0, "reindex-get", cache, T(cReindex), T(cGet(1, stable(2, 7), 2, 7)))
		add(0, "reindex-insert-delete", cache, T(cReindex), T(cInsert(el(10, 33, 0, 1))), T(cDelete(2)))
		add(0, "repair-update", cache, T(cRepair), T(mix))
		add(0, "repair-get", cache, T(cRepair), T(cGet(1, stable(2, 7), 2, 7), cScore(45, 3)))
		add(0, "repair-stats-save", cache, T(cRepair), T(cStats), T(cSave))
		add(1, "release-get-update", cache, T(cRelease), T(cGet(1, stable(4), 4)), T(mix))
		add(1, "release-release-get", cache, T(cRelease, cRelease), T(cGet(1, stable(4), 4)), T(cPercentile(0.5, 1)))
		add(1, "prune-insert-split", cache, T(prune), T(cInsert(el(10, 33, 0, 1), el(19, 77, 0, 1))), T(cSplit))
		add(1, "save-update-split", cache, T(cSave), T(mix), T(cSplit))
		add(1, "verify-update", cache, T(cVerify), T(mix))
		add(1, "stats-delete-split", cache, T(cStats, cLen), T(cDelete(3, 4)), T(cSplit))
		add(1, "populate-update", cache, T(pop), T(mix))
		add(1, "populate-read", cache, T(pop), T(cTop(5), cGet(1, nil, 3)))
		p := add(0, "backup-update", cache, T(cBackup), T(mix))
		p.after = checkBackupSnapshot(p)
		p = add(1, "backup-split-delete", cache, T(cBackup), T(cSplit), T(cDelete(2, 3)))
		p.after = checkBackupSnapshot(p)
	}
	return res
}

// core13 are small programs explored with more deviations.
func core13() []*cprog {
	base := []rankdb.Element{el(1, 80, 0, 1), el(2, 70, 0, 1), el(3, 60, 0, 1), el(4, 50, 0, 1)}
	up := func(e ...rankdb.Element) cop { return cUpdate(false, 0, e...) }
	T := func(o ...cop) []cop { return o }
	layouts := []struct {
		name         string
		merge, split int
		init         []op
	}{
		{"split", 2, 3, []op{initBuilt("grown", initNew(), opInsert(base...))}},
		{"merge", 5, 6, []op{initBuilt("shrunk", initNew(append(append([]rankdb.Element{}, base...), el(11, 75, 0, 1), el(12, 65, 0, 1), el(13, 55, 0, 1), el(14, 45, 0, 1))...),
			opDelete(11, 12, 13, 14))}},
	}
	var res []*cprog
	for _, l := range layouts {
		add := func(name string, cache int, threads ...[]cop) {
			res = append(res, &cprog{name: "small " + l.name + "/" + name, merge: l.merge, split: l.split, cache: cache, init: l.init, threads: threads, noLoad: true})
		}
		for _, cache := range []int{-1, 0, h.Refuse(2)} {
			add("split-update", cache, T(cSplit), T(up(el(1, 55, 0, 2))))
			add("split-delete", cache, T(cSplit), T(cDelete(2)))
			add("split-top", cache, T(cSplit), T(cTop(4)))
			add("release-update", cache, T(cRelease), T(up(el(1, 55, 0, 2))))
			add("reindex-insert", cache, T(cReindex), T(cInsert(el(5, 65, 0, 2))))
			add("repair-delete", cache, T(cRepair), T(cDelete(2)))
			add("verify-update", cache, T(cVerify), T(up(el(1, 55, 0, 2))))
		}
	}
	return res
}

func c13(c *h.Ctx) { runProgs(c, core13(), progs13()) }
