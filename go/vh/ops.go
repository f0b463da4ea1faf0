//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
)

func names(es []rankdb.Element) string {
	var s []string
	for _, e := range es {
		s = append(s, fmt.Sprintf("%d:%d/%d@%d", e.ID, e.Score, e.TieBreaker, e.Updated))
	}
	if len(s) > 8 {
		return fmt.Sprintf("%d elements %s..%s", len(s), s[0], s[len(s)-1])
	}
	return strings.Join(s, ",")
}

func initNew(e ...rankdb.Element) op {
	return op{name: "new(" + names(e) + ")", do: func(in *inst) error {
		if err := in.start(); err != nil {
			return err
		}
		l, err := rankdb.NewList(bg, "list", lset, in.st, in.opts()...)
		if err != nil {
			return err
		}
		in.l = l
		in.mgr.Lists.Add(l)
		if len(e) > 0 {
			if err := l.Populate(bg, in.st, cloneElems(e)); err != nil {
				return err
			}
			in.m.put(cloneElems(e)...)
		}
		return nil
	}}
}

// initBuilt creates a list by inserting, then splitting.
func initBuilt(name string, ops ...op) op {
	return op{name: name, do: func(in *inst) error {
		for _, o := range ops {
			if err := o.do(in); err != nil {
				return fmt.Errorf("%s: %v", o.name, err)
			}
		}
		return nil
	}}
}

func opUpdate(e ...rankdb.Element) op {
	return op{name: "update(" + names(e) + ")", upd: e, do: func(in *inst) error {
		r, err := in.l.UpdateElements(bg, in.st, cloneElems(e), 0, false)
		if err != nil {
			return err
		}
		if len(r) != 0 {
			return fmt.Errorf("results returned though not requested")
		}
		in.m.put(cloneElems(e)...)
		return nil
	}}
}

func opInsert(e ...rankdb.Element) op {
	return op{name: "insert(" + names(e) + ")",
		ok: func(in *inst) bool {
			for _, x := range e {
				if _, ok := in.m.m[x.ID]; ok {
					return false
				}
			}
			return true
		},
		do: func(in *inst) error {
			if err := in.l.Insert(bg, in.st, cloneElems(e)); err != nil {
				return err
			}
			in.m.put(cloneElems(e)...)
			return nil
		}}
}

func opDelete(ids ...rankdb.ElementID) op {
	return op{name: fmt.Sprint("delete", ids), do: func(in *inst) error {
		in.m.del(ids...)
		return in.l.DeleteElements(bg, in.st, append([]rankdb.ElementID{}, ids...))
	}}
}

func opPopulate(e ...rankdb.Element) op {
	return op{name: "populate(" + names(e) + ")", do: func(in *inst) error {
		in.m = newModel()
		in.m.put(cloneElems(e)...)
		return in.l.Populate(bg, in.st, cloneElems(e))
	}}
}

var opSplit = op{name: "split", do: func(in *inst) error { return in.l.ForceSplit(bg, in.st) }}
var opReindex = op{name: "reindex", do: func(in *inst) error { return in.l.Reindex(bg, in.st) }}
var opRelease = op{name: "release", do: func(in *inst) error { in.l.ReleaseSegments(bg); return nil }}
var opRepair = op{name: "repair", do: func(in *inst) error { return in.l.Repair(bg, in.st, false) }}
var opRepairClear = op{name: "repair(clear)", do: func(in *inst) error { return in.l.Repair(bg, in.st, true) }}
var opDeleteAll = op{name: "deleteAll+repair", do: func(in *inst) error {
	in.m = newModel()
	if err := in.l.DeleteAll(bg, in.st); err != nil {
		return err
	}
	return in.l.Populate(bg, in.st, nil)
}}

// reload replaces the live list by one decoded from saved list metadata.
func (in *inst) reload() error {
	if err := in.mgr.SaveLists(bg, false); err != nil {
		return err
	}
	// A fresh process has a fresh cache.
	if hc, ok := in.cache.(*h.Cache); ok && hc != nil {
		in.cache = h.NewCache(hc.Cap)
	}
	if cc, ok := in.cache.(*cntCache); ok {
		in.cache = &cntCache{Cache: h.NewCache(cc.Cache.(*h.Cache).Cap)}
	}
	m, err := rankdb.NewManager(in.st, "meta")
	if err != nil {
		return err
	}
	if err := m.LoadLists(bg, in.cache); err != nil {
		return err
	}
	in.mgr = m
	dst := m.Lists
	l, ok := dst.ByID(in.l.ID)
	if !ok {
		return fmt.Errorf("list missing after reload")
	}
	in.l = l
	return nil
}

var opReload = op{name: "reload", do: func(in *inst) error { return in.reload() }}

// start creates the manager.
func (in *inst) start() error {
	m, err := rankdb.NewManager(in.st, "meta")
	if err != nil {
		return err
	}
	if err := m.NewLists(in.cache); err != nil {
		return err
	}
	in.mgr = m
	return nil
}
