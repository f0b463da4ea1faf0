//go:build go1.21

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
	"github.com/Vivino/rankdb/zz_verif/vzstd"
)

// compressionNone is the first byte of a stored directory that is not compressed.
const compressionNone, compressionZstd = 0x07, 0x17

const backupSet = "backups"

// lsettings are the settings of a list.
type lsettings struct {
	ID           rankdb.ListID
	Set          string
	Merge, Split int
	LoadIndex    bool
	Metadata     map[string]string
}

func settingsOf(l *rankdb.List) lsettings {
	return lsettings{l.ID, l.Set, l.MergeSize, l.SplitSize, l.LoadIndex, l.Metadata}
}

// dirSnap is what one stored copy of the directory describes.
type dirSnap struct {
	lists []lsettings
	// stale lists were restructured or deleted after the save: their content is not promised.
	stale map[rankdb.ListID]bool
	// torn copies are unreadable.
	torn bool
}

func (d *dirSnap) String() string {
	if d == nil {
		return "none"
	}
	var r []string
	for _, l := range d.lists {
		r = append(r, fmt.Sprint(l.ID, d.stale[l.ID]))
	}
	return fmt.Sprint(r, d.torn)
}

// dirState is the model of the stored directories of an inst.
type dirState struct {
	main, backup *dirSnap
}

func (in *inst) snapDir() *dirSnap {
	d := &dirSnap{stale: map[rankdb.ListID]bool{}}
	for _, x := range []*inst{in, in.sub} {
		if x != nil && !x.gone {
			d.lists = append(d.lists, settingsOf(x.l))
		}
	}
	return d
}

func (in *inst) stale(id rankdb.ListID) {
	for _, d := range []*dirSnap{in.dir.main, in.dir.backup} {
		if d != nil {
			d.stale[id] = true
		}
	}
}

// withDir keeps the directory model part of the state.
func withDir(o op) op {
	do := o.do
	o.do = func(in *inst) error {
		err := do(in)
		in.aux["dir"] = fmt.Sprint(in.dir.main, in.dir.backup)
		return err
	}
	return o
}

// restructures marks operations that give a list new segments.
func restructures(o op) op {
	do := o.do
	o.do = func(in *inst) error {
		in.stale(in.l.ID)
		return do(in)
	}
	return o
}

// onSub runs an operation on the second list (with the directory of the first).
func onSub(o op) op {
	ok, do := o.ok, o.do
	o.name = "second." + o.name
	o.ok = func(in *inst) bool { return in.sub != nil && !in.sub.gone && (ok == nil || ok(in.sub)) }
	o.do = func(in *inst) error {
		in.sub.dir, in.sub.mgr, in.sub.cache = in.dir, in.mgr, in.cache
		return do(in.sub)
	}
	return o
}

func opSave(backup bool) op {
	return op{name: fmt.Sprintf("save(backup=%v)", backup), do: func(in *inst) error {
		if err := in.mgr.SaveLists(bg, backup); err != nil {
			return err
		}
		in.dir.main = in.snapDir()
		if backup {
			in.dir.backup = in.snapDir()
		}
		return nil
	}}
}

// opSaveFails: the main copy cannot be written.
func opSaveFails(backup bool) op {
	return op{name: fmt.Sprintf("save(backup=%v) with failing storage", backup), do: func(in *inst) error {
		in.st.Fault = func(n int, kind byte, set, key string) error {
			if kind == 'S' && set == "meta" {
				return h.ErrInjected
			}
			return nil
		}
		err := in.mgr.SaveLists(bg, backup)
		in.st.Fault = nil
		if !errors.Is(err, h.ErrInjected) {
			return fmt.Errorf("storing the directory failed, but SaveLists returned %v", err)
		}
		if backup {
			in.dir.backup = in.snapDir()
		}
		return nil
	}}
}

// opBackupFails: the backup copy cannot be written, the main copy is.
var opBackupFails = op{name: "save(backup=true) with failing backup storage", do: func(in *inst) error {
	in.st.Fault = func(n int, kind byte, set, key string) error {
		if kind == 'S' && set == backupSet {
			return h.ErrInjected
		}
		return nil
	}
	_ = in.mgr.SaveLists(bg, true)
	in.st.Fault = nil
	in.dir.main = in.snapDir()
	return nil
}}

// opSaveTorn: the process stops while the main copy is written.
func opSaveTorn(cut func(n int) int, what string) op {
	return op{name: "save(backup) torn " + what, do: func(in *inst) error {
		if err := in.mgr.SaveLists(bg, true); err != nil {
			return err
		}
		in.dir.main, in.dir.backup = in.snapDir(), in.snapDir()
		in.dir.main.torn = true
		for k, v := range in.st.M["meta"] {
			if n := cut(len(v)); n < 0 {
				delete(in.st.M["meta"], k)
			} else {
				in.st.M["meta"][k] = v[:n:n]
			}
		}
		return nil
	}}
}

// freshLoad loads the directory from a copy of the storage.
func (in *inst) freshLoad(edit func(st *h.Store)) (*rankdb.Manager, *h.Store, rankdb.Cache, error) {
	st := in.st.Clone()
	if edit != nil {
		edit(st)
	}
	m, err := rankdb.NewManager(st, "meta")
	if err != nil {
		return nil, nil, nil, err
	}
	if in.aux["nobackup"] == nil {
		m.Backup = blobstore.StoreWithSet(st, backupSet)
	}
	var cache rankdb.Cache
	if in.cache != nil {
		cache = h.NewCache(0)
	}
	err = m.LoadLists(bg, cache)
	vsched.Quiesce(0)
	return m, st, cache, err
}

// checkDir compares a freshly loaded directory to the copy it should come from.
func (in *inst) checkDir(what string, want *dirSnap, edit func(st *h.Store)) error {
	m, st, cache, err := in.freshLoad(edit)
	if want == nil || want.torn {
		if err == nil {
			return fmt.Errorf("%s: loading succeeded although no copy of the directory is readable", what)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: loading: %v", what, err)
	}
	var ids, wids []string
	for _, id := range m.Lists.All() {
		ids = append(ids, string(id))
	}
	for _, l := range want.lists {
		wids = append(wids, string(l.ID))
	}
	sort.Strings(ids)
	sort.Strings(wids)
	if strings.Join(ids, ",") != strings.Join(wids, ",") {
		return fmt.Errorf("%s: loaded lists %v, want %v", what, ids, wids)
	}
	for _, w := range want.lists {
		l, ok := m.Lists.ByID(w.ID)
		if !ok {
			return fmt.Errorf("%s: list %s missing", what, w.ID)
		}
		if got := settingsOf(l); !reflect.DeepEqual(got, w) && !(len(got.Metadata) == 0 && len(w.Metadata) == 0) {
			return fmt.Errorf("%s: loaded settings %+v, want %+v", what, got, w)
		}
		if want.stale[w.ID] {
			continue
		}
		org := in
		if in.sub != nil && w.ID == in.sub.l.ID {
			org = in.sub
		}
		x := &inst{st: st, cache: cache, l: l, mgr: m, m: org.m.clone(), merge: org.merge, split: org.split, aux: map[string]any{}}
		if err := checkHealthy(x); err != nil {
			return fmt.Errorf("%s: list %s: %v", what, w.ID, err)
		}
		if err := opUpdate(el(9, 33, 0, 9)).do(x); err != nil {
			return fmt.Errorf("%s: list %s: update after loading: %v", what, w.ID, err)
		}
		if err := checkContent(x); err != nil {
			return fmt.Errorf("%s: list %s: after an update: %v", what, w.ID, err)
		}
	}
	return nil
}

func check08(in *inst, c *h.Ctx) error {
	eff := in.dir.main
	if eff == nil || eff.torn {
		eff = in.dir.backup
	}
	if err := in.checkDir("fresh process", eff, nil); err != nil {
		return err
	}
	lose := func(st *h.Store) { delete(st.M, "meta") }
	if err := in.checkDir("main copy lost", in.dir.backup, lose); err != nil {
		return err
	}
	if in.dir.main == nil || in.dir.main.torn {
		return nil
	}
	// Unreadable main copies.
	var blob []byte
	for _, v := range in.st.M["meta"] {
		blob = v
	}
	cuts := []int{0, 1, 2, len(blob) / 2, len(blob) - 1}
	if in.aux["allcuts"] != nil {
		cuts = cuts[:0]
		for i := 0; i < len(blob); i++ {
			cuts = append(cuts, i)
		}
	}
	for _, n := range cuts {
		err := in.checkDir(fmt.Sprintf("main copy cut to %d of %d bytes", n, len(blob)), in.dir.backup, func(st *h.Store) {
			for k := range st.M["meta"] {
				st.M["meta"][k] = blob[:n:n]
			}
		})
		if err != nil {
			return err
		}
	}
	if in.aux["allcuts"] != nil && len(blob) > 0 && blob[0] == compressionZstd {
		// The same without compression, so that a part of the lists can be read.
		dec, err := vzstd.NewReader(bytes.NewBuffer(append([]byte{}, blob[1:]...)))
		if err != nil {
			return err
		}
		plain, err := io.ReadAll(dec)
		if err != nil {
			return err
		}
		plain = append([]byte{compressionNone}, plain...)
		for n := 1; n <= len(plain); n++ {
			want := in.dir.backup
			if n == len(plain) {
				want = in.dir.main
			}
			err := in.checkDir(fmt.Sprintf("uncompressed main copy cut to %d of %d bytes", n, len(plain)), want, func(st *h.Store) {
				for k := range st.M["meta"] {
					st.M["meta"][k] = plain[:n:n]
				}
			})
			if err != nil {
				return err
			}
		}
	}
	for _, b := range []byte{0, 7 ^ 0x80, 0xff} {
		err := in.checkDir(fmt.Sprintf("main copy starts with %#x", b), in.dir.backup, func(st *h.Store) {
			for k := range st.M["meta"] {
				st.M["meta"][k] = append([]byte{b}, blob[1:]...)
			}
		})
		if err != nil {
			return err
		}
	}
	return nil
}

func worlds08(c *h.Ctx) []*world {
	six := []rankdb.Element{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)}
	newSub := op{name: "create second list", ok: func(in *inst) bool { return in.sub == nil || in.sub.gone }, do: func(in *inst) error {
		sub := &inst{st: in.st, cache: in.cache, mgr: in.mgr, dir: in.dir, merge: 1, split: 3, loadI: !in.loadI, m: newModel(), aux: map[string]any{}}
		in.stale("a/second") // a new list under an ID of a deleted one
		l, err := rankdb.NewList(bg, "a/second", "set2", in.st, sub.opts(rankdb.WithListOption.Metadata(map[string]string{"k": "v", "": "æ"}))...)
		if err != nil {
			return err
		}
		sub.l = l
		in.mgr.Lists.Add(l)
		in.sub = sub
		return nil
	}}
	del := op{name: "delete list", do: func(in *inst) error {
		in.stale(in.l.ID)
		in.gone = true
		in.m = newModel()
		return in.mgr.DeleteList(bg, in.l.ID)
	}}
	reload := op{name: "save+reload", do: func(in *inst) error {
		if err := in.mgr.SaveLists(bg, false); err != nil {
			return err
		}
		in.dir.main = in.snapDir()
		m, st, cache, err := in.freshLoad(nil)
		if err != nil {
			return err
		}
		in.mgr, in.st, in.cache = m, st, cache
		for _, x := range []*inst{in, in.sub} {
			if x != nil && !x.gone {
				l, ok := m.Lists.ByID(x.l.ID)
				if !ok {
					return fmt.Errorf("list %s missing after reload", x.l.ID)
				}
				x.l, x.mgr, x.st, x.cache = l, m, st, cache
			}
		}
		return nil
	}}
	// start over with backup.
	base := func(name string, e []rankdb.Element, all bool) op {
		return op{name: name, do: func(in *inst) error {
			in.dir = &dirState{}
			// Cut copies can be read up to some list.
			vzstd.Chunk = 0
			if all {
				vzstd.Chunk = 40
				in.aux["allcuts"] = true
			}
			if err := initNew(e...).do(in); err != nil {
				return err
			}
			in.mgr.Backup = blobstore.StoreWithSet(in.st, backupSet)
			in.aux["dir"] = fmt.Sprint(in.dir.main, in.dir.backup)
			return nil
		}}
	}
	ops := []op{
		opSave(false), opSave(true), opSaveFails(false), opSaveFails(true), opBackupFails,
		opSaveTorn(func(n int) int { return n / 2 }, "half"), opSaveTorn(func(n int) int { return -1 }, "missing"),
		reload, newSub,
		src(opUpdate(el(1, 10, 0, 2), el(7, 45, 0, 2))), src(opInsert(el(0, 40, 0, 2), el(9, 41, 0, 2))), src(opDelete(3, 4, 9)), src(opSplit), src(opRelease),
		src(restructures(opReindex)), src(restructures(opPopulate(el(5, 30, 0, 4), el(6, 35, 0, 4)))),
		onSub(opUpdate(el(2, 70, 0, 3), el(3, 7, 0, 3), el(4, 7, 0, 3), el(5, 8, 0, 3))), onSub(opSplit), onSub(opDelete(3, 5)), onSub(del),
	}
	for i := range ops {
		ops[i] = withDir(ops[i])
	}
	var ws []*world
	for _, v := range []struct {
		merge, split, cache, pol int
		noLoad                   bool
	}{{2, 4, -1, 0, false}, {1, 2, 0, 1, true}} {
		ws = append(ws, &world{name: fmt.Sprintf("directory load=%v", !v.noLoad), merge: v.merge, split: v.split, cache: v.cache, pol: v.pol, noLoadIdx: v.noLoad,
			depth: h.Pick(c, 5, 6), ops: ops, init: []op{base("new()", nil, false), base("new(6)", six, false)}, check: check08, lazy: true})
		ws = append(ws, &world{name: fmt.Sprintf("directory load=%v, cut everywhere", !v.noLoad), merge: v.merge, split: v.split, cache: v.cache, pol: v.pol, noLoadIdx: v.noLoad,
			depth: h.Pick(c, 3, 4), ops: ops, init: []op{base("new(6)", six, true)}, check: check08, lazy: true})
	}
	return ws
}

// saveScenarios save the directory while lists change.
func saveScenarios(c *h.Ctx) (r []h.Scenario) {
	base := []rankdb.Element{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1)}
	for _, cache := range []int{-1, 0} {
		for _, p := range []struct {
			name string
			do   []func(in *inst) error
			// lists that may or may not be in the saved copy
			maybe string
			apply func(in *inst)
		}{
			{"save || update", []func(in *inst) error{opUpdate(el(1, 45, 0, 2), el(7, 41, 0, 2)).do}, "", nil},
			{"save || insert, split", []func(in *inst) error{opInsert(el(7, 41, 0, 2), el(8, 42, 0, 2), el(9, 43, 0, 2)).do, opSplit.do}, "", nil},
			{"save || create list", []func(in *inst) error{func(in *inst) error {
				l, err := rankdb.NewList(bg, "c", "set2", in.st, in.opts()...)
				if err == nil {
					in.mgr.Lists.Add(l)
				}
				return err
			}}, "c", nil},
			{"save || delete list, update", []func(in *inst) error{func(in *inst) error { return in.mgr.DeleteList(bg, "b") }, opUpdate(el(1, 45, 0, 2)).do}, "b", nil},
			{"save || release, save", []func(in *inst) error{opRelease.do, func(in *inst) error { return in.mgr.SaveLists(bg, true) }}, "", nil},
		} {
			p := p
			cache := cache
			r = append(r, h.Scenario{Name: fmt.Sprintf("%s cache=%d", p.name, cache), Bound: h.Pick(c, 2, 3), Policies: []int{1, 4, 5}, Body: func() (string, error) {
				in := &inst{st: h.NewStore(), m: newModel(), merge: 2, split: 4, aux: map[string]any{}, dir: &dirState{}}
				if cache >= 0 {
					in.cache = h.NewCache(cache)
				}
				var err error
				vsched.Frozen(func() {
					if err = initNew(base...).do(in); err != nil {
						return
					}
					in.mgr.Backup = blobstore.StoreWithSet(in.st, backupSet)
					var l *rankdb.List
					if l, err = rankdb.NewList(bg, "b", "set2", in.st, in.opts()...); err == nil {
						in.mgr.Lists.Add(l)
					}
				})
				if err != nil {
					return "", err
				}
				var errs [2]error
				h.Par(func() { errs[0] = in.mgr.SaveLists(bg, true) }, func() {
					for _, f := range p.do {
						if errs[1] == nil {
							errs[1] = f(in)
						}
					}
				})
				if err := errors.Join(errs[:]...); err != nil {
					return "", err
				}
				vsched.Frozen(func() {
					for _, lose := range []bool{false, true} {
						var m *rankdb.Manager
						var st *h.Store
						var ca rankdb.Cache
						m, st, ca, err = in.freshLoad(func(st *h.Store) {
							if lose {
								delete(st.M, "meta")
							}
						})
						if err != nil {
							return
						}
						for _, id := range []rankdb.ListID{"list", "b", "c"} {
							l, ok := m.Lists.ByID(id)
							if !ok && (id == "list" || id == "b" && p.maybe != "b") {
								err = fmt.Errorf("list %s is missing after loading (main copy lost: %v)", id, lose)
							}
							if id == "list" && ok {
								err = checkHealthy(&inst{st: st, cache: ca, l: l, mgr: m, m: in.m.clone(), aux: map[string]any{}})
							}
							if err != nil {
								return
							}
						}
						for _, id := range m.Lists.All() {
							if id != "list" && id != "b" && (id != "c" || p.maybe != "c") {
								err = fmt.Errorf("unexpected list %q after loading", id)
								return
							}
						}
					}
				})
				return "", err
			}})
		}
	}
	return r
}

func c08(c *h.Ctx) {
	for _, s := range saveScenarios(c) {
		c.Explore(s)
		if c.Stopped() || c.Expired() {
			return
		}
	}
	for _, w := range worlds08(c) {
		w.explore(c)
		if c.Stopped() || c.Expired() {
			return
		}
	}
}
