//go:build go1.21

package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/backup"
	"github.com/Vivino/rankdb/backup/file"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// bkup is a backup with the state it was made of.
type bkup struct {
	data []byte
	m    *model
	set  lsettings
}

func listBytes(in *inst) ([]byte, error) {
	w := rankdb.NewWriterMsg()
	defer w.Close()
	if err := in.l.Backup(bg, in.st, w); err != nil {
		return nil, err
	}
	return append([]byte{}, w.Buffer().Bytes()...), nil
}

var opBackup = op{name: "backup", ok: func(in *inst) bool { return !in.gone }, do: func(in *inst) error {
	b, err := listBytes(in)
	if err != nil {
		return err
	}
	in.bk = &bkup{data: b, m: in.m.clone(), set: settingsOf(in.l)}
	hash, err := in.canonOne()
	// A restored list has the segments of the time of the backup.
	in.aux["backup"] = fmt.Sprintf("%x", hash)
	return err
}}

func checkSettings(l *rankdb.List, want lsettings) error {
	if got := settingsOf(l); !reflect.DeepEqual(got, want) && !(got.ID == want.ID && got.Set == want.Set && got.Merge == want.Merge && got.Split == want.Split && got.LoadIndex == want.LoadIndex && len(got.Metadata)+len(want.Metadata) == 0) {
		return fmt.Errorf("restored settings %+v, want %+v", got, want)
	}
	return nil
}

// opRestoreNew restores the backup under a new ID.
var opRestoreNew = op{name: "restore as clone", ok: func(in *inst) bool { return in.bk != nil && (in.sub == nil || in.sub.gone) }, do: func(in *inst) error {
	id := rankdb.ListID("clone")
	l, err := rankdb.RestoreList(bg, in.st, rankdb.NewReaderMsgp(in.bk.data), in.cache, &id)
	if err != nil {
		return err
	}
	want := in.bk.set
	want.ID = id
	if err := checkSettings(l, want); err != nil {
		return err
	}
	in.mgr.Lists.Add(l)
	in.sub = &inst{st: in.st, cache: in.cache, mgr: in.mgr, l: l, merge: in.merge, split: in.split, loadI: in.loadI, m: in.bk.m.clone(), aux: map[string]any{}}
	return nil
}}

// opRestoreSame restores the list as it was.
var opRestoreSame = op{name: "restore", ok: func(in *inst) bool { return in.bk != nil && in.bk.set.ID == "list" }, do: func(in *inst) error {
	l, err := rankdb.RestoreList(bg, in.st, rankdb.NewReaderMsgp(in.bk.data), in.cache, nil)
	if err != nil {
		return err
	}
	if err := checkSettings(l, in.bk.set); err != nil {
		return err
	}
	in.mgr.Lists.Add(l)
	in.l, in.m, in.gone = l, in.bk.m.clone(), false
	return nil
}}

func worlds09(c *h.Ctx) []*world {
	six := []rankdb.Element{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)}
	ties := []rankdb.Element{el(1, 40, 2, 1), el(2, 40, 2, 2), el(3, 40, 1, 3), el(4, 40, 1, 1), el(5, 40, 0, 1), el(6, 40, 0, 1), el(7, 40, 0, 2)}
	both := []op{
		opUpdate(el(1, 10, 0, 2), el(7, 45, 0, 2)),
		opUpdate(el(2, 70, 0, 3)),
		opInsert(el(0, 40, 0, 2), el(9, 41, 0, 2)),
		opDelete(3, 4),
		opSplit, opReindex, opRelease, opDeleteList,
	}
	mk := func(name string, merge, split, cache, pol, depth int, noload bool) *world {
		var ops []op
		for _, o := range append(both, opPopulate(el(5, 30, 0, 4), el(6, 35, 0, 4))) {
			if o.name == opDeleteList.name {
				o.ok = func(in *inst) bool { return in.bk != nil }
			}
			ops = append(ops, src(o))
		}
		ops = append(ops, opReloadBoth, opBackup, opRestoreNew, opRestoreSame)
		for _, o := range both {
			ops = append(ops, on(o))
		}
		return &world{name: name, merge: merge, split: split, cache: cache, pol: pol, noLoadIdx: noload, depth: depth, ops: ops,
			init: []op{initNew(), initNew(six...), initBuilt("new+insert6", initNew(), opInsert(six...)), initNew(ties...)},
			check: func(in *inst, c *h.Ctx) error {
				if in.bk == nil || in.sub == nil && in.gone {
					return nil
				}
				if in.sub == nil {
					return checkHealthy(in)
				}
				return checkBoth(in, c)
			}}
	}
	d := h.Pick(c, 5, 6)
	return []*world{
		mk("restore", 2, 4, -1, 0, d+1, true),
		mk("restore, cached", 2, 4, 0, 1, d, false),
		mk("restore, small segments", 1, 2, 1, 0, d, false),
		mk("restore, tiny segments", 0, 1, 0, 3, d, true),
	}
}

// memDst is a backup destination and source in memory.
type memDst struct {
	bytes.Buffer
	closed int
	fail   func(n int) error // nil or an error for the n-th write (-1: close)
	writes int
	point  bool
	late   int // writes after close
}

type memFile struct{ d *memDst }

func (f memFile) Write(b []byte) (int, error) {
	d := f.d
	if d.point {
		vsched.Point("write")
	}
	if d.closed > 0 {
		d.late++
	}
	n := d.writes
	d.writes++
	if d.fail != nil {
		if err := d.fail(n); err != nil {
			return 0, err
		}
	}
	return d.Buffer.Write(b)
}

func (f memFile) Close() error {
	if f.d.point {
		vsched.Point("close")
	}
	f.d.closed++
	if f.d.fail != nil {
		return f.d.fail(-1)
	}
	return nil
}

func (d *memDst) Save(ctx context.Context) (io.WriteCloser, error) { return memFile{d}, nil }
func (d *memDst) Load(ctx context.Context) (io.ReadCloser, error) {
	return io.NopCloser(bytes.NewReader(d.Bytes())), nil
}

// waitJob lets the other tasks run until the job is done.
func waitJob(id backup.ID) *backup.Status {
	vsched.Quiesce(0)
	return id.Status()
}

// jobs09 backs up and restores whole databases.
func jobs09(c *h.Ctx) {
	contents := map[string][]rankdb.Element{
		"a":     {el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1)},
		"b/ö":   {},
		"ba":    {el(1, 5, 0, 9)},
		"ab":    {el(7, 7, 7, 7), el(8, 7, 7, 7), el(9, 7, 0, 8)},
		"other": {el(4, 1, 0, 1)},
	}
	ids := []string{"a", "ab", "b/ö", "ba"}
	build := func(set string, names ...string) (*inst, error) {
		in := &inst{st: h.NewStore(), m: newModel(), merge: 1, split: 3, aux: map[string]any{}}
		if err := in.start(); err != nil {
			return nil, err
		}
		for i, n := range names {
			l, err := rankdb.NewList(bg, rankdb.ListID(n), set, in.st, rankdb.WithListOption.MergeSplitSize(1+i, 4+i), rankdb.WithListOption.Metadata(map[string]string{"name": n}))
			if err != nil {
				return nil, err
			}
			if err := l.Populate(bg, in.st, cloneElems(contents[n])); err != nil {
				return nil, err
			}
			in.mgr.Lists.Add(l)
		}
		return in, nil
	}
	check := func(in *inst, id string, orig string, merge, split int, set string) error {
		l, ok := in.mgr.Lists.ByID(rankdb.ListID(id))
		if !ok {
			return fmt.Errorf("list %q is missing", id)
		}
		if err := checkSettings(l, lsettings{rankdb.ListID(id), set, merge, split, true, map[string]string{"name": orig}}); err != nil {
			return err
		}
		x := &inst{st: in.st, l: l, mgr: in.mgr, m: newModel(), aux: map[string]any{}}
		x.m.put(contents[orig]...)
		return checkHealthy(x)
	}
	n := 0
	// Every subset of lists (including one that does not exist), into every destination database.
	for sel := 0; sel < 1<<5; sel++ {
		for dst := 0; dst < 4; dst++ {
			for ren := 0; ren < 4; ren++ {
				for _, replace := range []bool{false, true} {
					n++
					if n%c.NShards != c.Shard {
						continue
					}
					pre, suf := "", ""
					if ren&1 != 0 {
						pre = "b"
					}
					if ren&2 != 0 {
						suf = "x"
					}
					name := fmt.Sprintf("selection=%05b destination=%d prefix=%q suffix=%q replace=%v", sel, dst, pre, suf, replace)
					c.Begin(func() string { return name })
					var outcome string
					err := h.Seq(0, func() error {
						in, err := build("set1", ids...)
						if err != nil {
							return err
						}
						missing := rankdb.ListID([]string{"none", "0", "aba", "b"}[dst])
						var lists rankdb.ListIDs
						for i := len(ids) - 1; i >= 0; i-- {
							if sel>>i&1 != 0 {
								lists = append(lists, rankdb.ListID(ids[i]))
							}
						}
						if sel>>4&1 != 0 {
							// Anywhere between the others, which are sorted for the backup.
							at := dst % (len(lists) + 1)
							lists = append(lists[:at], append(rankdb.ListIDs{missing}, lists[at:]...)...)
						}
						d := &memDst{}
						st := waitJob(backup.Request{DB: in.mgr, Dst: d, Lists: append(rankdb.ListIDs{}, lists...)}.Start(bg))
						if st == nil {
							return fmt.Errorf("job unknown")
						}
						var okIDs []string
						for _, l := range lists {
							if l != missing {
								okIDs = append(okIDs, string(l))
							}
						}
						got := append([]string{}, st.Success...)
						sort.Strings(got)
						sort.Strings(okIDs)
						if strings.Join(got, "|") != strings.Join(okIDs, "|") || st.Lists != len(lists) || st.ListsDone != len(okIDs) || st.Cancelled || (len(st.Errors) != 0) != (sel>>4&1 != 0) {
							return fmt.Errorf("job status %+v for lists %q", *st, lists)
						}
						// Destination: fresh, the same database, a database with other lists, one with the same IDs.
						out, set := in, "set1"
						var before []string
						switch dst {
						case 0:
							out, err = build("set1")
						case 1:
							before = ids
						case 2:
							out, err = build("set1", "other")
							before = []string{"other"}
						case 3:
							before = []string{"a", "ba", "bax"}
							contents["bax"] = contents["other"]
							out, err = build("set1", before...)
						}
						if err != nil {
							return err
						}
						res, err := (&backup.RestoreInfo{Source: d, DB: out.mgr, Replace: replace, ListIDPrefix: pre, ListIDSuffix: suf}).Restore(bg)
						if err != nil {
							return fmt.Errorf("restore: %v", err)
						}
						type want struct {
							orig         string
							merge, split int
						}
						exp := map[string]want{}
						for i, b := range before {
							exp[b] = want{b, 1 + i, 4 + i}
						}
						rest, skip := 0, 0
						for i, id := range ids {
							if sel>>i&1 == 0 {
								continue
							}
							nid := pre + id + suf
							if _, ok := exp[nid]; ok && !replace {
								skip++
								continue
							}
							rest++
							exp[nid] = want{id, 1 + i, 4 + i}
						}
						if res.Restored != rest || res.Skipped != skip || len(res.Failed) != 0 {
							return fmt.Errorf("restore result %+v, want %d restored and %d skipped", *res, rest, skip)
						}
						var all, wall []string
						for _, id := range out.mgr.Lists.All() {
							all = append(all, string(id))
						}
						for id := range exp {
							wall = append(wall, id)
						}
						sort.Strings(all)
						sort.Strings(wall)
						if strings.Join(all, "|") != strings.Join(wall, "|") {
							return fmt.Errorf("lists after the restore %q, want %q", all, wall)
						}
						for _, id := range wall {
							w := exp[id]
							if err := check(out, id, w.orig, w.merge, w.split, set); err != nil {
								return fmt.Errorf("after the restore, list %q: %v", id, err)
							}
						}
						// Still so in a fresh process.
						if err := out.mgr.SaveLists(bg, false); err != nil {
							return err
						}
						m, err := rankdb.NewManager(out.st, "meta")
						if err != nil {
							return err
						}
						if err := m.LoadLists(bg, nil); err != nil {
							return err
						}
						vsched.Quiesce(0)
						out.mgr = m
						for _, id := range wall {
							w := exp[id]
							if err := check(out, id, w.orig, w.merge, w.split, set); err != nil {
								return fmt.Errorf("after restore and reload, list %q: %v", id, err)
							}
						}
						outcome = strings.Join(wall, "|")
						return nil
					})
					c.Trace(1)
					c.Trans(1)
					if err != nil {
						c.Violate(name, name, "backup and restore of a database, %s: %v", name, err)
						if c.Stopped() {
							return
						}
					}
					c.State(fmt.Sprint("job", sel, outcome, replace))
					if c.Expired() {
						return
					}
				}
			}
		}
	}
	c.Bound("database backups", "every subset of 4 lists and one missing list x 4 destination databases x 4 renamings x replace or not")
}

// trunc09 restores every proper prefix of list and database backups.
func trunc09(c *h.Ctx) {
	contents := [][]rankdb.Element{
		{},
		{el(1, 60, 0, 1)},
		{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1)},
	}
	n := 0
	for ci, ct := range contents {
		for _, db := range []bool{false, true} {
			for cut := 0; ; cut++ {
				n++
				mine := n%c.NShards == c.Shard
				end := false
				name := fmt.Sprintf("content %d, database=%v, cut after %d bytes", ci, db, cut)
				if mine {
					c.Begin(func() string { return name })
				}
				err := h.Seq(0, func() error {
					in := &inst{st: h.NewStore(), m: newModel(), merge: 1, split: 3, aux: map[string]any{}}
					if err := in.start(); err != nil {
						return err
					}
					for _, id := range []rankdb.ListID{"list", "second"} {
						l, err := rankdb.NewList(bg, id, "set1", in.st, rankdb.WithListOption.MergeSplitSize(1, 3))
						if err != nil {
							return err
						}
						if err := l.Populate(bg, in.st, cloneElems(ct)); err != nil {
							return err
						}
						in.mgr.Lists.Add(l)
						in.l = l
						if !db {
							break
						}
					}
					in.m.put(ct...)
					var full []byte
					if db {
						d := &memDst{}
						st := waitJob(backup.Request{DB: in.mgr, Dst: d, Lists: rankdb.ListIDs{"list", "second"}}.Start(bg))
						if st == nil || !st.Done || len(st.Success) != 2 {
							return fmt.Errorf("backup: %+v", st)
						}
						full = d.Bytes()
					} else {
						var err error
						if full, err = listBytes(in); err != nil {
							return err
						}
					}
					if cut >= len(full) {
						end = true
						return nil
					}
					if !mine {
						return nil
					}
					if !db {
						id := rankdb.ListID("clone")
						if _, err := rankdb.RestoreList(bg, in.st, rankdb.NewReaderMsgp(full[:cut:cut]), in.cache, &id); err == nil {
							return fmt.Errorf("restoring an incomplete backup succeeded")
						}
					} else {
						d := &memDst{}
						d.Buffer.Write(full[:cut])
						res, err := (&backup.RestoreInfo{Source: d, DB: in.mgr, ListIDPrefix: "new-"}).Restore(bg)
						if err == nil {
							return fmt.Errorf("restoring an incomplete backup reports %+v", *res)
						}
						for _, id := range in.mgr.Lists.All() {
							if strings.HasPrefix(string(id), "new-") {
								l, _ := in.mgr.Lists.ByID(id)
								x := &inst{st: in.st, l: l, mgr: in.mgr, m: in.m.clone(), aux: map[string]any{}}
								if err := checkHealthy(x); err != nil {
									return fmt.Errorf("incomplete backup left list %q: %v", id, err)
								}
							}
						}
					}
					return checkHealthy(in)
				})
				if mine {
					c.Trace(1)
					c.Trans(1)
					c.State(fmt.Sprint("cut", ci, db, cut))
				}
				if err != nil {
					c.Violate(name, name, "%s: %v", name, err)
					if c.Stopped() {
						return
					}
				}
				if end || err != nil && !mine {
					break
				}
				if c.Expired() {
					return
				}
			}
		}
	}
	c.Bound("incomplete backups", "every proper prefix of the backups of 3 lists and 3 databases")
}

// files09 passes backups through a file.
func files09(c *h.Ctx) {
	if c.Shard != 0 {
		return
	}
	dir, err := os.MkdirTemp("", "verif-c09-")
	if err != nil {
		c.Errorf("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	name := "backup through a file"
	c.Begin(func() string { return name })
	for _, old := range []int{0, 1, 100000} {
		for _, cnt := range []int{0, 1, 6} {
			err := h.Seq(0, func() error {
				in := &inst{st: h.NewStore(), m: newModel(), merge: 1, split: 3, aux: map[string]any{}}
				if err := in.start(); err != nil {
					return err
				}
				var es []rankdb.Element
				for i := 0; i < cnt; i++ {
					es = append(es, el(uint64(i), uint64(10*(i%4)), 0, 1))
				}
				l, err := rankdb.NewList(bg, "list", "set1", in.st, rankdb.WithListOption.MergeSplitSize(1, 3))
				if err != nil {
					return err
				}
				if err := l.Populate(bg, in.st, cloneElems(es)); err != nil {
					return err
				}
				in.mgr.Lists.Add(l)
				fn := filepath.Join(dir, "backup")
				if err := os.WriteFile(fn, bytes.Repeat([]byte{7}, old), 0o600); err != nil {
					return err
				}
				f := file.New(fn)
				st := waitJob(backup.Request{DB: in.mgr, Dst: f, Lists: rankdb.ListIDs{"list"}}.Start(bg))
				if st == nil || !st.Done || len(st.Success) != 1 || len(st.Errors) != 0 {
					return fmt.Errorf("backup: %+v", st)
				}
				res, err := (&backup.RestoreInfo{Source: f, DB: in.mgr, ListIDSuffix: "2"}).Restore(bg)
				if err != nil || res.Restored != 1 {
					return fmt.Errorf("restore: %v %v", res, err)
				}
				l2, ok := in.mgr.Lists.ByID("list2")
				if !ok {
					return fmt.Errorf("the restored list is missing")
				}
				x := &inst{st: in.st, l: l2, mgr: in.mgr, m: newModel(), aux: map[string]any{}}
				x.m.put(es...)
				return checkHealthy(x)
			})
			c.Trace(1)
			c.Trans(1)
			c.State(fmt.Sprint("file", old, cnt))
			if err != nil {
				c.Violate(name, fmt.Sprint(name, old, cnt), "%s of %d elements over %d bytes: %v", name, cnt, old, err)
			}
		}
	}
}

func c09(c *h.Ctx) {
	jobs09(c)
	trunc09(c)
	files09(c)
	for _, w := range worlds09(c) {
		if c.Stopped() || c.Expired() {
			return
		}
		w.explore(c)
	}
}
