//go:build go1.21

package main

import (
	"fmt"
	"sort"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
)

func c11(c *h.Ctx) {
	x := &c22ctx{c: c}
	err := h.Seq(0, func() error {
		if err := c11paging(x); err != nil {
			return err
		}
		if err := c11match(x); err != nil {
			return err
		}
		return c11ops(x)
	})
	if err != nil {
		c.Errorf("%v", err)
	}
	c.Bound("lists", h.Pick(c, 6, 7))
}

func newDir() (*rankdb.Manager, error) {
	mgr, err := rankdb.NewManager(h.NewStore(), "set")
	if err != nil {
		return nil, err
	}
	return mgr, mgr.NewLists(nil)
}

func idsOf(l []*rankdb.List) []string {
	r := []string{}
	for _, x := range l {
		if x == nil {
			r = append(r, "<nil>")
			continue
		}
		r = append(r, string(x.ID))
	}
	return r
}

// c11paging: every insertion (and so iteration) order of up to 6 lists, every cursor and page size.
func c11paging(x *c22ctx) error {
	names := []string{"b", "bb", "d", "f", "fa", "h", "j"}[:h.Pick(x.c, 6, 7)]
	cursors := []string{"", "a", "b", "ba", "bb", "c", "d", "e", "f", "f0", "fa", "g", "h", "i", "j", "k"}
	for n := 0; n <= len(names); n++ {
		var err error
		perms(n, func(p []int) {
			if err != nil || x.c.Expired() {
				return
			}
			order := make([]string, n)
			for i, v := range p {
				order[i] = names[v]
			}
			x.do(func() string { return fmt.Sprintf("paging directory %q", order) }, func() error {
				mgr, err := newDir()
				if err != nil {
					return err
				}
				for _, o := range order {
					mgr.Lists.Add(&rankdb.List{ID: rankdb.ListID(o)})
				}
				for _, cur := range cursors {
					var after, before []string
					atOrBefore, atOrAfter := 0, 0
					for _, nm := range names[:n] {
						if nm > cur {
							after = append(after, nm)
						} else {
							atOrBefore++
						}
						if nm < cur {
							before = append(before, nm)
						} else {
							atOrAfter++
						}
					}
					for cnt := -1; cnt <= n+2; cnt++ {
						wantA, pageA := after, rankdb.PageInfo{Before: atOrBefore}
						if len(wantA) > cnt && cnt > 0 {
							pageA.After = len(wantA) - cnt
							wantA = wantA[:cnt]
						}
						wantB, pageB := before, rankdb.PageInfo{After: atOrAfter}
						if len(wantB) > cnt && cnt > 0 {
							pageB.Before = len(wantB) - cnt
							wantB = wantB[len(wantB)-cnt:]
						}
						if cnt <= 0 {
							wantA, wantB, pageA, pageB = nil, nil, rankdb.PageInfo{}, rankdb.PageInfo{}
						}
						got, pg := mgr.Lists.SortedIDsAfter(rankdb.ListID(cur), cnt)
						if fmt.Sprint(idsOf(got)) != fmt.Sprint(wantA) || pg != pageA {
							return fmt.Errorf("SortedIDsAfter(%q, %d) = %q %+v, want %q %+v", cur, cnt, idsOf(got), pg, wantA, pageA)
						}
						got, pg = mgr.Lists.SortedIDsBefore(rankdb.ListID(cur), cnt)
						if fmt.Sprint(idsOf(got)) != fmt.Sprint(wantB) || pg != pageB {
							return fmt.Errorf("SortedIDsBefore(%q, %d) = %q %+v, want %q %+v", cur, cnt, idsOf(got), pg, wantB, pageB)
						}
						x.c.Trans(2)
					}
				}
				return nil
			})
		})
		if err != nil {
			return err
		}
	}
	return nil
}

// c11match: three lists with every combination of set and metadata against every query.
func c11match(x *c22ctx) error {
	metas := []map[string]string{nil, {}, {"a": "1"}, {"a": "2"}, {"a": "1", "b": "1"}, {"b": "1"}, {"a": ""}}
	sets := []string{"s1", "s2"}
	queries := []map[string]string{nil, {}, {"a": "1"}, {"a": "2"}, {"b": "1"}, {"a": "1", "b": "1"}, {"a": "1", "c": "1"}, {"a": "2", "b": "1"}, {"a": ""}, {"c": ""}}
	inSets := [][]string{nil, {}, {"s1"}, {"s2"}, {"s1", "s2"}, {"x"}, {"s1", "s1"}, {"x", "s2"}}
	k := len(metas) * len(sets)
	seqs(k, 3, func(s []int) {
		cfg := append([]int{}, s...)
		x.do(func() string { return fmt.Sprintf("matching directory %v", cfg) }, func() error {
			mgr, err := newDir()
			if err != nil {
				return err
			}
			var ls []*rankdb.List
			for i, v := range cfg {
				l := &rankdb.List{ID: rankdb.ListID(fmt.Sprint("l", i)), Set: sets[v%2], Metadata: metas[v/2]}
				ls = append(ls, l)
				mgr.Lists.Add(l)
			}
			for _, q := range queries {
				for _, in := range inSets {
					want := []string{}
					for _, l := range ls {
						ok := false
						for _, st := range in {
							ok = ok || st == l.Set
						}
						if !ok && len(q) > 0 {
							ok = true
							for k, v := range q {
								g, has := l.Metadata[k]
								ok = ok && has && g == v
							}
						}
						if ok {
							want = append(want, string(l.ID))
						}
					}
					got := []string{}
					for _, id := range mgr.Lists.MatchAll(q, in) {
						got = append(got, string(id))
					}
					sort.Strings(got)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						return fmt.Errorf("MatchAll(%v, %q) = %q, want %q; lists: set %d, metadata %v", q, in, got, want, cfg, metas)
					}
					x.c.Trans(1)
				}
			}
			return nil
		})
	})
	return nil
}

// c11ops: all sequences of adds, overwrites and deletes; every lookup after each.
func c11ops(x *c22ctx) error {
	ids := []string{"a", "b", "c"}
	depth := h.Pick(x.c, 6, 7)
	for n := 0; n <= depth; n++ {
		seqs(7, n, func(s []int) {
			ops := append([]int{}, s...)
			x.do(func() string { return fmt.Sprintf("directory operations %v (0-2 add a,b,c; 3-5 delete a,b,c; 6 add a and b)", ops) }, func() error {
				mgr, err := newDir()
				if err != nil {
					return err
				}
				m := map[string]*rankdb.List{}
				add := func(id ...string) {
					var ls []*rankdb.List
					for _, i := range id {
						l := &rankdb.List{ID: rankdb.ListID(i)}
						m[i] = l
						ls = append(ls, l)
					}
					mgr.Lists.Add(ls...)
				}
				for _, o := range ops {
					switch {
					case o < 3:
						add(ids[o])
					case o < 6:
						mgr.Lists.Delete(rankdb.ListID(ids[o-3]))
						delete(m, ids[o-3])
					default:
						add("a", "b")
					}
				}
				var q []rankdb.ListID
				for _, i := range append(ids, "zz", "a") {
					q = append(q, rankdb.ListID(i))
					l, ok := mgr.Lists.ByID(rankdb.ListID(i))
					if w := m[i]; ok != (w != nil) || l != w {
						return fmt.Errorf("ByID(%s) = %v %v, want %v", i, l, ok, w)
					}
				}
				wantEx := ""
				for i, l := range mgr.Lists.ByIDs(q...) {
					if l != m[string(q[i])] {
						return fmt.Errorf("ByIDs: %s is %v", q[i], l)
					}
					if l != nil {
						wantEx += string(q[i]) + ","
					}
				}
				ex := ""
				for _, e := range mgr.Lists.Exists(q...) {
					ex += string(e) + ","
				}
				if ex != wantEx {
					return fmt.Errorf("Exists = %s, want %s", ex, wantEx)
				}
				all := mgr.Lists.All()
				all.Sort()
				if fmt.Sprint(all) != fmt.Sprint(h.SortedKeys(m)) {
					return fmt.Errorf("All = %v, want %v", all, h.SortedKeys(m))
				}
				got, _ := mgr.Lists.SortedIDsAfter("", 10)
				if fmt.Sprint(idsOf(got)) != fmt.Sprint(h.SortedKeys(m)) {
					return fmt.Errorf("SortedIDsAfter = %v, want %v", idsOf(got), h.SortedKeys(m))
				}
				return nil
			})
		})
	}
	return nil
}
