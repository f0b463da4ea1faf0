//go:build go1.21

package main

import (
	"fmt"
	"net/url"
	"sort"
	"time"

	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// selection of lists.
type selection struct {
	lists []string
	meta  map[string]string
	sets  []string
}

func (x selection) body() obj {
	o := obj{}
	if x.lists != nil {
		o["lists"] = x.lists
	}
	if x.meta != nil {
		o["match_metadata"] = x.meta
	}
	if x.sets != nil {
		o["all_in_sets"] = x.sets
	}
	return o
}

func (x selection) query() url.Values {
	v := url.Values{}
	for _, l := range x.lists {
		v.Add("lists", l)
	}
	for _, l := range x.sets {
		v.Add("all_in_sets", l)
	}
	if x.meta != nil {
		v.Set("match_metadata", js(x.meta))
	}
	return v
}

// resolve are the selected lists, existing and missing.
func (x selection) resolve(m *amodel, dfltAll bool) (lists, missing []string) {
	if dfltAll && len(x.lists)+len(x.meta)+len(x.sets) == 0 {
		return h.SortedKeys(m.lists), nil
	}
	want := map[string]bool{}
	for _, l := range x.lists {
		want[l] = true
	}
	for id, l := range m.lists {
		for _, s := range x.sets {
			if s == l.set {
				want[id] = true
			}
		}
		if len(x.meta) == 0 {
			continue
		}
		all := true
		for k, v := range x.meta {
			if g, ok := l.meta[k]; !ok || g != v {
				all = false
			}
		}
		if all {
			want[id] = true
		}
	}
	for _, id := range h.SortedKeys(want) {
		if m.lists[id] != nil {
			lists = append(lists, id)
		} else {
			missing = append(missing, id)
		}
	}
	return
}

// mop is a request on the selected lists. each is its effect on one list:
// an error, or the results.
type mop struct {
	name   string
	method string
	path   string
	q      url.Values
	body   obj
	all    bool // nothing selected: all lists
	each   func(a *alist) (fail bool, results []any)
	// inQuery: the selection is in the query.
	inQuery bool
	errOnly bool
}

func (o *mop) req(x selection) req {
	v := url.Values{}
	for k, s := range o.q {
		v[k] = s
	}
	q := req{method: o.method, path: o.path}
	if o.inQuery {
		for k, s := range x.query() {
			v[k] = s
		}
	} else {
		b := x.body()
		for k, s := range o.body {
			b[k] = s
		}
		q.body = js(b)
	}
	if len(v) > 0 {
		q.path += "?" + v.Encode()
	}
	return q
}

func (a *alist) tinies(ids []uint64) (r []any) {
	s := a.ranked()
	for i := range s {
		for _, id := range ids {
			if s[i].id == id {
				r = append(r, a.tiny(s, i))
				break
			}
		}
	}
	return
}

func mops() (r []mop) {
	pl := func(i int) string { return fmt.Sprintf(`{"n":%d}`, i) }
	add := func(m mop) { r = append(r, m) }
	variants := func(m mop, results bool) {
		for _, res := range []bool{false, true} {
			for _, eo := range []bool{false, true} {
				n := m
				n.q = url.Values{}
				for k, v := range m.q {
					n.q[k] = v
				}
				if res {
					if !results {
						continue
					}
					n.q.Set("results", "true")
				} else if results {
					each := m.each
					n.each = func(a *alist) (bool, []any) { f, _ := each(a); return f, nil }
				}
				if eo {
					n.q.Set("errors_only", "true")
					n.errOnly = true
				}
				add(n)
			}
		}
	}
	create := func(es ...elem) mop {
		return mop{method: "POST", path: "/xlist/elements", body: obj{"payload": ejs(es...)}, each: func(a *alist) (bool, []any) {
			var ids []uint64
			for _, e := range es {
				if _, ok := a.m[e.id]; ok {
					return true, nil
				}
				ids = append(ids, e.id)
			}
			for _, e := range es {
				e.upd = now()
				a.m[e.id] = e
			}
			return false, a.tinies(ids)
		}}
	}
	put := func(es ...elem) mop {
		return mop{method: "PUT", path: "/xlist/elements", body: obj{"payload": ejs(es...)}, each: func(a *alist) (bool, []any) {
			var ids []uint64
			for _, e := range es {
				e.upd = now()
				a.m[e.id] = e
				ids = append(ids, e.id)
			}
			return false, a.tinies(ids)
		}}
	}
	e := func(id, score uint64, n int) elem { return elem{id: id, score: score, tie: uint32(n), payload: pl(n)} }
	variants(create(e(7, 25, 1)), true)
	add(create(e(2, 25, 1), e(7, 1, 2)))
	r[len(r)-1].q = url.Values{"results": {"true"}}
	add(create(e(9, 25, 1), e(8, 1000, 2), e(7, 25, 4)))
	r[len(r)-1].q = url.Values{"results": {"true"}}
	variants(put(e(2, 15, 1)), true)
	add(put(e(1, 25, 1), e(7, 0, 2), e(3, 5, 3)))
	r[len(r)-1].q = url.Values{"results": {"true"}}
	nothing := func(a *alist) (bool, []any) { return false, nil }
	for _, id := range []uint64{1, 3} {
		id := id
		variants(mop{method: "DELETE", path: fmt.Sprint("/xlist/elements/", id), inQuery: true, each: func(a *alist) (bool, []any) { delete(a.m, id); return false, nil }}, false)
		add(mop{method: "GET", path: fmt.Sprint("/xlist/elements/", id), inQuery: true, each: func(a *alist) (bool, []any) { return false, a.tinies([]uint64{id}) }})
	}
	variants(mop{method: "PUT", path: "/xlist/verify", all: true, each: nothing}, false)
	variants(mop{method: "PUT", path: "/xlist/verify", q: url.Values{"elements": {"true"}, "repair": {"true"}}, all: true, each: nothing}, false)
	variants(mop{method: "PUT", path: "/xlist/reindex", all: true, each: nothing}, false)
	for i := range r {
		r[i].name = r[i].method + " " + r[i].path + "?" + r[i].q.Encode() + " " + js(r[i].body)
	}
	return
}

func fill25(s *srv) (*amodel, error) {
	m := newModel()
	s.keys = map[string][]string{}
	e := func(id, score uint64) elem { return elem{id: id, score: score, payload: fmt.Sprintf(`{"e":%d}`, id)} }
	var more []elem
	for i := uint64(0); i < 30; i++ {
		more = append(more, e(100+i, 10+i/2))
	}
	mk := func(id, set string, meta map[string]string, es ...elem) error {
		vsched.Advance(time.Second)
		q := qNewList(&alist{id: id, set: set, merge: 10, split: 20, meta: meta}, false, es...)
		had := map[string]bool{}
		for _, k := range s.st.Keys() {
			had[k] = true
		}
		err := s.run(m, &q)
		for _, k := range s.st.Keys() {
			if !had[k] {
				s.keys[id] = append(s.keys[id], k)
			}
		}
		return err
	}
	for _, err := range []error{
		mk("aa", "s1", map[string]string{"game": "1"}, append(more, e(1, 10), e(2, 20), e(3, 30))...),
		mk("bb", "s1", map[string]string{"game": "2", "c": "dk"}, e(1, 20), e(2, 10)),
		mk("cc", "s2", map[string]string{"game": "1", "c": "dk"}, e(3, 1)),
		mk("dd", "s2", nil),
		mk("ee", "s3", map[string]string{"game": "3", "k": ""}, e(2, 7), e(1, 7)),
	} {
		if err != nil {
			return nil, err
		}
	}
	vsched.Advance(time.Second)
	return m, nil
}

// broken lists fail in the requests.
func (o *mop) judge(m *amodel, x selection, r *resp, broken map[string]bool) error {
	if r.code != 200 {
		return fmt.Errorf("status %d: %.300s", r.code, r.raw)
	}
	got, ok := r.js.(map[string]any)
	if !ok {
		return fmt.Errorf("response %.300s", r.raw)
	}
	lists, missing := x.resolve(m, o.all)
	succ := map[string]any{}
	fail := map[string]bool{}
	for _, id := range missing {
		fail[id] = true
	}
	for _, id := range lists {
		if broken[id] {
			fail[id] = true
			continue
		}
		f, res := o.each(m.lists[id])
		if f {
			fail[id] = true
			continue
		}
		succ[id] = obj{"results": res}
	}
	ge, _ := got["errors"].(map[string]any)
	var gf, wf []string
	for id, v := range ge {
		gf = append(gf, id)
		if s, ok := v.(string); !ok || s == "" {
			return fmt.Errorf("no error for %s: %.300s", id, r.raw)
		}
	}
	sort.Strings(gf)
	wf = h.SortedKeys(fail)
	if fmt.Sprint(gf) != fmt.Sprint(wf) {
		return fmt.Errorf("errors for %v, want %v: %.600s", gf, wf, r.raw)
	}
	if o.errOnly {
		succ = map[string]any{}
	}
	gs, _ := got["success"].(map[string]any)
	for _, v := range gs {
		if o, ok := v.(map[string]any); ok {
			if l, ok := o["results"].([]any); ok {
				sort.SliceStable(l, func(i, j int) bool { return num(l[i], "from_top") < num(l[j], "from_top") })
			}
		}
	}
	g, w := norm(obj{"success": gs}), norm(asJSON(obj{"success": succ}))
	if js(g) != js(w) {
		return fmt.Errorf("success %.800s, want %.800s", js(g), js(w))
	}
	return nil
}

func num(v any, k string) int {
	o, _ := v.(map[string]any)
	n := 0
	fmt.Sscan(fmt.Sprint(o[k]), &n)
	return n
}

func selections(c *h.Ctx) (r []selection) {
	names := []string{"aa", "bb", "cc", "dd", "zz"}
	lists := [][]string{nil, {}}
	for set := 1; set < 1<<len(names); set++ {
		var l []string
		for i, n := range names {
			if set>>i&1 != 0 {
				l = append(l, n)
			}
		}
		lists = append(lists, l)
	}
	lists = append(lists, []string{"aa", "aa"}, []string{"bb", "aa", "bb", "zz", "zz"}, []string{"a"}, []string{"AA", "aa"})
	metas := []map[string]string{nil, {}, {"game": "1"}, {"c": "dk"}, {"game": "2", "c": "dk"}, {"game": "3", "c": "dk"}, {"c": ""}, {"game": "dk"}, {"k": ""}}
	sets := [][]string{nil, {}, {"s1"}, {"s2"}, {"s2", "s1"}, {"s2", "zz", "s2"}, {"s"}}
	for _, l := range lists {
		for _, m := range metas {
			for _, s := range sets {
				r = append(r, selection{l, m, s})
			}
		}
	}
	return
}

func c25(c *h.Ctx) {
	hd := boot("", false)
	sels := selections(c)
	ops := mops()
	n := 0
	mine := func() bool { n++; return (n-1)%c.NShards == c.Shard }
	one := func(desc string, fn func(s *srv, m *amodel) error) bool {
		c.Begin(func() string { return desc })
		err := h.Seq(0, func() error {
			s, err := newSrv(hd, h.NewCache(1000), 0)
			if err != nil {
				return err
			}
			m, err := fill25(s)
			if err != nil {
				return err
			}
			if err := fn(s, m); err != nil {
				return err
			}
			return nil
		})
		c.Trace(1)
		c.Trans(1)
		if err != nil {
			c.Violate(desc, desc, "%s: %v", desc, err)
		}
		return !c.Stopped() && !c.Expired()
	}
	for oi := range ops {
		o := &ops[oi]
		for _, x := range sels {
			if !mine() {
				continue
			}
			q := o.req(x)
			c.StateHash(h.Hash(q.String()))
			if !one(q.String(), func(s *srv, m *amodel) error {
				r, err := s.do(q)
				if err != nil {
					return err
				}
				if err := o.judge(m, x, r, nil); err != nil {
					return err
				}
				return s.checkLists(m)
			}) {
				return
			}
		}
	}
	c.Bound("selections", len(sels))
	c.Bound("requests", len(ops))
	// Backups contain exactly the selected lists.
	for _, x := range sels {
		if !mine() {
			continue
		}
		q := req{method: "PUT", path: "/xlist/backup", body: js(obj{"lists": x.body(), "destination": obj{"type": "download"}})}
		if !one(q.String(), func(s *srv, m *amodel) error {
			r, err := s.do(q)
			if err != nil {
				return err
			}
			if r.code != 200 {
				return fmt.Errorf("status %d: %.300s", r.code, r.raw)
			}
			vsched.Quiesce(100)
			lists, missing := x.resolve(m, true)
			st, err := s.do(req{method: "GET", path: "/backup/" + r.hd.Get("X-Backup-ID")})
			if err != nil {
				return err
			}
			jo, _ := st.js.(map[string]any)
			es, _ := jo["errors"].(map[string]any)
			if fmt.Sprint(jo["done"]) != "true" || num(jo, "lists") != len(lists)+len(missing) || num(jo, "lists_done") != len(lists) || fmt.Sprint(h.SortedKeys(es)) != fmt.Sprint(append([]string{}, missing...)) {
				return fmt.Errorf("selected %v and the missing %v, status %.500s", lists, missing, st.raw)
			}
			if err := s.checkLists(m); err != nil {
				return err
			}
			// Restored on another server.
			s2, err := newSrv(hd, nil, 0)
			if err != nil {
				return err
			}
			m2 := newModel()
			for _, id := range lists {
				m2.lists[id] = m.lists[id].clone()
			}
			rr, err := s2.do(req{method: "POST", path: "/xlist/restore", body: string(r.raw), ctype: "application/octet-stream"})
			if err != nil {
				return err
			}
			ro, _ := rr.js.(map[string]any)
			if rr.code != 200 || num(ro, "restored") != len(lists) || num(ro, "skipped") != 0 {
				return fmt.Errorf("restoring %v: status %d: %.300s", lists, rr.code, rr.raw)
			}
			return s2.checkLists(m2)
		}) {
			return
		}
	}
	c25many(c, one, mine)
	if c.Stopped() || c.Expired() {
		return
	}
	// Lists whose data cannot be read fail, the others do not.
	for _, lost := range []string{"aa", "bb", "cc"} {
		for oi := range ops {
			o := &ops[oi]
			if o.q.Get("repair") != "" {
				// Drops what it cannot read.
				continue
			}
			for _, x := range sels {
				if len(x.lists) > 2 || len(x.meta) > 1 || len(x.sets) > 1 {
					continue
				}
				if !mine() {
					continue
				}
				q := o.req(x)
				if !one("data of "+lost+" not readable: "+q.String(), func(s *srv, m *amodel) error {
					keys := map[string]bool{}
					for _, k := range s.keys[lost] {
						keys[k] = true
					}
					if err := s.reload(); err != nil {
						return err
					}
					s.st.Fault = func(_ int, kind byte, set, key string) error {
						if keys[set+"/"+key] {
							return h.ErrInjected
						}
						return nil
					}
					r, err := s.do(q)
					s.st.Fault = nil
					if err != nil {
						return err
					}
					if err := o.judge(m, x, r, map[string]bool{lost: true}); err != nil {
						return err
					}
					return s.checkLists(m)
				}) {
					return
				}
			}
		}
	}
	c25conc(c)
}
