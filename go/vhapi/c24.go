//go:build go1.21

package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// areq is a request with its documented effect: want returns the expected
// status and body (nil: not compared) and updates the model.
type areq struct {
	name string
	q    req
	want func(m *amodel) (int, any)
	// same: in the same second as the request before.
	same bool
}

func ej(e elem) obj {
	o := obj{"id": e.id, "score": e.score, "tie_breaker": e.tie}
	if e.payload != "" {
		o["payload"] = payload(e)
	}
	return o
}

func ejs(es ...elem) (r []any) {
	for _, e := range es {
		r = append(r, ej(e))
	}
	return r
}

func onList(id string, fn func(m *amodel, a *alist) (int, any)) func(m *amodel) (int, any) {
	return func(m *amodel) (int, any) {
		a := m.lists[id]
		if a == nil {
			return 404, nil
		}
		return fn(m, a)
	}
}

func mk(method, path string, body any, want func(m *amodel) (int, any)) areq {
	q := req{method: method, path: path}
	if body != nil {
		q.body = js(body)
	}
	return areq{name: q.String(), q: q, want: want}
}

func qCreate(list string, e elem, rng int) areq {
	p := "/lists/" + list + "/elements"
	n := 5
	if rng >= 0 {
		p += fmt.Sprint("?range=", rng)
		n = rng
	}
	return mk("POST", p, ej(e), onList(list, func(m *amodel, a *alist) (int, any) {
		if _, ok := a.m[e.id]; ok {
			return 409, nil
		}
		x := e
		x.upd = now()
		a.m[e.id] = x
		s := a.ranked()
		return 200, a.full(s, rankOf(s, e.id), n)
	}))
}

func qPut(list string, e elem, rng int) areq {
	p := fmt.Sprintf("/lists/%s/elements/%d", list, e.id)
	n := 5
	if rng >= 0 {
		p += fmt.Sprint("?range=", rng)
		n = rng
	}
	return mk("PUT", p, ej(e), onList(list, func(m *amodel, a *alist) (int, any) {
		old := a.ranked()
		oi := rankOf(old, e.id)
		x := e
		x.upd = now()
		a.m[e.id] = x
		s := a.ranked()
		o := a.full(s, rankOf(s, e.id), n)
		if oi >= 0 {
			o["previous_rank"] = a.dflt(old, oi)
		}
		return 200, o
	}))
}

func qPutMulti(list string, results bool, es ...elem) areq {
	p := "/lists/" + list + "/elements"
	if results {
		p += "?results=true"
	}
	return mk("PUT", p, ejs(es...), onList(list, func(m *amodel, a *alist) (int, any) {
		var ids []uint64
		for _, e := range es {
			e.upd = now()
			a.m[e.id] = e
			ids = append(ids, e.id)
		}
		o := obj{}
		if results {
			o["found"] = a.found(ids)
		}
		return 200, o
	}))
}

// found are the elements in rank order.
func (a *alist) found(ids []uint64) []any {
	s := a.ranked()
	var rs []int
	seen := map[uint64]bool{}
	for _, id := range ids {
		if i := rankOf(s, id); i >= 0 && !seen[id] {
			seen[id] = true
			rs = append(rs, i)
		}
	}
	sort.Ints(rs)
	var r []any
	for _, i := range rs {
		r = append(r, a.dflt(s, i))
	}
	return r
}

func qDelete(list string, ids ...uint64) areq {
	p := fmt.Sprintf("/lists/%s/elements/%d", list, ids[0])
	if len(ids) > 1 {
		p = "/lists/" + list + "/elements?"
		for i, id := range ids {
			if i > 0 {
				p += "&"
			}
			p += fmt.Sprint("element_ids=", id)
		}
	}
	return mk("DELETE", p, nil, onList(list, func(m *amodel, a *alist) (int, any) {
		for _, id := range ids {
			delete(a.m, id)
		}
		return 204, nil
	}))
}

const anyErr = 499

// qBad is a request that is refused and has no effect.
func qBad(method, path string, body any, code int) areq {
	return mk(method, path, body, func(m *amodel) (int, any) { return code, nil })
}

func qNewList(a *alist, replace bool, es ...elem) areq {
	p := "/lists"
	if replace {
		p += "?replace=true"
	}
	b := obj{"id": a.id, "set": a.set}
	if a.meta != nil {
		b["metadata"] = a.meta
	}
	if a.split != 2000 {
		b["split_size"] = a.split
	}
	if a.merge != 500 {
		b["merge_size"] = a.merge
	}
	if a.load {
		b["load_index"] = true
	}
	if len(es) > 0 {
		b["populate"] = ejs(es...)
	}
	return mk("POST", p, b, func(m *amodel) (int, any) {
		if m.lists[a.id] != nil && !replace {
			return 409, nil
		}
		n := a.clone()
		n.m = map[uint64]elem{}
		for _, e := range es {
			e.upd = now()
			n.m[e.id] = e
		}
		m.lists[a.id] = n
		return 200, n.infoFull(true)
	})
}

func qClone(from string, a *alist) areq {
	b := obj{"id": a.id, "set": a.set}
	if a.meta != nil {
		b["metadata"] = a.meta
	}
	return mk("PUT", "/lists/"+from+"/clone", b, onList(from, func(m *amodel, o *alist) (int, any) {
		if m.lists[a.id] != nil {
			return 409, nil
		}
		n := a.clone()
		n.m = o.clone().m
		m.lists[a.id] = n
		return 200, n.infoFull(true)
	}))
}

func qDelList(list string) areq {
	return mk("DELETE", "/lists/"+list, nil, func(m *amodel) (int, any) {
		delete(m.lists, list)
		return 204, nil
	})
}

func qReindex(list string) areq {
	return mk("PUT", "/lists/"+list+"/reindex", nil, onList(list, func(m *amodel, a *alist) (int, any) { return 200, a.infoFull(true) }))
}

func qOpres(list, op string) areq {
	return mk("PUT", "/lists/"+list+"/"+op, nil, onList(list, func(m *amodel, a *alist) (int, any) { return 200, obj{"list": a.info()} }))
}

// reads are all the read requests compared in every state.
func reads(m *amodel, ids []uint64, extra []string) (r []areq) {
	lists := append([]string{"aa", "bb", "zz"}, extra...)
	for _, li := range lists {
		li := li
		n := 0
		if a := m.lists[li]; a != nil {
			n = len(a.m)
		}
		base := "/lists/" + li
		for k, id := range ids {
			id := id
			for _, rg := range []int{-1, 0, 1, 100} {
				if rg != []int{-1, 0, 1, 100}[k%4] && k > 1 {
					continue
				}
				p := fmt.Sprintf("%s/elements/%d", base, id)
				nb := 5
				if rg >= 0 {
					p += fmt.Sprint("?range=", rg)
					nb = rg
				}
				r = append(r, mk("GET", p, nil, onList(li, func(m *amodel, a *alist) (int, any) {
					s := a.ranked()
					i := rankOf(s, id)
					if i < 0 {
						return 404, nil
					}
					return 200, a.full(s, i, nb)
				})))
			}
		}
		finds := [][]uint64{ids, {ids[0]}, {9999, ids[1], ids[1], 9998, ids[0]}, {}}
		for _, f := range finds {
			f := f
			r = append(r, mk("POST", base+"/elements/find", obj{"element_ids": f}, onList(li, func(m *amodel, a *alist) (int, any) {
				var nf []uint64
				seen := map[uint64]bool{}
				for _, id := range f {
					if _, ok := a.m[id]; !ok && !seen[id] {
						seen[id] = true
						nf = append(nf, id)
					}
				}
				sort.Slice(nf, func(i, j int) bool { return nf[i] < nf[j] })
				return 200, obj{"found": a.found(f), "not_found": nf}
			})))
			for _, rg := range []int{-1, 0, 1, 100} {
				for k, id := range ids {
					id := id
					if k > 2 {
						continue
					}
					p := fmt.Sprintf("%s/elements/%d/around", base, id)
					nb := 5
					if rg >= 0 {
						p += fmt.Sprint("?range=", rg)
						nb = rg
					}
					r = append(r, mk("POST", p, obj{"element_ids": f}, onList(li, func(m *amodel, a *alist) (int, any) {
						s := a.ranked()
						i := rankOf(s, id)
						if i < 0 {
							return 404, nil
						}
						o := a.dflt(s, i)
						loc := a.found(append(append([]uint64{}, f...), id))
						at := -1
						for j := range loc {
							if loc[j].(obj)["id"].(uint64) == id {
								at = j
							}
						}
						o["neighbors"] = obj{"above": loc[max(0, at-nb):at], "below": loc[at+1 : min(len(loc), at+1+nb)]}
						o["local_from_top"] = at
						o["local_from_bottom"] = len(loc) - 1 - at
						return 200, o
					})))
				}
			}
		}
		for _, tb := range []bool{false, true} {
			tb := tb
			p := base
			if tb {
				p += "?top_bottom=true"
			}
			r = append(r, mk("GET", p, nil, onList(li, func(m *amodel, a *alist) (int, any) { return 200, a.infoFull(tb) })))
		}
		offs := []int{0, 1, 2, n - 1, n, n + 1}
		for _, off := range offs {
			off := off
			if off < 0 {
				continue
			}
			for _, lim := range []int{-1, 1, 2, 1000} {
				lim := lim
				q := ""
				l := 25
				if lim >= 0 {
					q = fmt.Sprint("&limit=", lim)
					l = lim
				}
				win := func(from func(n int) int) func(m *amodel) (int, any) {
					return onList(li, func(m *amodel, a *alist) (int, any) {
						s := a.ranked()
						if off >= len(s) {
							return 404, nil
						}
						var res []any
						st := from(len(s))
						for i := st; i < len(s) && i < st+l; i++ {
							res = append(res, a.dflt(s, i))
						}
						return 200, res
					})
				}
				r = append(r, mk("GET", fmt.Sprintf("%s/range?from_top=%d%s", base, off, q), nil, win(func(int) int { return off })))
				r = append(r, mk("GET", fmt.Sprintf("%s/range?from_bottom=%d%s", base, off, q), nil, win(func(n int) int { return n - 1 - off })))
			}
		}
		for _, pc := range []string{"", "0", "50.0", "100", "33.3", "66.7", "99.99", "1e-300", "12.5"} {
			pc := pc
			for _, rg := range []int{-1, 0, 2} {
				p := base + "/percentile"
				var qs []string
				nb := 5
				if pc != "" {
					qs = append(qs, "from_top="+pc)
				}
				if rg >= 0 {
					qs = append(qs, fmt.Sprint("range=", rg))
					nb = rg
				}
				if len(qs) > 0 {
					p += "?" + strings.Join(qs, "&")
				}
				r = append(r, mk("GET", p, nil, onList(li, func(m *amodel, a *alist) (int, any) {
					s := a.ranked()
					if len(s) == 0 {
						return 404, nil
					}
					f := 50.0
					if pc != "" {
						f, _ = strconv.ParseFloat(pc, 64)
					}
					rat := new(big.Rat).SetFloat64(f / 100)
					rat.Mul(rat, big.NewRat(int64(len(s)), 1))
					i := int(new(big.Int).Quo(rat.Num(), rat.Denom()).Int64())
					if i >= len(s) {
						i = len(s) - 1
					}
					return 200, a.full(s, i, nb)
				})))
			}
		}
		// Invalid requests.
		for _, p := range []string{"/percentile?from_top=-1", "/percentile?from_top=100.1", "/percentile?from_top=abc", "/percentile?from_top=NaN", "/percentile?from_top=Inf",
			"/range?from_top=0&from_bottom=0", "/range", "/range?from_top=0&limit=0", "/range?from_top=-1", "/range?from_top=0&limit=1001",
			"/elements/1?range=-1", "/elements/1?range=101"} {
			want := func(m *amodel) (int, any) { return 400, nil }
			if strings.HasPrefix(p, "/perc") {
				// The list is looked up first.
				want = onList(li, func(m *amodel, a *alist) (int, any) { return 400, nil })
			}
			r = append(r, mk("GET", base+p, nil, want))
		}
		r = append(r, mk("GET", base+"/elements/18446744073709551616", nil, onList(li, func(m *amodel, a *alist) (int, any) { return 400, nil })))
		r = append(r, mk("GET", base+"/elements/abc", nil, func(m *amodel) (int, any) { return 400, nil }))
		r = append(r, qOpres(li, "verify"))
	}
	// The directory.
	page := func(q string, sel func(ids []string) (lo, hi int)) {
		r = append(r, mk("GET", "/lists"+q, nil, func(m *amodel) (int, any) {
			all := h.SortedKeys(m.lists)
			lo, hi := sel(all)
			var ls []any
			for _, id := range all[lo:hi] {
				ls = append(ls, m.lists[id].info())
			}
			return 200, obj{"lists_before": lo, "lists_after": len(all) - hi, "lists": ls}
		}))
	}
	page("", func(a []string) (int, int) { return 0, len(a) })
	page("?limit=1", func(a []string) (int, int) { return 0, min(1, len(a)) })
	for _, cur := range []string{"aa", "ab", "bb", "zz"} {
		cur := cur
		page("?limit=1&after_id="+cur, func(a []string) (int, int) {
			lo := sort.Search(len(a), func(i int) bool { return a[i] > cur })
			return lo, min(lo+1, len(a))
		})
		page("?limit=1&before_id="+cur, func(a []string) (int, int) {
			hi := sort.SearchStrings(a, cur)
			return max(0, hi-1), hi
		})
		page("?before_id="+cur, func(a []string) (int, int) { return 0, sort.SearchStrings(a, cur) })
	}
	return r
}

// run sends the request and compares the response with the model.
func (s *srv) run(m *amodel, a *areq) error {
	code, want := a.want(m)
	r, err := s.do(a.q)
	if err != nil {
		return fmt.Errorf("%s: %v", a.name, err)
	}
	return s.compare(a, r, code, want)
}

func (s *srv) compare(a *areq, r *resp, code int, want any) error {
	// Several reasons to refuse: any of them.
	if code == anyErr && r.code >= 400 && r.code < 500 {
		return nil
	}
	if r.code != code {
		return fmt.Errorf("%s: status %d, want %d: %.300s", a.name, r.code, code, r.raw)
	}
	if want == nil || code >= 300 {
		return nil
	}
	got := r.js
	if o, ok := got.(map[string]any); ok {
		if sg, ok := o["segments"]; ok {
			sn, _ := strconv.ParseFloat(fmt.Sprint(sg), 64)
			en, _ := strconv.ParseFloat(fmt.Sprint(o["elements"]), 64)
			av, _ := strconv.ParseFloat(fmt.Sprint(o["avg_segment_elements"]), 64)
			if sn > 0 && math.Abs(av-en/sn) > 1e-9 || en > 0 && sn < 1 {
				return fmt.Errorf("%s: %v elements in %v segments, average %v", a.name, en, sn, av)
			}
			for _, k := range []string{"segments", "avg_segment_elements", "cache_hits", "cache_misses", "cache_percent"} {
				delete(o, k)
			}
		}
	}
	w := asJSON(want)
	if !same(got, w) {
		return fmt.Errorf("%s: response %.1500s, want %.1500s", a.name, js(norm(got)), js(norm(w)))
	}
	return nil
}

// aworld is a space of request sequences.
type aworld struct {
	name  string
	cache int
	init  []areq
	ops   []areq
	depth int
	ids   []uint64
	// lists are further lists read.
	lists []string
}

func (w *aworld) desc(seq []int) string {
	var p []string
	for _, a := range w.init {
		p = append(p, a.name)
	}
	for _, i := range seq {
		n := w.ops[i].name
		if w.ops[i].same {
			n += " (same second)"
		}
		p = append(p, n)
	}
	return "world " + w.name + ": " + strings.Join(p, "; ")
}

// explore runs every sequence; in every new state all reads are compared.
func (w *aworld) explore(c *h.Ctx) {
	visited := map[uint64]bool{}
	hd := boot("", false)
	run := func(seq []int, check bool) (key uint64, err error) {
		c.Begin(func() string { return w.desc(seq) })
		err = h.Seq(0, func() error {
			var cc rankdb.Cache
			if w.cache >= 0 {
				cc = h.NewCache(w.cache)
			}
			s, err := newSrv(hd, cc, 0)
			if err != nil {
				return err
			}
			m := newModel()
			for i := range w.init {
				vsched.Advance(time.Second)
				if err := s.run(m, &w.init[i]); err != nil {
					return err
				}
			}
			for _, o := range seq {
				if !w.ops[o].same {
					vsched.Advance(time.Second)
				}
				if err := s.run(m, &w.ops[o]); err != nil {
					return err
				}
			}
			var lay []string
			for _, id := range h.SortedKeys(m.lists) {
				l, ok := s.db.Lists.ByID(rankdb.ListID(id))
				if !ok {
					return fmt.Errorf("list %s is not in the directory", id)
				}
				st, err := l.Stats(bg, s.st, false)
				if err != nil {
					return err
				}
				lay = append(lay, fmt.Sprint(st.Segments))
			}
			key = h.Hash(m.key() + fmt.Sprint(lay))
			if visited[key] {
				return nil
			}
			if err := s.checkLists(m); err != nil {
				return err
			}
			before := m.key()
			rs := reads(m, w.ids, w.lists)
			for i := range rs {
				if err := s.run(m, &rs[i]); err != nil {
					return err
				}
			}
			c.Count("read requests", len(rs))
			if m.key() != before {
				return fmt.Errorf("harness: reads changed the model")
			}
			return s.checkLists(m)
		})
		return key, err
	}
	frontier := [][]int{nil}
	if k, err := run(nil, true); err != nil {
		d := w.desc(nil)
		c.Violate(d, d, "%s: %v", d, err)
		return
	} else {
		visited[k] = true
		c.StateHash(k)
	}
	for d := 1; d <= w.depth; d++ {
		var next [][]int
		for fi, f := range frontier {
			for o := range w.ops {
				if c.Expired() {
					c.Bound("depth:"+w.name, fmt.Sprintf("%d complete of %d (time)", d-1, w.depth))
					return
				}
				if d == 2 && int(h.Hash(fmt.Sprint(fi, o))%uint64(c.NShards)) != c.Shard {
					continue
				}
				seq := append(append([]int{}, f...), o)
				k, err := run(seq, true)
				c.Trace(1)
				c.Trans(1)
				if err != nil {
					d := w.desc(seq)
					c.Violate(d, d, "%s: %v", d, err)
					if c.Stopped() {
						return
					}
					continue
				}
				if visited[k] {
					continue
				}
				visited[k] = true
				if d > 1 || c.Shard == int(k%uint64(c.NShards)) {
					c.StateHash(k)
				}
				next = append(next, seq)
			}
		}
		frontier = next
	}
	c.Bound("depth:"+w.name, w.depth)
}

func same1(a areq) areq { a.same = true; return a }

func c24(c *h.Ctx) {
	if os.Getenv("VH_CONC") != "" { // Development aid.
		boot("", false)
		c24conc(c)
		return
	}
	const big = math.MaxUint64
	aa := &alist{id: "aa", set: "set1", merge: 500, split: 2000, meta: map[string]string{"game": "1"}}
	aa2 := &alist{id: "aa", set: "set2", merge: 20, split: 40, load: true}
	bb := &alist{id: "bb", set: "set1", merge: 500, split: 2000, meta: map[string]string{"game": "2"}}
	e := func(id, score uint64, tie uint32, p string) elem {
		return elem{id: id, score: score, tie: tie, payload: p}
	}
	pl := func(n int) string { return fmt.Sprintf(`{"v":"%d"}`, n) }
	w := &aworld{name: "small", cache: -1, depth: h.Pick(c, 3, 4), ids: []uint64{1, 2, 3, big, 9},
		init: []areq{qNewList(aa, false)},
		ops: []areq{
			qCreate("aa", e(1, 10, 0, pl(1)), -1),
			qCreate("aa", e(2, 10, 5, pl(2)), 0),
			qCreate("aa", e(big, 10, 0, ""), 1),
			same1(qCreate("aa", e(3, 10, 0, pl(3)), 100)),
			qCreate("bb", e(1, 30, 0, pl(4)), -1),
			qPut("aa", e(1, 20, 0, pl(5)), -1),
			same1(qPut("aa", e(2, big, math.MaxUint32, pl(6)), 1)),
			qPut("aa", e(3, 0, 0, `{}`), 0),
			qPut("bb", e(2, 10, 0, pl(7)), 100),
			qPutMulti("aa", true, e(1, 30, 0, pl(8)), e(2, 30, 0, pl(9)), e(3, 1, 0, pl(10))),
			qPutMulti("aa", false, e(3, 30, 0, pl(11)), e(2, 5, 0, pl(12))),
			same1(qPutMulti("bb", true, e(9, 30, 0, pl(11)))),
			qDelete("aa", 1), qDelete("aa", 2, 3), qDelete("aa", 3, 9), qDelete("bb", 1),
			qBad("PUT", "/lists/aa/elements/1", ej(e(2, 1, 0, "")), anyErr),
			qBad("POST", "/lists/aa/elements", obj{"score": 3}, anyErr),
			qBad("POST", "/lists/a/elements", ej(e(2, 1, 0, "")), 400),
			qBad("POST", "/lists", obj{"id": "cc"}, 400),
			qBad("POST", "/lists", obj{"id": "c c", "set": "set1"}, 400),
			qBad("POST", "/lists", obj{"id": "cc", "set": "set1", "split_size": 9}, 400),
			qNewList(aa, false), qNewList(aa, true, e(1, 5, 0, pl(1)), e(3, 7, 0, pl(2)), e(2, 5, 1, "")),
			qNewList(bb, false, e(2, 1, 0, pl(1)), e(1, 1, 0, pl(2))),
			qNewList(aa2, true),
			qDelList("aa"), qDelList("bb"), qClone("aa", bb), qClone("bb", aa),
			qReindex("aa"), qOpres("aa", "repair"), qOpres("bb", "repair?clear=true"),
		}}
	w.explore(c)
	if c.Stopped() {
		return
	}
	// Several segments.
	var pop []elem
	for i := 1; i <= 45; i++ {
		pop = append(pop, e(uint64(i*7%46), uint64(100-i/2), uint32(i%3), pl(i)))
	}
	seg := &alist{id: "aa", set: "set1", merge: 10, split: 20}
	var half []elem
	for i := 0; i < 20; i++ {
		half = append(half, e(uint64(2*i+1), uint64(60+i), 0, pl(i)))
	}
	var del []uint64
	for i := 1; i < 35; i++ {
		del = append(del, uint64(i))
	}
	for _, cache := range []int{-1, 0} {
		w = &aworld{name: fmt.Sprintf("segments cache=%d", cache), cache: cache, depth: h.Pick(c, 2, 3), ids: []uint64{1, 2, 20, 45, 99, 46, 23},
			init: []areq{qNewList(seg, false, pop...)},
			ops: []areq{
				qCreate("aa", e(99, 80, 1, pl(1)), -1), qCreate("aa", e(46, 1000, 1, pl(1)), 100),
				qPut("aa", e(1, 78, 0, pl(5)), 3), qPut("aa", e(45, 0, 0, pl(5)), -1), qPut("aa", e(99, 90, 0, pl(5)), 100),
				qPutMulti("aa", true, half...), qPutMulti("aa", false, half[:7]...),
				qDelete("aa", del...), qDelete("aa", 23), qClone("aa", bb), qNewList(aa, true, half...), qOpres("aa", "repair"), qReindex("aa"),
			}}
		w.explore(c)
		if c.Stopped() {
			return
		}
	}
	if c.Shard == 0 {
		nullPayload(c)
	}
	if !c.Stopped() {
		c24conc(c)
	}
}

// nullPayload checks that updates without a payload keep the payload, as documented.
func nullPayload(c *h.Ctx) {
	hd := boot("", false)
	for _, form := range []string{"null", "omitted"} {
		el := `{"id":1,"score":5,"payload":null}`
		if form == "omitted" {
			el = `{"id":1,"score":5}`
		}
		for _, q := range []req{
			{method: "PUT", path: "/lists/aa/elements/1", body: el},
			{method: "PUT", path: "/lists/aa/elements", body: "[" + el + "]"},
			{method: "PUT", path: "/xlist/elements", body: `{"lists":["aa"],"payload":[` + el + `]}`},
		} {
			q := q
			key := fmt.Sprintf("payload %s in %s %s", form, q.method, q.path)
			err := h.Seq(0, func() error {
				s, err := newSrv(hd, nil, 0)
				if err != nil {
					return err
				}
				m := newModel()
				a := &alist{id: "aa", set: "set1", merge: 500, split: 2000}
				r := qNewList(a, false, elem{id: 1, score: 10, payload: `{"v":"1"}`}, elem{id: 2, score: 7, payload: `{"v":"2"}`})
				if err := s.run(m, &r); err != nil {
					return err
				}
				rs, err := s.do(q)
				if err != nil {
					return err
				}
				if rs.code != 200 {
					return fmt.Errorf("%v: status %d %.300s", q, rs.code, rs.raw)
				}
				rs, err = s.do(req{method: "GET", path: "/lists/aa/elements/1?range=0"})
				if err != nil {
					return err
				}
				o, _ := rs.js.(map[string]any)
				if o == nil || fmt.Sprint(o["score"]) != "5" || fmt.Sprint(o["from_top"]) != "1" {
					return fmt.Errorf("%v: afterwards the element is %.300s", q, rs.raw)
				}
				if got := js(norm(o["payload"])); got != `{"v":"1"}` {
					c.Violate(key, key, "%v: the payload is %s afterwards, want it kept (documented: on updates null means do not update)", q, got)
				}
				return nil
			})
			c.Trans(3)
			if err != nil {
				c.Violate(key+" result", key, "%v", err)
			}
		}
	}
	c.Bound("updates without payload", 6)
}
