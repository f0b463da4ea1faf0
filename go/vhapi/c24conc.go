//go:build go1.21

package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// rprog are requests sent concurrently.
type rprog struct {
	reqs []areq
	// bucket is the number of concurrent updates (0: no limit).
	bucket int
	extra  bool
}

func perms(n int) (r [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			r = append(r, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

func (p *rprog) name() string {
	var n []string
	for _, q := range p.reqs {
		n = append(n, q.name)
	}
	s := strings.Join(n, " || ")
	if p.bucket > 0 {
		s += fmt.Sprintf(" (max %d updates)", p.bucket)
	}
	return s
}

// body sends the requests: every response and the content must be those of
// the requests one after the other in some order.
func (p *rprog) body(init []areq, cache int) (string, error) {
	var cc rankdb.Cache
	if cache >= 0 {
		cc = h.NewCache(cache)
	}
	var s *srv
	var m *amodel
	var err error
	vsched.Frozen(func() {
		s, err = newSrv(handlers[0], cc, p.bucket)
		if err != nil {
			return
		}
		m = newModel()
		for i := range init {
			vsched.Advance(time.Second)
			if err = s.run(m, &init[i]); err != nil {
				return
			}
		}
	})
	if err != nil {
		return "", err
	}
	vsched.Advance(time.Second)
	rs := make([]*resp, len(p.reqs))
	errs := make([]error, len(p.reqs))
	var fns []func()
	for i := range p.reqs {
		i := i
		fns = append(fns, func() { rs[i], errs[i] = s.do(p.reqs[i].q) })
	}
	h.Par(fns...)
	var codes []int
	for i := range rs {
		if errs[i] != nil {
			return "", errs[i]
		}
		codes = append(codes, rs[i].code)
	}
	del := false
	isDel := func(q areq) bool { return q.q.method == "DELETE" && strings.Count(q.q.path, "/") == 2 }
	delElem := false
	for _, q := range p.reqs {
		del = del || isDel(q)
		delElem = delElem || q.q.method == "DELETE" && !isDel(q)
	}
	for i, r := range rs {
		if strings.Contains(string(r.raw), "panic") {
			return "", fmt.Errorf("%s: status %d %.1000s", p.reqs[i].name, r.code, r.raw)
		}
	}
	var ferr error
	var out string
	vsched.Frozen(func() {
		for _, perm := range perms(len(p.reqs)) {
			m2 := m.clone()
			ok := true
			for _, i := range perm {
				if del && (codes[i] == 404 || codes[i] == 500) && !isDel(p.reqs[i]) {
					// The list was deleted during the request; no effect.
					continue
				}
				code, _ := p.reqs[i].want(m2)
				if delElem && p.reqs[i].q.method == "POST" && code == 200 && codes[i] == 404 {
					// Created, but deleted before the response.
					continue
				}
				if code != codes[i] && !(code == anyErr && codes[i] >= 400 && codes[i] < 500) {
					ok = false
				}
			}
			if !ok {
				if ferr == nil {
					ferr = fmt.Errorf("in no order")
				}
				continue
			}
			if err := s.checkLists(m2); err != nil {
				ferr = err
				continue
			}
			ferr = nil
			// Updates are possible: all tokens were returned.
			for i := 0; i < p.bucket+1; i++ {
				q := qPut("zz", elem{id: 1}, -1)
				if err := s.run(m2, &q); err != nil {
					ferr = err
					return
				}
			}
			out = fmt.Sprint(codes, perm, m2.key())
			return
		}
	})
	if ferr != nil {
		var b []string
		for i := range rs {
			b = append(b, fmt.Sprintf("%s: status %d %.2000s", p.reqs[i].name, rs[i].code, rs[i].raw))
		}
		return "", fmt.Errorf("the outcome is that of no order of the requests (%v): %s", ferr, strings.Join(b, "; "))
	}
	return out, nil
}

func c24conc(c *h.Ctx) {
	aa := &alist{id: "aa", set: "set1", merge: 500, split: 2000, meta: map[string]string{"game": "1"}}
	bb := &alist{id: "bb", set: "set1", merge: 500, split: 2000}
	bb2 := &alist{id: "bb", set: "set2", merge: 500, split: 2000}
	e := func(id, score uint64, n int) elem {
		return elem{id: id, score: score, tie: uint32(n), payload: fmt.Sprintf(`{"n":%d}`, n)}
	}
	const big = math.MaxUint64
	init := []areq{qNewList(aa, false, e(1, 10, 1), e(2, 20, 2), e(3, 30, 3))}
	cr := func(n int) areq { return qCreate("aa", e(7, uint64(10*n), n), 1) }
	progs := []rprog{
		{reqs: []areq{cr(1), cr(2)}},
		{reqs: []areq{cr(1), qPut("aa", e(7, 25, 9), -1)}},
		{reqs: []areq{cr(1), qPutMulti("aa", true, e(7, 25, 9), e(1, 5, 8))}},
		{reqs: []areq{cr(1), qDelete("aa", 7)}},
		{reqs: []areq{cr(1), qCreate("aa", e(8, 10, 5), -1)}},
		{reqs: []areq{qPut("aa", e(1, 40, 1), 1), qPut("aa", e(1, 0, 2), 1)}},
		{reqs: []areq{qPut("aa", e(1, 40, 1), 1), qPutMulti("aa", true, e(2, 0, 7), e(1, 0, 2))}},
		{reqs: []areq{qPut("aa", e(1, 40, 1), 1), qDelete("aa", 1, 2)}},
		{reqs: []areq{qPutMulti("aa", false, e(7, 25, 9), e(1, 5, 8)), qPutMulti("aa", true, e(1, 35, 9), e(7, 5, 8))}},
		{reqs: []areq{qDelete("aa", 1), qDelete("aa", 2, 1)}},
		{reqs: []areq{qNewList(bb, false, e(1, 1, 1)), qNewList(bb2, false, e(2, 2, 2), e(1, 3, 3))}},
		{reqs: []areq{qNewList(bb, false, e(1, 1, 1)), qClone("aa", bb2)}},
		{reqs: []areq{qNewList(bb, true, e(1, 1, 1)), qNewList(bb2, true, e(2, 2, 2), e(1, 3, 3))}},
		{reqs: []areq{qClone("aa", bb), qClone("aa", bb2)}},
		{reqs: []areq{qClone("aa", bb), qPut("aa", e(1, 40, 1), 1)}},
		{reqs: []areq{qClone("aa", bb), qDelList("aa")}},
		{reqs: []areq{qNewList(bb, false, e(1, 1, 1)), qPut("bb", e(1, 40, 1), 1)}},
		{reqs: []areq{qNewList(bb, false, e(1, 1, 1)), qDelList("bb")}},
		{reqs: []areq{qNewList(aa, true, e(9, 1, 1)), qDelList("aa")}},
		{reqs: []areq{qDelList("aa"), qDelList("aa")}},
		{reqs: []areq{qDelList("aa"), qPut("aa", e(1, 40, 1), 1)}},
		{reqs: []areq{qDelList("aa"), qPutMulti("aa", true, e(1, 40, 1), e(9, 1, 1))}},
		{reqs: []areq{qDelList("aa"), qDelete("aa", 1)}},
		{reqs: []areq{qDelList("aa"), cr(1)}},
		{reqs: []areq{qDelList("aa"), qReindex("aa")}},
		{reqs: []areq{qDelList("aa"), qOpres("aa", "repair")}},
		{reqs: []areq{qDelList("aa"), qOpres("aa", "verify")}},
		{reqs: []areq{qReindex("aa"), qPut("aa", e(7, 40, 1), 1)}},
		{reqs: []areq{qOpres("aa", "repair"), qPut("aa", e(7, 40, 1), 1)}},
		{reqs: []areq{qOpres("aa", "verify"), qPut("aa", e(7, 40, 1), 1)}},
		{reqs: []areq{qOpres("aa", "verify?repair=true"), qDelete("aa", 2)}},
		{bucket: 1, reqs: []areq{qPut("aa", e(1, 40, 1), 1), qPut("bb", e(1, 40, 1), 1), qDelete("aa", 2)}},
		{bucket: 1, reqs: []areq{qBad("PUT", "/lists/aa/elements/1", ej(e(2, 1, 0)), anyErr), qPutMulti("aa", true, e(2, 0, 7), e(1, 0, 2)), cr(3)}},
		{bucket: 1, reqs: []areq{qNewList(bb, false, e(1, 1, 1)), qDelete("zz", 2), qOpres("aa", "repair")}},
		{bucket: 2, reqs: []areq{qPut("aa", e(1, 40, 1), 1), qPut("aa", e(big, 40, 1), 1), qDelete("aa", 2)}, extra: true},
	}
	for i := range progs {
		p := &progs[i]
		for _, cache := range []int{-1, 100} {
			if c.Stopped() || c.Expired() {
				return
			}
			cache := cache
			c.Explore(h.Scenario{Name: fmt.Sprintf("%s cache=%d", p.name(), cache), Bound: h.Pick(c, 1, 2), Extra: p.extra,
				Body: func() (string, error) { return p.body(init, cache) }})
		}
	}
	c.Bound("programs", len(progs))
}
