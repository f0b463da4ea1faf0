//go:build go1.21

package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// small25 has n lists named l00.. with two or three elements each.
func small25(s *srv, n int) (*amodel, error) {
	m := newModel()
	s.keys = map[string][]string{}
	had := map[string]bool{}
	e := func(id, score uint64) elem { return elem{id: id, score: score, payload: fmt.Sprintf(`{"e":%d}`, id)} }
	for i := 0; i < n; i++ {
		vsched.Advance(time.Second)
		es := []elem{e(1, uint64(10+i)), e(2, 20)}
		if i%3 == 1 {
			es = append(es, e(7, 15))
		}
		id := fmt.Sprintf("l%02d", i)
		q := qNewList(&alist{id: id, set: "s1", merge: 10, split: 20, meta: map[string]string{"i": "1"}}, false, es...)
		if err := s.run(m, &q); err != nil {
			return nil, err
		}
		for _, k := range s.st.Keys() {
			if !had[k] {
				had[k] = true
				s.keys[id] = append(s.keys[id], k)
			}
		}
	}
	vsched.Advance(time.Second)
	return m, nil
}

// base25 are the requests without results.
func base25() (r []mop) {
	for _, o := range mops() {
		if len(o.q) == 0 {
			r = append(r, o)
		}
	}
	return
}

// faults makes the operations on the blobs of the lists fail, or panic.
func (s *srv) faults(lists map[string]bool, pan bool) {
	keys := map[string]bool{}
	for id := range lists {
		for _, k := range s.keys[id] {
			keys[k] = true
		}
	}
	s.st.Fault = func(_ int, kind byte, set, key string) error {
		if keys[set+"/"+key] {
			if pan {
				panic("storage of " + set + "/" + key)
			}
			return h.ErrInjected
		}
		return nil
	}
}

// c25many: more lists than are handled at a time, many of which fail.
func c25many(c *h.Ctx, one func(desc string, fn func(s *srv, m *amodel) error) bool, mine func() bool) {
	hd := boot("", false)
	const N = 70
	type pat struct {
		name string
		x    selection
		// broken lists
		broken map[string]bool
		pan    bool
	}
	var pats []pat
	var all, front, mixed []string
	half, most := map[string]bool{}, map[string]bool{}
	for i := 0; i < N; i++ {
		id := fmt.Sprintf("l%02d", i)
		all = append(all, id)
		front = append(front, fmt.Sprintf("a%02d", i))
		mixed = append(mixed, id, id+"x")
		if i%2 == 0 {
			half[id] = true
		}
		if i < 66 {
			most[id] = true
		}
	}
	rev := append([]string{}, all...)
	sort.Sort(sort.Reverse(sort.StringSlice(rev)))
	pats = append(pats,
		pat{name: "all", x: selection{lists: all}},
		pat{name: "all by set", x: selection{sets: []string{"s1"}}},
		pat{name: "many missing first", x: selection{lists: append(append([]string{}, front...), all...)}},
		pat{name: "every other missing", x: selection{lists: mixed}},
		pat{name: "only missing", x: selection{lists: front}},
		pat{name: "half not readable", x: selection{lists: rev}, broken: half},
		pat{name: "66 not readable", x: selection{lists: all}, broken: most},
		pat{name: "66 not readable, by metadata", x: selection{meta: map[string]string{"i": "1"}}, broken: most},
		pat{name: "half panic", x: selection{lists: all}, broken: half, pan: true},
		pat{name: "66 panic", x: selection{lists: rev}, broken: most, pan: true},
	)
	ops := mops()
	for oi := range ops {
		o := &ops[oi]
		for _, p := range pats {
			if p.broken != nil && o.q.Get("repair") != "" || !mine() {
				continue
			}
			q := o.req(p.x)
			desc := fmt.Sprintf("%d lists, %s: %s", N, p.name, o.name)
			c.StateHash(h.Hash(desc))
			if !one(desc, func(_ *srv, _ *amodel) error {
				s, err := newSrv(hd, h.NewCache(1000), 0)
				if err != nil {
					return err
				}
				m, err := small25(s, N)
				if err != nil {
					return err
				}
				if p.broken != nil {
					if err := s.reload(); err != nil {
						return err
					}
					s.faults(p.broken, p.pan)
				}
				out := os.Stdout
				if p.pan {
					// The server prints the stacks.
					if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
						os.Stdout = f
						defer f.Close()
					}
				}
				r, err := s.do(q)
				os.Stdout = out
				s.st.Fault = nil
				if err != nil {
					return err
				}
				if err := o.judge(m, p.x, r, p.broken); err != nil {
					return err
				}
				if p.pan {
					// What the panic interrupted stays unusable; the others are intact.
					for id := range p.broken {
						delete(m.lists, id)
					}
					for id, a := range m.lists {
						l, ok := s.db.Lists.ByID(lid(id))
						if !ok {
							return fmt.Errorf("list %s is not in the directory", id)
						}
						if err := checkList(s, l, a); err != nil {
							return fmt.Errorf("list %s: %v", id, err)
						}
					}
					return nil
				}
				return s.checkLists(m)
			}) {
				return
			}
		}
	}
	c.Bound("many_lists", N)
	c.Bound("many_patterns", len(pats))
}

// answer of a request for a list.
type answer struct {
	fail bool
	res  string
}

func (o *mop) answers(r *resp) (map[string]answer, error) {
	got, ok := r.js.(map[string]any)
	if r.code != 200 || !ok {
		return nil, fmt.Errorf("status %d: %.300s", r.code, r.raw)
	}
	a := map[string]answer{}
	ge, _ := got["errors"].(map[string]any)
	for id := range ge {
		a[id] = answer{fail: true}
	}
	gs, _ := got["success"].(map[string]any)
	for id, v := range gs {
		if _, dup := a[id]; dup {
			return nil, fmt.Errorf("%s is in errors and in success: %.300s", id, r.raw)
		}
		mv, _ := v.(map[string]any)
		a[id] = answer{res: js(norm(mv["results"]))}
	}
	return a, nil
}

// c25conc: the requests work on the lists concurrently.
func c25conc(c *h.Ctx) {
	hd := boot("", false)
	ops := mops()
	run := func(name string, nops []*mop, xs []selection, cache int, broken map[string]bool, reload bool) {
		if c.Stopped() || c.Expired() {
			return
		}
		body := func() (string, error) {
			var s *srv
			var m *amodel
			var err error
			vsched.Frozen(func() {
				var cc *h.Cache
				if cache >= 0 {
					cc = h.NewCache(cache)
					s, err = newSrv(hd, cc, 0)
				} else {
					s, err = newSrv(hd, nil, 0)
				}
				if err != nil {
					return
				}
				if m, err = small25(s, 3); err != nil {
					return
				}
				if reload {
					err = s.reload()
				}
				s.faults(broken, false)
			})
			if err != nil {
				return "", err
			}
			rs := make([]*resp, len(nops))
			errs := make([]error, len(nops))
			var fns []func()
			for i := range nops {
				i := i
				fns = append(fns, func() { rs[i], errs[i] = s.do(nops[i].req(xs[i])) })
			}
			h.Par(fns...)
			var out string
			vsched.Frozen(func() {
				s.st.Fault = nil
				for _, e := range errs {
					if e != nil {
						err = e
						return
					}
				}
				if len(nops) == 1 {
					if err = nops[0].judge(m, xs[0], rs[0], broken); err == nil {
						err = s.checkLists(m)
					}
					out = m.key()
					return
				}
				// Each list: the requests in some order.
				as := make([]map[string]answer, len(nops))
				for i := range nops {
					if as[i], err = nops[i].answers(rs[i]); err != nil {
						return
					}
				}
				for i := range nops {
					l, miss := xs[i].resolve(m, nops[i].all)
					w := append(append([]string{}, l...), miss...)
					sort.Strings(w)
					if fmt.Sprint(h.SortedKeys(as[i])) != fmt.Sprint(w) {
						err = fmt.Errorf("%s: answers for %v, want %v", nops[i].name, h.SortedKeys(as[i]), w)
						return
					}
					for _, id := range miss {
						if !as[i][id].fail {
							err = fmt.Errorf("%s: no error for the missing list %s", nops[i].name, id)
							return
						}
					}
				}
				for _, id := range h.SortedKeys(m.lists) {
					var ferr error
					for _, perm := range perms(len(nops)) {
						a := m.lists[id].clone()
						ferr = nil
						for _, i := range perm {
							g, sel := as[i][id]
							if !sel {
								continue
							}
							w := answer{fail: true}
							if !broken[id] {
								f, res := nops[i].each(a)
								w = answer{fail: f}
								if !f {
									w.res = js(norm(asJSON(res)))
								}
							}
							if g != w {
								ferr = fmt.Errorf("%s: list %s: got %+v, in order %v want %+v", nops[i].name, id, g, perm, w)
							}
						}
						if ferr == nil {
							l, ok := s.db.Lists.ByID(lid(id))
							if !ok {
								ferr = fmt.Errorf("list %s is not in the directory", id)
							} else {
								ferr = checkList(s, l, a)
							}
						}
						if ferr == nil {
							out += fmt.Sprint(perm)
							break
						}
					}
					if ferr != nil {
						err = fmt.Errorf("the outcome for list %s is that of no order of the requests: %v", id, ferr)
						return
					}
				}
			})
			return out, err
		}
		pols := []int{0, 1}
		if len(nops) == 1 {
			// Another list comes between two steps of one.
			pols = h.Pick(c, []int{5}, []int{5, 6, 0, 1})
		}
		c.Explore(h.Scenario{Name: name, Policies: pols, Bound: h.Pick(c, 1, 2), StmtPoints: len(nops) == 1, Body: body})
	}
	x3 := selection{lists: []string{"l00", "l01", "zz"}, sets: []string{"s1"}}
	for oi := range ops {
		o := &ops[oi]
		if o.errOnly {
			continue
		}
		for _, lost := range []string{"", "l00", "l01"} {
			if lost != "" && o.q.Get("repair") != "" {
				continue
			}
			broken := map[string]bool{}
			d := ""
			if lost != "" {
				broken[lost] = true
				d = lost + " not readable: "
			}
			run(fmt.Sprintf("%sschedules of %s", d, o.name), []*mop{o}, []selection{x3}, 100, broken, lost != "")
		}
	}
	b := base25()
	n := 0
	for i := range b {
		for j := i; j < len(b); j++ {
			x, y := &b[i], &b[j]
			wr := func(o *mop) bool { return !strings.Contains(o.path, "verify") && o.method != "GET" }
			if !wr(x) && !wr(y) {
				continue
			}
			n++
			for _, cache := range []int{-1, 100} {
				run(fmt.Sprintf("%s || %s cache=%d", x.name, y.name, cache), []*mop{x, y}, []selection{{lists: []string{"l00", "l01"}}, {lists: []string{"l01", "zz", "l02"}}}, cache, nil, false)
			}
		}
	}
	c.Bound("concurrent_pairs", n)
}
