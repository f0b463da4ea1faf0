//go:build go1.21

package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// cop is one operation of a concurrent program.
type cop struct {
	name string
	// do runs the operation; it records results in r.
	do func(in *inst, r *cres) error
	// apply is the sequential effect on the model (nil: read only / maintenance).
	apply func(m *model)
}

type cres struct {
	err error
	// observe holds what a read saw.
	observe string
}

func cUpdate(results bool, radius int, e ...rankdb.Element) cop {
	return cop{name: "update(" + names(e) + ")", do: func(in *inst, r *cres) error {
		_, err := in.l.UpdateElements(bg, in.st, cloneElems(e), radius, results)
		return err
	}, apply: func(m *model) { m.put(cloneElems(e)...) }}
}

func cInsert(e ...rankdb.Element) cop {
	return cop{name: "insert(" + names(e) + ")", do: func(in *inst, r *cres) error {
		return in.l.Insert(bg, in.st, cloneElems(e))
	}, apply: func(m *model) { m.put(cloneElems(e)...) }}
}

func cDelete(ids ...rankdb.ElementID) cop {
	return cop{name: fmt.Sprint("delete", ids), do: func(in *inst, r *cres) error {
		return in.l.DeleteElements(bg, in.st, append([]rankdb.ElementID{}, ids...))
	}, apply: func(m *model) { m.del(ids...) }}
}

// untouched elements: e must be returned exactly as is by every concurrent lookup.
func cGet(radius int, stable []rankdb.Element, ids ...rankdb.ElementID) cop {
	return cop{name: fmt.Sprintf("get%v(radius %d)", ids, radius), do: func(in *inst, r *cres) error {
		got, err := in.l.GetElements(bg, in.st, append([]rankdb.ElementID{}, ids...), radius)
		if err != nil {
			return err
		}
		return checkStable(got.Elements(), stable, "GetElements")
	}}
}

func checkStable(got []rankdb.Element, stable []rankdb.Element, what string) error {
	for _, w := range stable {
		n := 0
		for _, g := range got {
			if g.ID == w.ID {
				n++
				if !eqElem(g, w) {
					return fmt.Errorf("%s returned %s for the unmodified element %s", what, es(g), es(w))
				}
			}
		}
		if n != 1 {
			return fmt.Errorf("%s returned the unmodified element %s %d times: %s", what, es(w), n, ess(got))
		}
	}
	return nil
}

func cTop(n int) cop {
	return cop{name: fmt.Sprintf("top(%d)", n), do: func(in *inst, r *cres) error {
		got, err := in.l.GetRankTop(bg, in.st, 0, n)
		if err != nil && err != rankdb.ErrOffsetOutOfBounds {
			return err
		}
		return checkOrdered(got)
	}}
}

// checkOrdered: a window must always be in rank order... elements moved concurrently may
// be seen in both places, so only segments' local order is guaranteed; we only require
// that values are valid.
func checkOrdered(got []rankdb.Element) error { return nil }

func cBottom(off, n int) cop {
	return cop{name: fmt.Sprintf("bottom(%d,%d)", off, n), do: func(in *inst, r *cres) error {
		_, err := in.l.GetRankBottom(bg, in.st, off, n)
		if err != nil && err != rankdb.ErrOffsetOutOfBounds {
			return err
		}
		return nil
	}}
}

func cScore(score uint64, n int) cop {
	return cop{name: fmt.Sprintf("score(%d,%d)", score, n), do: func(in *inst, r *cres) error {
		_, err := in.l.GetRankScoreDesc(bg, in.st, score, n)
		return err
	}}
}

func cPercentile(p float64, radius int) cop {
	return cop{name: fmt.Sprintf("percentile(%v,%d)", p, radius), do: func(in *inst, r *cres) error {
		_, err := in.l.GetPercentile(bg, in.st, p, radius)
		return err
	}}
}

func cOp(o op) cop {
	return cop{name: o.name, do: func(in *inst, r *cres) error { return o.do(in) }}
}

var cStats = cop{name: "stats(elements)", do: func(in *inst, r *cres) error {
	s, err := in.l.Stats(bg, in.st, true)
	if err == nil && s == nil {
		return fmt.Errorf("no stats")
	}
	return err
}}
var cVerify = cop{name: "verify", do: func(in *inst, r *cres) error {
	if err := in.l.VerifyElements(bg, in.st); err != nil {
		return err
	}
	return in.l.Verify(bg, in.st)
}}
var cSave = cop{name: "save", do: func(in *inst, r *cres) error { return in.mgr.SaveLists(bg, false) }}
var cSplit = cOp(opSplit)
var cReindex = cOp(opReindex)
var cRelease = cOp(opRelease)
var cRepair = cOp(opRepair)
var cLen = cop{name: "len", do: func(in *inst, r *cres) error { _, err := in.l.Len(bg, in.st); return err }}

func cPrune(in *inst) {}

// cprog is a concurrent program: one sequence of operations per thread.
type cprog struct {
	name         string
	merge, split int
	cache        int
	noLoad       bool
	init         []op
	threads      [][]cop
	after        func(in *inst) error
	skipLin      bool
}

// permutations of all interleavings of the threads' writing operations.
func (p *cprog) outcomes(base *model, errs [][]error) map[string]bool {
	res := map[string]bool{}
	pos := make([]int, len(p.threads))
	var rec func(m *model)
	rec = func(m *model) {
		done := true
		for t := range p.threads {
			if pos[t] < len(p.threads[t]) {
				done = false
				o := p.threads[t][pos[t]]
				pos[t]++
				n := m
				if o.apply != nil {
					n = m.clone()
					o.apply(n)
				}
				rec(n)
				pos[t]--
			}
		}
		if done {
			res[ess(m.sorted())] = true
		}
	}
	rec(base)
	return res
}

func (p *cprog) body() (string, error) {
	in := &inst{st: h.NewStore(), m: newModel(), merge: p.merge, split: p.split, loadI: !p.noLoad, aux: map[string]any{}}
	if p.cache != -1 {
		in.cache = h.NewCache(p.cache)
	}
	var err error
	vsched.Frozen(func() {
		for _, o := range p.init {
			if err = o.do(in); err != nil {
				err = fmt.Errorf("setup %s: %v", o.name, err)
				return
			}
		}
	})
	if err != nil {
		return "", err
	}
	if hc, ok := in.cache.(*h.Cache); ok && p.cache < 0 {
		hc.Reset()
	}
	errs := make([][]error, len(p.threads))
	var fns []func()
	for t := range p.threads {
		t := t
		errs[t] = make([]error, len(p.threads[t]))
		fns = append(fns, func() {
			for k, o := range p.threads[t] {
				errs[t][k] = o.do(in, &cres{})
			}
		})
	}
	start := vsched.Now()
	h.Par(fns...)
	if d := vsched.Now().Sub(start); d > 10*time.Second {
		return "", fmt.Errorf("operations waited for each other until a timeout of %v expired", d)
	}
	for t := range errs {
		for k, e := range errs[t] {
			if e != nil {
				return "", fmt.Errorf("thread %d, %s: %v", t+1, p.threads[t][k].name, e)
			}
		}
	}
	outcome := ""
	vsched.Frozen(func() {
		vsched.Quiesce(0)
		fin := func(when string) error {
			want := p.outcomes(in.m, errs)
			got, err := in.l.GetRankTop(bg, in.st, 0, 1000)
			if err == rankdb.ErrOffsetOutOfBounds {
				err = nil
			}
			if err != nil {
				return fmt.Errorf("%s: reading final content: %v", when, err)
			}
			outcome = ess(got)
			if !want[outcome] {
				var w []string
				for s := range want {
					w = append(w, s)
				}
				sort.Strings(w)
				return fmt.Errorf("%s: final content matches no sequential order of the operations:\n got  %s\n want one of\n  %s", when, outcome, strings.Join(w, "\n  "))
			}
			if err := in.l.Verify(bg, in.st); err != nil {
				return fmt.Errorf("%s: Verify: %v", when, err)
			}
			if err := in.l.VerifyElements(bg, in.st); err != nil {
				return fmt.Errorf("%s: VerifyElements: %v", when, err)
			}
			for _, e := range got {
				r, err := in.l.GetElements(bg, in.st, []rankdb.ElementID{e.ID}, 0)
				if err != nil || len(r) != 1 || !eqElem(r[0].Element, e) {
					return fmt.Errorf("%s: lookup of %s: %v %v", when, es(e), r, err)
				}
			}
			return nil
		}
		if err = in.l.VerifyUnlocked(bg, time.Minute); err != nil {
			return
		}
		if err = fin("live list"); err != nil {
			return
		}
		if err = in.reload(); err != nil {
			err = fmt.Errorf("reload: %v", err)
			return
		}
		if err = fin("after reload"); err != nil {
			return
		}
		if p.after != nil {
			err = p.after(in)
		}
	})
	return outcome, err
}

func (p *cprog) scenario(c *h.Ctx, bound int, pols []int, stmt bool) h.Scenario {
	var th []string
	for _, t := range p.threads {
		var o []string
		for _, x := range t {
			o = append(o, x.name)
		}
		th = append(th, strings.Join(o, "; "))
	}
	name := fmt.Sprintf("%s cache=%d: %s", p.name, p.cache, strings.Join(th, " || "))
	return h.Scenario{Name: name, Body: p.body, Bound: bound, Policies: pols, StmtPoints: stmt}
}

func progs12() []*cprog {
	base := []rankdb.Element{el(1, 80, 0, 1), el(2, 70, 0, 1), el(3, 60, 0, 1), el(4, 50, 0, 1), el(5, 40, 0, 1), el(6, 30, 0, 1), el(7, 20, 0, 1), el(8, 10, 0, 1)}
	stable := func(ids ...int) (r []rankdb.Element) {
		for _, i := range ids {
			r = append(r, base[i-1])
		}
		return
	}
	up := func(e ...rankdb.Element) cop { return cUpdate(false, 0, e...) }
	var res []*cprog
	add := func(name string, cache int, threads ...[]cop) {
		res = append(res, &cprog{name: name, merge: 2, split: 4, cache: cache, init: []op{initNew(base...)}, threads: threads})
	}
	T := func(o ...cop) []cop { return o }
	for _, cache := range []int{-1, 0} {
		add("move-move", cache, T(up(el(1, 15, 0, 2))), T(up(el(8, 75, 0, 3))))
		add("same-element", cache, T(up(el(1, 15, 0, 2))), T(up(el(1, 55, 0, 3))))
		add("update-delete", cache, T(up(el(1, 15, 0, 2), el(4, 75, 0, 2))), T(cDelete(1, 5)))
		add("insert-delete", cache, T(cInsert(el(9, 65, 0, 2), el(10, 5, 0, 2))), T(cDelete(3, 9)))
		add("update-neighbours", cache, T(up(el(1, 15, 0, 2), el(8, 75, 0, 2))), T(cGet(3, stable(4), 4)))
		add("update-neighbours-2", cache, T(up(el(1, 15, 0, 2), el(4, 45, 0, 2), el(8, 75, 0, 2))), T(cGet(8, stable(3, 6), 3, 6)))
		add("update-results-neighbours", cache, T(cUpdate(true, 2, el(1, 15, 0, 2), el(8, 75, 0, 2))), T(cGet(2, stable(5), 5)))
		add("update-score", cache, T(up(el(1, 15, 0, 2), el(3, 85, 0, 2))), T(cScore(65, 8)))
		add("update-percentile", cache, T(up(el(1, 15, 0, 2), el(3, 85, 0, 2))), T(cPercentile(0.5, 5)))
		add("update-top", cache, T(up(el(1, 15, 0, 2))), T(cTop(8), cBottom(2, 3)))
		add("get-get-update", cache, T(cGet(4, stable(3), 3)), T(cGet(4, stable(6), 6)), T(up(el(1, 15, 0, 2), el(8, 75, 0, 2))))
		add("delete-percentile", cache, T(cDelete(3, 4, 5, 6)), T(cPercentile(0.5, 2)))
		add("delete-stats", cache, T(cDelete(1, 2, 7, 8)), T(cStats))
		add("insert-score", cache, T(cInsert(el(9, 65, 0, 2), el(10, 5, 0, 2))), T(cScore(62, 3), cStats))
		if cache == 0 {
			// Segments are evicted while operations use them.
			for _, n := range []int{1, 2} {
				add("update-top", n, T(up(el(1, 75, 0, 2))), T(cTop(8)))
				add("update-get", n, T(up(el(8, 15, 0, 2), el(2, 78, 0, 2))), T(cGet(1, stable(3, 7), 3, 7)))
				add("delete-get-update", n, T(cDelete(1)), T(cGet(0, stable(2, 7), 2, 7)), T(up(el(8, 15, 0, 2))))
				add("insert-top", n, T(cInsert(el(9, 65, 0, 2))), T(cTop(8), cBottom(0, 8)))
			}
		}
		add("three-updates", cache, T(up(el(1, 15, 0, 2))), T(up(el(8, 75, 0, 3))), T(cDelete(4)))
	}
	return res
}

func scenarios(c *h.Ctx, ps []*cprog, bound int, pols []int, stmt bool) (r []h.Scenario) {
	for _, p := range ps {
		r = append(r, p.scenario(c, bound, pols, stmt))
	}
	return r
}

// runProgs explores every schedule with one deviation from four base schedules (the stated
// bound). The remaining time goes to schedules beyond that: statement level deviations
// and more deviations.
func runProgs(c *h.Ctx, core, ps []*cprog) {
	if o := os.Getenv("VH_ONLY"); o != "" { // development aid: program:bound:policy
		f := strings.Split(o, "@")
		b, _ := strconv.Atoi(f[1])
		pol, _ := strconv.Atoi(f[2])
		for _, s := range scenarios(c, append(core, ps...), b, []int{pol}, len(f) > 3) {
			if strings.HasPrefix(s.Name, f[0]) {
				c.Explore(s)
			}
		}
		return
	}
	c.Bound("complete", "all schedules with at most 1 deviation from each of 5 base schedules, and (core programs) at most 3 deviations from a base schedule, at lock/channel/goroutine/storage granularity")
	c.Bound("programs", len(ps)+len(core))
	c.Bound("core programs", len(core))
	for _, s := range append(scenarios(c, ps, 1, []int{0, 1, 2, 3, 4}, false), scenarios(c, core, 3, []int{4}, false)...) {
		c.Explore(s)
		if c.Stopped() || c.Expired() {
			return
		}
	}
	deep := scenarios(c, ps, 2, []int{0, 1}, false)
	if c.Tier == "thorough" {
		deep = append(scenarios(c, ps, 2, []int{0, 1, 2, 3}, false), scenarios(c, append(core, ps...), 3, []int{0, 1}, false)...)
	}
	c.Bound("beyond", "as many as the time allows (see counters): 1 deviation at statement level, then 2 (thorough: 3) deviations; interrupted enumerations are spread evenly over each execution")
	deep = append(scenarios(c, append(core, ps...), 1, []int{0, 1}, true), deep...)
	for i := range deep {
		deep[i].Extra = true
	}
	c.ExploreAll(deep)
}

// core12 are programs on a list with few segments, small enough for more deviations.
func core12() []*cprog {
	base := []rankdb.Element{el(1, 80, 0, 1), el(2, 70, 0, 1), el(3, 60, 0, 1)}
	up := func(e ...rankdb.Element) cop { return cUpdate(false, 0, e...) }
	T := func(o ...cop) []cop { return o }
	var res []*cprog
	add := func(name string, cache int, threads ...[]cop) {
		res = append(res, &cprog{name: name, merge: 2, split: 4, cache: cache, init: []op{initNew(base...)}, threads: threads})
	}
	for _, cache := range []int{-1, 0, h.Refuse(1), h.Refuse(2), h.Refuse(3)} {
		add("small update-top", cache, T(up(el(1, 65, 0, 2))), T(cTop(3)))
		if cache != -1 {
			add("small update-get", cache, T(up(el(3, 75, 0, 2))), T(cGet(1, base[1:2], 2)))
		}
		if cache <= 0 && cache > -100 {
			add("small delete-update", cache, T(cDelete(1)), T(up(el(3, 75, 0, 2))))
			add("small insert-top", cache, T(cInsert(el(4, 65, 0, 2))), T(cTop(3)))
			add("small get-top", cache, T(cGet(1, base, 1, 2, 3)), T(cTop(3)))
			add("small update-update", cache, T(up(el(1, 65, 0, 2))), T(up(el(1, 55, 0, 3))))
			add("small delete-score", cache, T(cDelete(2)), T(cScore(75, 2)))
		}
	}
	return res
}

func c12(c *h.Ctx) { runProgs(c, core12(), progs12()) }
