//go:build go1.21

package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/bits"
	"sort"
	"strings"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// rawSegs are stored segments with their elements.
type rawSegs struct {
	key    string
	prefix []byte
	s      *rankdb.Segments
	blobs  [][]byte // nil: missing
	pre    [][]byte
	elems  []rankdb.Elements
}

func splitVersion(b []byte) (pre, rest []byte) {
	rest, _ = rankdb.MsgpGetVersion(b)
	return append([]byte{}, b[:len(b)-len(rest)]...), rest
}

func readRaw(st *h.Store, set string, id rankdb.SegmentsID) (*rawSegs, error) {
	r := &rawSegs{key: string(id), s: &rankdb.Segments{}}
	b, err := st.Get(bg, set, string(id))
	if err != nil {
		return nil, err
	}
	var rest []byte
	r.prefix, rest = splitVersion(b)
	if _, err := r.s.UnmarshalMsg(rest); err != nil {
		return nil, err
	}
	for i := range r.s.Segments {
		b, err := st.Get(bg, set, r.s.Segments[i].StorageKey())
		if err != nil {
			return nil, err
		}
		pre, rest := splitVersion(b)
		var e rankdb.Elements
		if _, err := e.UnmarshalMsg(rest); err != nil {
			return nil, err
		}
		r.pre, r.elems = append(r.pre, pre), append(r.elems, e)
	}
	return r, nil
}

// put stores the segments list and elements again.
func (r *rawSegs) put(st *h.Store, set string, key []string) {
	b, err := r.s.MarshalMsg(append([]byte{}, r.prefix...))
	if err != nil {
		panic(err)
	}
	st.M[set][r.key] = b
	for i, e := range r.elems {
		b, err := e.MarshalMsg(append([]byte{}, r.pre[i]...))
		if err != nil {
			panic(err)
		}
		st.M[set][key[i]] = b
	}
}

func (r *rawSegs) keys() (k []string) {
	for i := range r.s.Segments {
		k = append(k, r.s.Segments[i].StorageKey())
	}
	return k
}

// damage is one way the stored data of a list may be damaged.
type damage struct {
	name string
	do   func(p *rawPair)
}

type rawPair struct {
	st  *h.Store
	set string
	// sc, ix are written back after the damage.
	sc, ix *rawSegs
	// late is applied on the store after that.
	late func()
}

func readPair(in *inst, st *h.Store) (*rawPair, error) {
	p := &rawPair{st: st, set: in.l.Set}
	var err error
	if p.sc, err = readRaw(st, p.set, in.l.Scores); err != nil {
		return nil, err
	}
	p.ix, err = readRaw(st, p.set, in.l.Index)
	return p, err
}

// damages lists all single damages of the stored list.
func damages(p *rawPair) (res []damage) {
	add := func(name string, f func(p *rawPair)) { res = append(res, damage{name, f}) }
	for pi, what := range []string{"scores", "index"} {
		pi := pi
		get := func(p *rawPair) *rawSegs { return []*rawSegs{p.sc, p.ix}[pi] }
		r := get(p)
		index := pi == 1
		edit := func(name string, f func(r *rawSegs)) {
			add(what+": "+name, func(p *rawPair) { f(get(p)) })
		}
		for si := range r.s.Segments {
			si := si
			sname := fmt.Sprintf("segment #%d: ", si)
			key := r.s.Segments[si].StorageKey()
			raw := func(name string, f func(b []byte) []byte) {
				add(what+": "+sname+name, func(p *rawPair) {
					p.late = func() {
						if b := f(append([]byte{}, p.st.M[p.set][key]...)); b == nil {
							delete(p.st.M[p.set], key)
						} else {
							p.st.M[p.set][key] = b
						}
					}
				})
			}
			raw("elements missing", func(b []byte) []byte { return nil })
			raw("elements truncated", func(b []byte) []byte { return b[:len(b)-1] })
			raw("elements empty", func(b []byte) []byte { return b[:0] })
			raw("elements of another version", func(b []byte) []byte { b[0] ^= 0x40; return b })
			for j := range r.elems[si] {
				j := j
				ename := sname + fmt.Sprintf("element #%d: ", j)
				for _, fix := range []bool{false, true} {
					fix := fix
					fixed := map[bool]string{true: ", count too"}[fix]
					n := func(r *rawSegs, i, d int) {
						if fix {
							r.s.Segments[i].N += d
						}
					}
					edit(ename+"removed"+fixed, func(r *rawSegs) {
						r.elems[si] = append(r.elems[si][:j:j], r.elems[si][j+1:]...)
						n(r, si, -1)
					})
					edit(ename+"duplicated"+fixed, func(r *rawSegs) {
						r.elems[si] = append(r.elems[si][:j+1:j+1], r.elems[si][j:]...)
						n(r, si, 1)
					})
					for ti := range r.s.Segments {
						ti := ti
						if ti == si {
							continue
						}
						for _, cp := range []bool{false, true} {
							cp := cp
							edit(ename+map[bool]string{false: "moved", true: "copied"}[cp]+fmt.Sprintf(" to segment #%d", ti)+fixed, func(r *rawSegs) {
								e := r.elems[si][j]
								if !cp {
									r.elems[si] = append(r.elems[si][:j:j], r.elems[si][j+1:]...)
									n(r, si, -1)
								}
								x := append(r.elems[ti][:len(r.elems[ti]):len(r.elems[ti])], e)
								sort.Slice(x, x.Sorter())
								r.elems[ti] = x
								n(r, ti, 1)
							})
						}
					}
				}
				if j > 0 {
					edit(ename+"swapped with previous", func(r *rawSegs) {
						e := r.elems[si].Clone(false)
						e[j], e[j-1] = e[j-1], e[j]
						r.elems[si] = e
					})
				}
				set := func(name string, f func(e *rankdb.Element, g *rankdb.Segment)) {
					edit(ename+name, func(r *rawSegs) {
						e := r.elems[si].Clone(false)
						f(&e[j], &r.s.Segments[si])
						r.elems[si] = e
					})
				}
				set("score above the segment", func(e *rankdb.Element, g *rankdb.Segment) {
					if g.Max < math.MaxUint64 {
						e.Score = g.Max + 1
					}
				})
				set("score below the segment", func(e *rankdb.Element, g *rankdb.Segment) {
					if g.Min > 0 {
						e.Score = g.Min - 1
					}
				})
				if !index {
					set("score 41", func(e *rankdb.Element, g *rankdb.Segment) { e.Score = 41 })
					set("ID of no element", func(e *rankdb.Element, g *rankdb.Segment) { e.ID = 77 })
					for id := rankdb.ElementID(1); id <= 6; id++ {
						id := id
						set(fmt.Sprintf("ID %d", id), func(e *rankdb.Element, g *rankdb.Segment) { e.ID = id })
					}
				} else {
					for _, id := range append([]rankdb.SegmentID{999}, segIDs(p.sc.s)...) {
						id := id
						set(fmt.Sprintf("refers to segment %d", id), func(e *rankdb.Element, g *rankdb.Segment) { e.TieBreaker = uint32(id) })
					}
					for id := rankdb.ElementID(0); id <= 7; id++ {
						id := id
						set(fmt.Sprintf("entry of element %d", id), func(e *rankdb.Element, g *rankdb.Segment) { e.ID, e.Score = id, uint64(id) })
					}
				}
			}
			seg := func(name string, f func(g *rankdb.Segment)) {
				edit(sname+name, func(r *rawSegs) { f(&r.s.Segments[si]) })
			}
			for _, d := range []int{-1, 1} {
				d := d
				seg(fmt.Sprintf("count%+d", d), func(g *rankdb.Segment) {
					if g.N+d >= 0 {
						g.N += d
					}
				})
				seg(fmt.Sprintf("max%+d", d), func(g *rankdb.Segment) { g.Max += uint64(d) })
				seg(fmt.Sprintf("min%+d", d), func(g *rankdb.Segment) { g.Min += uint64(d) })
				seg(fmt.Sprintf("max tie breaker%+d", d), func(g *rankdb.Segment) { g.MaxTie += uint32(d) })
				seg(fmt.Sprintf("min tie breaker%+d", d), func(g *rankdb.Segment) { g.MinTie += uint32(d) })
			}
			seg("parent", func(g *rankdb.Segment) { g.Parent = "other" })
			seg("never updated", func(g *rankdb.Segment) { g.Updated = 0 })
			if si > 0 {
				// Also moves the border, so that both segments line up.
				edit(sname+"border moved up", func(r *rawSegs) {
					g, prev := &r.s.Segments[si], &r.s.Segments[si-1]
					prev.Min++
					g.Max++
				})
				edit(sname+"border moved down", func(r *rawSegs) {
					g, prev := &r.s.Segments[si], &r.s.Segments[si-1]
					prev.Min--
					g.Max--
				})
				// Without the elements: these stay where they are stored.
				add(what+": "+sname+"swapped with previous", func(p *rawPair) {
					s := get(p).s.Segments
					s[si], s[si-1] = s[si-1], s[si]
				})
				add(what+": "+sname+"ID of previous", func(p *rawPair) { get(p).s.Segments[si].ID = get(p).s.Segments[si-1].ID })
			}
			add(what+": "+sname+"ID 888", func(p *rawPair) { get(p).s.Segments[si].ID = 888 })
			if len(r.s.Segments) > 1 {
				add(what+": "+sname+"dropped", func(p *rawPair) {
					s := get(p).s
					s.Segments = append(s.Segments[:si:si], s.Segments[si+1:]...)
				})
			}
			add(what+": "+sname+"listed twice", func(p *rawPair) {
				s := get(p).s
				s.Segments = append(s.Segments[:si+1:si+1], s.Segments[si:]...)
			})
		}
		key := r.key
		raw := func(name string, f func(b []byte) []byte) {
			add(what+": "+name, func(p *rawPair) {
				p.late = func() {
					if b := f(append([]byte{}, p.st.M[p.set][key]...)); b == nil {
						delete(p.st.M[p.set], key)
					} else {
						p.st.M[p.set][key] = b
					}
				}
			})
		}
		raw("segments missing", func(b []byte) []byte { return nil })
		raw("segments truncated", func(b []byte) []byte { return b[:len(b)-1] })
		raw("segments empty", func(b []byte) []byte { return b[:0] })
		raw("segments of another version", func(b []byte) []byte { b[0] ^= 0x40; return b })
		edit("index flag", func(r *rawSegs) { r.s.IsIndex = !r.s.IsIndex })
		edit("other ID", func(r *rawSegs) { r.s.ID = "other" })
	}
	return res
}

func segIDs(s *rankdb.Segments) (r []rankdb.SegmentID) {
	for i := range s.Segments {
		r = append(r, s.Segments[i].ID)
	}
	return r
}

// apply performs the damages on a copy of the store.
func applyDamage(in *inst, ds ...damage) (*h.Store, error) {
	st := in.st.Clone()
	p, err := readPair(in, st)
	if err != nil {
		return nil, err
	}
	var late []func()
	// Elements are stored where they were.
	sk, ik := p.sc.keys(), p.ix.keys()
	for _, d := range ds {
		p.late = nil
		d.do(p)
		if p.late != nil {
			late = append(late, p.late)
		}
	}
	p.sc.put(st, p.set, sk)
	p.ix.put(st, p.set, ik)
	for _, f := range late {
		f()
	}
	return st, nil
}

// readable returns all copies of elements that a repair can find.
func readable(st *h.Store, set string, id rankdb.SegmentsID) (ok bool, lost bool, res map[rankdb.ElementID][]rankdb.Element) {
	res = map[rankdb.ElementID][]rankdb.Element{}
	ws := blobstore.StoreWithSet(st, set)
	s, err := id.Load(bg, ws, nil)
	if err != nil {
		return false, true, res
	}
	for i := range s.Segments {
		b, err := st.Get(bg, set, s.Segments[i].StorageKey())
		if err != nil || len(b) == 0 {
			lost = true
			continue
		}
		rest, v := rankdb.MsgpGetVersion(b)
		var e rankdb.Elements
		_, err = e.UnmarshalMsg(rest)
		if v != 1 || err != nil {
			lost = true
			continue
		}
		for _, x := range e {
			res[x.ID] = append(res[x.ID], x)
		}
	}
	return true, lost, res
}

// seen29 are the damaged stores that were checked.
var seen29 = map[uint64]bool{}

// checkDamaged checks verification and repair of one damaged list.
func checkDamaged(c *h.Ctx, src *inst, st *h.Store) error {
	hash := fnv.New64a()
	fmt.Fprint(hash, src.merge, src.split, src.cache == nil)
	for _, k := range st.Keys() {
		set, key, _ := strings.Cut(k, "/")
		fmt.Fprintf(hash, "%s=%x;", k, st.M[set][key])
	}
	if seen29[hash.Sum64()] {
		return nil
	}
	seen29[hash.Sum64()] = true
	c.Count("distinct damaged stores (per worker)", 1)
	r, err := boot(st.Clone(), src, src.l.ID)
	if err != nil {
		return err
	}
	if r.l == nil {
		return fmt.Errorf("the list is not in the directory")
	}
	verr := r.l.Verify(bg, r.st)
	if verr == nil {
		verr = r.l.VerifyElements(bg, r.st)
	}
	if verr == nil {
		// Then it must behave like a list.
		if err := adopt(r); err != nil {
			return fmt.Errorf("the list passes verification, but %v", err)
		}
		if err := checkContent(r); err != nil {
			return fmt.Errorf("the list passes verification, but %v", err)
		}
		if err := checkByID(r, ids8); err != nil {
			return fmt.Errorf("the list passes verification, but %v", err)
		}
		// Elements also go to where the segments meet.
		p, err := readPair(r, r.st)
		if err != nil {
			return fmt.Errorf("the list passes verification, but %v", err)
		}
		var at []rankdb.Element
		for i, g := range p.sc.s.Segments {
			at = append(at, el(30+uint64(i), g.Min, g.MinTie, 9))
			if i > 0 {
				at = append(at, el(50+uint64(i), g.Max, g.MaxTie, 9))
			}
		}
		for i, o := range []op{opInsert(at...), opUpdate(at...)} {
			if err := o.do(r); err != nil {
				return fmt.Errorf("the list passes verification, but %s: %v", o.name, err)
			}
			if err := checkHealthy(r); err != nil {
				return fmt.Errorf("the list passes verification, but after %s: %v", o.name, err)
			}
			if i == 0 {
				if err := usable(r); err != nil {
					return fmt.Errorf("the list passes verification, but %v", err)
				}
			}
		}
	}
	for mode := 0; mode < 2; mode++ {
		r, err := boot(st.Clone(), src, src.l.ID)
		if err != nil {
			return err
		}
		ok, lost, want := readable(r.st, r.l.Set, r.l.Scores)
		// What any of the blobs contains, even if nothing refers to it.
		any := map[rankdb.ElementID][]rankdb.Element{}
		for _, b := range r.st.M[r.l.Set] {
			rest, v := rankdb.MsgpGetVersion(b)
			var e rankdb.Elements
			if _, err := e.UnmarshalMsg(rest); v == 1 && err == nil {
				for _, x := range e {
					any[x.ID] = append(any[x.ID], x)
				}
			}
		}
		if mode == 1 {
			abuse(r, false)
		}
		if err := r.l.Repair(bg, r.st, false); err != nil {
			if !lost {
				return fmt.Errorf("repair (mode %d): %v", mode, err)
			}
			if err := r.l.Repair(bg, r.st, true); err != nil {
				return fmt.Errorf("repair with clear (mode %d): %v", mode, err)
			}
		}
		if err := adopt(r); err != nil {
			return fmt.Errorf("after a repair (mode %d): %v", mode, err)
		}
		for id, e := range r.m.m {
			good := false
			for _, w := range any[id] {
				if w.Updated == 0 {
					w.Updated = e.Updated
				}
				good = good || eqElem(w, e)
			}
			if !good {
				return fmt.Errorf("after a repair (mode %d): element %s was not stored", mode, es(e))
			}
		}
		if ok {
			for id := range want {
				if _, ok := r.m.m[id]; !ok {
					return fmt.Errorf("after a repair (mode %d): element %d is lost", mode, id)
				}
			}
		}
		if err := checkHealthy(r); err != nil {
			return fmt.Errorf("after a repair (mode %d): %v", mode, err)
		}
		if mode == 1 {
			err = usable(r)
		}
		if err != nil {
			return fmt.Errorf("after a repair (mode %d): %v", mode, err)
		}
		if err := r.reload(); err != nil {
			return err
		}
		if err := checkHealthy(r); err != nil {
			return fmt.Errorf("after a repair and a reload (mode %d): %v", mode, err)
		}
	}
	return nil
}

// adopt makes the content of the list the expected one.
func adopt(r *inst) error {
	got, err := r.l.GetRankTop(bg, r.st, 0, 1000)
	if err != nil && err != rankdb.ErrOffsetOutOfBounds {
		return err
	}
	m := newModel()
	for _, g := range got {
		if _, ok := m.m[g.ID]; ok {
			return fmt.Errorf("element %d is in the list twice: %s", g.ID, ess(got))
		}
		m.put(g)
	}
	r.m = m
	return nil
}

// lostWrites performs every operation on the stored list and loses any of its writes.
func lostWrites(in *inst, c *h.Ctx, ops []op) error {
	for _, o := range ops {
		r, err := boot(in.st.Clone(), in, in.l.ID)
		if err != nil {
			return err
		}
		if o.ok != nil && !o.ok(r) {
			continue
		}
		r.st.Record, r.st.Ops = true, nil
		if err := o.do(r); err != nil {
			return fmt.Errorf("%s: %v", o.name, err)
		}
		if err := r.mgr.SaveLists(bg, false); err != nil {
			return err
		}
		vsched.Quiesce(0)
		// Only the last write of a blob counts.
		var w []h.Op
		for _, m := range r.st.Mutations() {
			for i := range w {
				if w[i].Set == m.Set && w[i].Key == m.Key {
					w = append(w[:i:i], w[i+1:]...)
					break
				}
			}
			w = append(w, m)
		}
		c.Bound("blobs written by one operation", len(w))
		for mask := 0; mask < 1<<len(w); mask++ {
			if n := bits.OnesCount(uint(mask)); len(w) > 9 && n > 2 && n < len(w)-2 {
				continue
			}
			st := in.st.Clone()
			var lost []string
			for i, m := range w {
				if mask&(1<<i) != 0 {
					st.Apply(m)
				} else {
					lost = append(lost, fmt.Sprintf("%c %s/%s", m.Kind, m.Set, m.Key))
				}
			}
			c.Trace(1)
			c.Trans(1)
			c.Count("subsets of the writes of an operation", 1)
			if err := checkDamaged(c, in, st); err != nil {
				return fmt.Errorf("%s, these writes lost: %v: %v", o.name, lost, err)
			}
		}
	}
	return nil
}

func worlds29(c *h.Ctx) (ws []*world) {
	six := []rankdb.Element{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)}
	ops := []op{opUpdate(el(1, 10, 0, 2), el(7, 45, 0, 2)), opInsert(el(0, 40, 0, 2), el(9, 41, 0, 2)), opDelete(3, 4), opSplit, opReindex}
	for _, v := range []struct {
		name                string
		merge, split, cache int
		e                   []rankdb.Element
	}{{"damage", 2, 4, -1, six}, {"damage, cached", 2, 4, 0, six}, {"damage, tiny segments", 1, 2, -1, six}} {
		v := v
		check := func(in *inst, c *h.Ctx) error {
			if err := in.mgr.SaveLists(bg, false); err != nil {
				return err
			}
			vsched.Quiesce(0)
			p, err := readPair(in, in.st.Clone())
			if err != nil {
				return err
			}
			ds := damages(p)
			one := func(dd ...damage) error {
				st, err := applyDamage(in, dd...)
				if err != nil {
					return err
				}
				c.Trace(1)
				c.Trans(1)
				if err := checkDamaged(c, in, st); err != nil {
					n := dd[0].name
					for _, d := range dd[1:] {
						n += " and " + d.name
					}
					return fmt.Errorf("%s: %v", n, err)
				}
				return nil
			}
			for _, d := range ds {
				if err := one(d); err != nil {
					return err
				}
			}
			c.Count("single damages", len(ds))
			return lostWrites(in, c, ops)
		}
		ws = append(ws, &world{name: v.name, merge: v.merge, split: v.split, cache: v.cache, depth: h.Pick(c, 1, 2), ops: ops,
			init: []op{initNew(), initNew(v.e...)}, check: check, lazy: true, shared: 1})
	}
	return ws
}

func c29(c *h.Ctx) {
	for _, w := range worlds29(c) {
		if c.Stopped() || c.Expired() {
			return
		}
		w.explore(c)
	}
}
