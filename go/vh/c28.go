//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

const (
	every28 = 10 * time.Second
	prune28 = 7 * time.Second
)

// srv28 is a manager with its background services.
type srv28 struct {
	in     *inst
	models map[string]*model // expected lists
	maybe  map[string]bool   // lists created or deleted while the services run
	saver  chan chan struct{}
	pruner chan chan struct{}
	split  chan chan struct{}
}

// sop is an operation of a client of the server.
type sop struct {
	name string
	do   func(s *srv28) error
	// apply is the effect on the model.
	apply func(s *srv28)
}

func (s *srv28) list(id string) (*inst, error) {
	l, ok := s.in.mgr.Lists.ByID(rankdb.ListID(id))
	if !ok {
		return nil, rankdb.ErrNotFound
	}
	return &inst{st: s.in.st, cache: s.in.cache, l: l, mgr: s.in.mgr, m: s.models[id], merge: s.in.merge, split: s.in.split, aux: map[string]any{}}, nil
}

func sOn(id string, o cop) sop {
	return sop{name: id + "." + o.name, do: func(s *srv28) error {
		x, err := s.list(id)
		if err != nil {
			return err
		}
		return o.do(x, &cres{})
	}, apply: func(s *srv28) {
		if o.apply != nil {
			o.apply(s.models[id])
		}
	}}
}

// sOnMaybe may be applied to a list that is deleted concurrently.
func sOnMaybe(id string, o cop) sop {
	r := sOn(id, o)
	do := r.do
	r.do = func(s *srv28) error {
		if err := do(s); err != nil && !errors.Is(err, rankdb.ErrNotFound) {
			return err
		}
		return nil
	}
	r.apply = func(s *srv28) {}
	return r
}

func sNew(id string, e ...rankdb.Element) sop {
	return sop{name: "new " + id, do: func(s *srv28) error {
		o := []rankdb.ListOption{rankdb.WithListOption.Metadata(map[string]string{"id": id})}
		l, err := rankdb.NewList(bg, rankdb.ListID(id), "set-"+id, s.in.st, s.in.opts(o...)...)
		if err == nil && len(e) > 0 {
			err = l.Populate(bg, s.in.st, cloneElems(e))
		}
		if err == nil {
			s.in.mgr.Lists.Add(l)
		}
		return err
	}, apply: func(s *srv28) {
		s.models[id] = newModel()
		s.models[id].put(cloneElems(e)...)
	}}
}

func sDel(id string) sop {
	return sop{name: "delete " + id, do: func(s *srv28) error { return s.in.mgr.DeleteList(bg, rankdb.ListID(id)) },
		apply: func(s *srv28) { delete(s.models, id) }}
}

// sprog is a program of the server: clients, passing time and shutdown.
type sprog struct {
	name        string
	cache       int
	loadI       bool
	backupEvery int
	ticks       int
	threads     [][]sop
	// late operations run after the first shutdown stage.
	late []sop
	// boot: the server starts from stored lists.
	boot bool
	// early: services are stopped while clients are running.
	early bool
	// fail: storing the directory fails n times (from the first) while services run.
	fail int
	// never: the intervals are 0, lists are only saved at shutdown and never pruned.
	never bool
}

func (p *sprog) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s cache=%d load=%v backupEvery=%d ticks=%d boot=%v early=%v fail=%d never=%v:", p.name, p.cache, p.loadI, p.backupEvery, p.ticks, p.boot, p.early, p.fail, p.never)
	for i, t := range p.threads {
		if i > 0 {
			sb.WriteString(" ||")
		}
		for _, o := range t {
			sb.WriteString(" " + o.name + ";")
		}
	}
	return sb.String()
}

func (p *sprog) changes() map[string]bool {
	r := map[string]bool{}
	for _, t := range append(append([][]sop{}, p.threads...), p.late) {
		for _, o := range t {
			if f := strings.Fields(o.name); len(f) == 2 && (f[0] == "new" || f[0] == "delete") {
				r[f[1]] = true
			}
		}
	}
	return r
}

func (s *srv28) stop(ch ...chan chan struct{}) {
	var fns []func()
	for _, c := range ch {
		c := c
		fns = append(fns, func() {
			done := vsched.MakeChan[struct{}](0)
			vsched.Send((chan<- chan struct{})(c))(done)
			vsched.Recv((<-chan struct{})(done))
		})
	}
	h.Par(fns...)
}

func (p *sprog) body() (string, error) {
	s := &srv28{models: map[string]*model{}}
	var err error
	vsched.Frozen(func() { err = p.setup(s) })
	if err != nil {
		return "", err
	}
	st := s.in.st
	fails := p.fail
	if fails > 0 {
		st.Fault = func(n int, kind byte, set, key string) error {
			if kind == 'S' && set == "meta" && fails > 0 {
				fails--
				return h.ErrInjected
			}
			return nil
		}
	}
	st.Record, st.Ops = true, nil
	m := s.in.mgr
	s.saver, s.pruner, s.split = vsched.MakeChan[chan struct{}](0), vsched.MakeChan[chan struct{}](0), vsched.MakeChan[chan struct{}](0)
	every, prune := every28, prune28
	if p.never {
		every, prune = 0, 0
	}
	m.StartIntervalSaver(bg, every, s.saver)
	m.StartListPruner(bg, prune, s.pruner)
	m.StartListSplitter(bg, st, s.split)

	errs := make([]error, len(p.threads))
	var fns []func()
	if p.ticks > 0 {
		fns = append(fns, func() {
			for i := 0; i < p.ticks; i++ {
				vsched.Advance(prune28)
				vsched.Point("clock")
				vsched.Advance(every28 - prune28)
				vsched.Point("clock")
			}
		})
	}
	for i, t := range p.threads {
		i, t := i, t
		fns = append(fns, func() {
			for _, o := range t {
				if err := o.do(s); err != nil && errs[i] == nil {
					errs[i] = fmt.Errorf("%s: %v", o.name, err)
				}
			}
		})
	}
	if p.early {
		fns = append(fns, func() {
			s.stop(s.split, s.pruner)
			s.stop(s.saver)
		})
	}
	h.Par(fns...)
	if err := errors.Join(errs...); err != nil {
		return "", err
	}
	for _, t := range p.threads {
		for _, o := range t {
			o.apply(s)
		}
	}
	if err := p.history(s); err != nil {
		return "", err
	}
	if p.early {
		// The services are gone; the lists must still be fine.
		vsched.Frozen(func() {
			if err = s.inert(); err == nil {
				if err = s.live(p.name); err == nil {
					if err = m.SaveLists(bg, false); err == nil {
						err = s.stored("after a final save")
					}
				}
			}
		})
		return "", err
	}
	vsched.Quiesce(0)
	// Everything that was requested has happened now.
	vsched.Frozen(func() {
		for id := range s.models {
			var x *inst
			if x, err = s.list(id); err != nil {
				return
			}
			sc, ix := x.segSizes()
			for _, n := range append(sc, ix...) {
				if n > s.in.split {
					err = fmt.Errorf("list %s has a segment of %d elements when idle, split size %d: scores %v index %v", id, n, s.in.split, sc, ix)
					return
				}
			}
		}
		if err = s.live("when idle"); err != nil {
			return
		}
		for id := range p.changes() {
			if s.models[id] == nil && len(st.M["set-"+id]) > 0 {
				err = fmt.Errorf("data of deleted list %s is left: %v", id, st.Keys())
				return
			}
		}
		if p.never {
			vsched.Advance(24 * every28)
			vsched.Quiesce(0)
			for _, o := range st.Ops {
				if o.Kind == 'S' && (o.Set == "meta" || o.Set == "bak") {
					err = fmt.Errorf("the directory was saved, with the interval being 0")
				}
			}
			return
		}
		// At the next interval everything is saved.
		fails, st.Fault = 0, nil
		vsched.Advance(every28)
		vsched.Quiesce(0)
		if err = s.stored("after an interval"); err != nil {
			return
		}
		if p.backupEvery > 0 {
			for i := 0; i <= p.backupEvery; i++ {
				vsched.Advance(every28)
				vsched.Quiesce(0)
			}
			if err = s.storedBackup(); err != nil {
				return
			}
		}
	})
	if err != nil {
		return "", err
	}
	if err := p.history(s); err != nil {
		return "", err
	}
	// Shut down in the stages of the server.
	s.stop(s.split, s.pruner)
	for _, o := range p.late {
		if err := o.do(s); err != nil {
			return "", fmt.Errorf("%s: %v", o.name, err)
		}
		o.apply(s)
	}
	s.stop(s.saver)
	vsched.Frozen(func() {
		if err = s.stored("after shutdown"); err == nil {
			err = s.inert()
		}
	})
	if err != nil {
		return "", err
	}
	return "", p.history(s)
}

func (p *sprog) setup(s *srv28) error {
	s.in = &inst{st: h.NewStore(), m: newModel(), merge: 2, split: 5, loadI: p.loadI, aux: map[string]any{}}
	in := s.in
	if p.cache >= 0 {
		in.cache = h.NewCache(p.cache)
	}
	mk := func() (err error) {
		if in.mgr, err = rankdb.NewManager(in.st, "meta"); err != nil {
			return err
		}
		in.mgr.Backup = blobstore.StoreWithSet(in.st, "bak")
		in.mgr.BackupEvery = p.backupEvery
		return nil
	}
	if err := mk(); err != nil {
		return err
	}
	if err := in.mgr.NewLists(in.cache); err != nil {
		return err
	}
	for _, o := range []sop{sNew("a", el(1, 50, 0, 1), el(2, 40, 0, 1), el(3, 30, 0, 1), el(4, 20, 0, 1)), sNew("b", el(1, 5, 0, 1), el(9, 4, 0, 1))} {
		if err := o.do(s); err != nil {
			return err
		}
		o.apply(s)
	}
	vsched.Quiesce(0)
	if p.boot {
		if err := in.mgr.SaveLists(bg, false); err != nil {
			return err
		}
		if in.cache != nil {
			in.cache = h.NewCache(p.cache)
		}
		if err := mk(); err != nil {
			return err
		}
		// With LoadIndex the segments are now being loaded in the background.
		return in.mgr.LoadLists(bg, in.cache)
	}
	return nil
}

// live checks all lists as they are in memory.
func (s *srv28) live(when string) error {
	if got := s.in.mgr.Lists.All(); len(got) != len(s.models) {
		return fmt.Errorf("%s: lists %v, want %v", when, got, h.SortedKeys(s.models))
	}
	for _, id := range h.SortedKeys(s.models) {
		x, err := s.list(id)
		if err == nil {
			err = checkHealthy(x)
		}
		if err != nil {
			return fmt.Errorf("%s: list %s: %v", when, id, err)
		}
	}
	return nil
}

func (s *srv28) loaded(st *h.Store) (*srv28, error) {
	m, err := rankdb.NewManager(st, "meta")
	if err != nil {
		return nil, err
	}
	m.Backup = blobstore.StoreWithSet(st, "bak")
	if err := m.LoadLists(bg, nil); err != nil {
		return nil, err
	}
	vsched.Quiesce(0)
	return &srv28{in: &inst{st: st, mgr: m, m: newModel(), merge: s.in.merge, split: s.in.split, aux: map[string]any{}}, models: s.models}, nil
}

// stored checks what a server started now would have.
func (s *srv28) stored(when string) error {
	x, err := s.loaded(s.in.st.Clone())
	if err != nil {
		return fmt.Errorf("%s: loading the stored lists: %v", when, err)
	}
	for _, l := range x.in.mgr.Lists.All() {
		if y, ok := x.in.mgr.Lists.ByID(l); ok && y.Metadata["id"] != string(l) {
			return fmt.Errorf("%s: metadata of list %s is %v", when, l, y.Metadata)
		}
	}
	return x.live(when + ", after a restart")
}

// storedBackup checks what a server has when the main copy of the directory is lost.
func (s *srv28) storedBackup() error {
	st := s.in.st.Clone()
	delete(st.M, "meta")
	x, err := s.loaded(st)
	if err != nil {
		return fmt.Errorf("loading from the backup of the directory: %v", err)
	}
	return x.live("from the backup of the directory")
}

// inert checks that the services do nothing any more.
func (s *srv28) inert() error {
	k := len(s.in.st.Ops)
	vsched.Quiesce(0)
	for _, o := range s.in.st.Ops[k:] {
		if o.Kind == 'S' || o.Kind == 'D' {
			return fmt.Errorf("storage is written after the services have said that they have stopped: %c %s/%s", o.Kind, o.Set, o.Key)
		}
	}
	n := s.in.st.N
	for i := 0; i < 3; i++ {
		vsched.Advance(every28)
		vsched.Quiesce(0)
	}
	if s.in.st.N != n {
		return fmt.Errorf("storage is used after the services were stopped: %v", s.in.st.Ops[len(s.in.st.Ops)-1])
	}
	return nil
}

// history checks every version of the directory that was written.
func (p *sprog) history(s *srv28) (err error) {
	vsched.Frozen(func() {
		changed := p.changes()
		since, first := 0, true
		var last []byte
		for i, o := range s.in.st.Ops {
			switch {
			case o.Kind == 'S' && o.Set == "bak":
				if p.backupEvery == 0 {
					err = fmt.Errorf("backup of the directory written without being enabled")
					return
				}
				if since > p.backupEvery || !first && since != p.backupEvery {
					err = fmt.Errorf("backup of the directory written after %d saves instead of %d", since, p.backupEvery)
					return
				}
				since, first = 0, false
				last = o.Val
			case o.Kind == 'S' && o.Set == "meta":
				since++
				if p.backupEvery > 0 && since > p.backupEvery+1 {
					err = fmt.Errorf("no backup of the directory in %d saves, should be every %d", since, p.backupEvery)
					return
				}
				if last != nil && o.Err == nil && string(last) != string(o.Val) {
					err = fmt.Errorf("backup of the directory differs from the main copy")
					return
				}
				last = nil
				if o.Err != nil {
					continue
				}
				x := &rankdb.Lists{}
				if err = x.Load(bg, h.NewStore(), o.Val); err != nil {
					err = fmt.Errorf("directory version %d: %v", i, err)
					return
				}
				for _, id := range []string{"a", "b"} {
					if _, ok := x.ByID(rankdb.ListID(id)); !ok && !changed[id] {
						err = fmt.Errorf("directory version %d: list %s is missing", i, id)
						return
					}
				}
				for _, id := range x.All() {
					if id != "a" && id != "b" && !changed[string(id)] {
						err = fmt.Errorf("directory version %d: unknown list %s", i, id)
						return
					}
				}
			}
		}
	})
	return
}

func progs28() (res []*sprog) {
	T := func(o ...sop) []sop { return o }
	up := func(e ...rankdb.Element) cop { return cUpdate(false, 0, e...) }
	grow := sOn("a", up(el(5, 55, 0, 2), el(6, 52, 0, 2), el(7, 51, 0, 2), el(8, 45, 0, 2)))
	move := sOn("a", up(el(1, 10, 0, 2), el(4, 60, 0, 2)))
	shrink := sOn("a", cDelete(1, 2, 3))
	look := sOn("a", cGet(1, []rankdb.Element{el(3, 30, 0, 1)}, 3))
	add := func(p sprog) { q := p; res = append(res, &q) }
	for _, cache := range []int{-1, 0} {
		for _, boot := range []bool{false, true} {
			b := sprog{cache: cache, boot: boot, loadI: boot}
			mk := func(name string, f func(p *sprog)) {
				p := b
				p.name = name
				f(&p)
				add(p)
			}
			mk("grow", func(p *sprog) {
				p.threads = [][]sop{T(grow)}
				p.ticks, p.backupEvery = 1, 1
				p.late = T(sNew("d"), move)
			})
			mk("grow-twice", func(p *sprog) {
				p.threads = [][]sop{T(grow, sOn("a", up(el(9, 44, 0, 2), el(10, 43, 0, 2), el(11, 42, 0, 2), el(12, 41, 0, 2))))}
				p.late = T(sNew("d"))
			})
			mk("grow-both", func(p *sprog) {
				p.threads = [][]sop{T(grow), T(sOn("b", up(el(2, 6, 0, 2), el(3, 7, 0, 2), el(4, 1, 0, 2), el(5, 2, 0, 2))))}
			})
			mk("grow-look", func(p *sprog) { p.threads = [][]sop{T(grow), T(look)}; p.ticks = 1 })
			mk("grow-delete-list", func(p *sprog) {
				g := grow
				g.apply = func(*srv28) {}
				p.threads = [][]sop{T(g, sDel("a"))}
				p.ticks = 1
			})
			mk("delete-list-grow", func(p *sprog) {
				p.threads = [][]sop{T(sDel("a")), T(sOnMaybe("a", up(el(5, 55, 0, 2), el(6, 52, 0, 2), el(7, 51, 0, 2), el(8, 45, 0, 2))))}
				p.ticks = 1
			})
			mk("new-list", func(p *sprog) {
				p.threads = [][]sop{T(sNew("c", el(1, 5, 0, 1)), sOn("c", up(el(2, 6, 0, 1)))), T(move)}
				p.ticks, p.backupEvery = 2, 2
				p.late = T(sDel("b"))
			})
			mk("shrink", func(p *sprog) {
				p.threads = [][]sop{T(grow, shrink)}
				p.ticks = 1
				p.late = T(sOn("b", up(el(3, 3, 0, 2))))
			})
			mk("failing saves", func(p *sprog) { p.threads = [][]sop{T(move)}; p.ticks, p.fail, p.backupEvery = 1, 1, 1 })
			mk("no intervals", func(p *sprog) {
				p.threads = [][]sop{T(grow), T(sNew("c"))}
				p.ticks, p.never, p.backupEvery = 1, true, 1
				p.late = T(move)
			})
			mk("stop", func(p *sprog) { p.threads = [][]sop{T(grow)}; p.ticks, p.early = 1, true })
			mk("stop-new", func(p *sprog) { p.threads = [][]sop{T(sNew("c"), sDel("b")), T(move)}; p.early = true })
		}
	}
	return res
}

func c28(c *h.Ctx) {
	ps := progs28()
	b := h.Pick(c, 1, 2)
	c.Bound("programs", len(ps))
	c.Bound("complete", fmt.Sprintf("all schedules with at most %d deviations from each of 3 base schedules", b))
	run := func(p *sprog, extra int) h.Scenario {
		return h.Scenario{Name: p.String(), Body: p.body, Bound: b + extra, Policies: []int{0, 1, 5}, MaxSteps: 40000, Extra: extra > 0}
	}
	var base, deep []h.Scenario
	for _, p := range ps {
		base = append(base, run(p, 0))
		deep = append(deep, run(p, 1))
	}
	c.ExploreAll(base)
	c.Bound("beyond", "one more deviation, as far as the time allows (see counters)")
	c.ExploreAll(deep)
}
