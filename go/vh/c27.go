//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/backup"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
	"github.com/Vivino/rankdb/zz_verif/vzstd"
)

var errDst = errors.New("injected destination error")

// jprog is a backup job with concurrent observers and faults.
type jprog struct {
	name     string
	lists    []string // lists of the job; "a0" does not exist
	readers  int      // status reads of the observer
	cancel   bool     // another task cancels the job
	second   bool     // a second job runs at the same time
	dstFail  int      // write of the destination failing from (-2: never, -1: close only, n: writes from n on)
	dstOnce  bool     // only that one
	saveFail bool     // the destination cannot be created
	getFail  int      // storage read failing (-1: none)
	delayed  int      // 0 no error channel, 1 nil is sent, 2 an error is sent, 3 the channel is closed
	chunk    int      // bytes of backup data per write to the destination
}

func (p *jprog) String() string {
	return fmt.Sprintf("%s lists=%v chunk=%d dst=%d/%v save=%v get=%d delayed=%d cancel=%v", p.name, p.lists, p.chunk, p.dstFail, p.dstOnce, p.saveFail, p.getFail, p.delayed, p.cancel)
}

type jdst struct {
	*memDst
	saveErr error
	saves   int
	observe func() // called wherever the job uses the destination
}

type jfile struct{ d *jdst }

func (f jfile) Write(b []byte) (int, error) {
	f.d.observe()
	n, err := memFile{f.d.memDst}.Write(b)
	f.d.observe()
	return n, err
}

func (f jfile) Close() error {
	f.d.observe()
	err := memFile{f.d.memDst}.Close()
	f.d.observe()
	return err
}

func (d *jdst) Save(ctx context.Context) (io.WriteCloser, error) {
	vsched.Point("save")
	d.saves++
	d.observe()
	if d.saveErr != nil {
		return nil, d.saveErr
	}
	return jfile{d}, nil
}

func copyStatus(s *backup.Status) backup.Status {
	r := *s
	r.Errors, r.Custom = map[string]string{}, map[string]string{}
	for k, v := range s.Errors {
		r.Errors[k] = v
	}
	for k, v := range s.Custom {
		r.Custom[k] = v
	}
	r.Success = append([]string{}, s.Success...)
	if s.Finished != nil {
		f := *s.Finished
		r.Finished = &f
	}
	return r
}

func sameStatus(a, b backup.Status) bool {
	if len(a.Success)+len(b.Success) == 0 {
		a.Success, b.Success = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

var content27 = map[string][]rankdb.Element{
	"a": {el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1)},
	"b": {},
	"c": {el(1, 5, 0, 9)},
}

func setup27() (*inst, []string, error) {
	var ids []string
	in := &inst{st: h.NewStore(), m: newModel(), merge: 1, split: 3, aux: map[string]any{}}
	if err := in.start(); err != nil {
		return nil, nil, err
	}
	for id := range content27 {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		l, err := rankdb.NewList(bg, rankdb.ListID(id), "set1", in.st, rankdb.WithListOption.MergeSplitSize(1, 2))
		if err != nil {
			return nil, nil, err
		}
		if err := l.Populate(bg, in.st, cloneElems(content27[id])); err != nil {
			return nil, nil, err
		}
		in.mgr.Lists.Add(l)
		vsched.Quiesce(0)
		l.ReleaseSegments(bg)
	}
	return in, ids, nil
}

func (p *jprog) body() (string, error) {
	vzstd.Chunk = p.chunk
	defer func() { vzstd.Chunk = 0 }()
	var in *inst
	var ids []string
	var err error
	vsched.Frozen(func() { in, ids, err = setup27() })
	if err != nil {
		return "", err
	}
	d := &jdst{memDst: &memDst{point: true}}
	gets := 0
	var failedKey string
	in.st.Fault = func(n int, kind byte, set, key string) error {
		if kind != 'G' {
			return nil
		}
		if d.observe != nil {
			d.observe()
		}
		gets++
		if gets-1 == p.getFail {
			failedKey = key
			return h.ErrInjected
		}
		return nil
	}
	if p.saveFail {
		d.saveErr = errDst
	}
	dstFailed := p.saveFail
	d.fail = func(n int) error {
		if p.dstFail == -2 {
			return nil
		}
		if p.dstFail == n || n >= 0 && p.dstFail >= 0 && n >= p.dstFail && !p.dstOnce {
			dstFailed = true
			return errDst
		}
		return nil
	}
	var lists rankdb.ListIDs
	for _, l := range p.lists {
		lists = append(lists, rankdb.ListID(l))
	}
	req := backup.Request{DB: in.mgr, Dst: d, Lists: append(rankdb.ListIDs{}, lists...)}
	var errCh chan error
	sent := p.delayed == 0
	if p.delayed > 0 {
		errCh = vsched.MakeChan[error](0)
		req.ErrCh = errCh
		vsched.Go(func() {
			vsched.Point("delayed result")
			switch p.delayed {
			case 1:
				vsched.Send(errCh)(nil)
			case 2:
				vsched.Send(errCh)(errDst)
			case 3:
				vsched.Close(errCh)
			}
			sent = true
		})
	}
	var fail error
	bad := func(f string, a ...any) {
		if fail == nil {
			fail = fmt.Errorf(f, a...)
		}
	}
	var id backup.ID
	type snap struct {
		orig *backup.Status
		copy backup.Status
	}
	var snaps []snap
	// observe reads the status and checks what holds at any time.
	observe := func() *backup.Status {
		st := id.Status()
		if st == nil {
			bad("the status of the job is unknown")
			return nil
		}
		snaps = append(snaps, snap{st, copyStatus(st)})
		if st.Lists != len(lists) || st.ListsDone != len(st.Success) {
			bad("status %+v: counters are wrong", *st)
		}
		if st.Done {
			if st.Finished == nil {
				bad("done without a time")
			}
			if !p.saveFail && d.closed != 1 {
				bad("reported done, but the destination was closed %d times", d.closed)
			}
			if p.delayed > 0 && d.closed+d.saves == 0 {
				bad("done before the job ran")
			}
		}
		return st
	}
	var prev *backup.Status
	order := func(a, b *backup.Status) {
		if a == nil || b == nil {
			return
		}
		if a.Done && !sameStatus(copyStatus(a), copyStatus(b)) {
			bad("the status changed after the job was done: %+v, then %+v", *a, *b)
		}
		if b.ListsDone < a.ListsDone || len(b.Errors) < len(a.Errors) || b.Size < a.Size {
			bad("the status went back: %+v, then %+v", *a, *b)
		}
	}
	d.observe = func() {
		if id != "" {
			last := prev
			prev = observe()
			order(last, prev)
		}
	}
	id = req.Start(bg)
	cancelledAt := -1
	fns := []func(){func() {
		var last *backup.Status
		for i := 0; i < p.readers; i++ {
			st := observe()
			order(last, st)
			last = st
			vsched.Point("between reads")
		}
	}}
	if p.cancel {
		fns = append(fns, func() {
			id.Cancel()
			if st := id.Status(); st != nil {
				cancelledAt = st.ListsDone + len(st.Errors)
			}
		})
	}
	var id2 backup.ID
	d2 := &memDst{point: true}
	if p.second {
		fns = append(fns, func() {
			id2 = backup.Request{DB: in.mgr, Dst: d2, Lists: append(rankdb.ListIDs{}, lists...)}.Start(bg)
		})
	}
	var st *backup.Status
	verify := func() (string, error) {
		for _, s := range snaps {
			if !sameStatus(*s.orig, s.copy) {
				return "", fmt.Errorf("a status changed after it was returned: %+v, was %+v", *s.orig, s.copy)
			}
		}
		if !sent {
			return "", fmt.Errorf("the delayed result was not waited for")
		}
		if d.late > 0 {
			return "", fmt.Errorf("%d writes after the destination was closed", d.late)
		}
		if st.Size != int64(d.Len()) {
			return "", fmt.Errorf("size %d reported, %d bytes written", st.Size, d.Len())
		}
		// Each list is reported once.
		seen := map[string]int{}
		for _, s := range st.Success {
			seen[s]++
		}
		global := false
		for k := range st.Errors {
			isList := false
			for _, l := range p.lists {
				isList = isList || k == l
			}
			if isList {
				seen[k]++
			} else {
				global = true
			}
		}
		total := 0
		for _, l := range p.lists {
			if seen[l] > 1 {
				return "", fmt.Errorf("list %q is reported %d times: %+v", l, seen[l], *st)
			}
			total += seen[l]
		}
		for _, s := range st.Success {
			if s == "a0" {
				return "", fmt.Errorf("success of a list that does not exist: %+v", *st)
			}
		}
		if len(seen) != total {
			return "", fmt.Errorf("unknown lists are reported: %+v", *st)
		}
		if !st.Cancelled && !global && total != len(p.lists) {
			return "", fmt.Errorf("not all lists are reported: %+v", *st)
		}
		if st.Cancelled && !p.cancel {
			return "", fmt.Errorf("reported cancelled: %+v", *st)
		}
		if dstFailed && len(st.Errors) == 0 {
			return "", fmt.Errorf("the destination failed, but the job reports %+v", *st)
		}
		if p.delayed == 2 {
			if _, ok := st.Errors["delayed_error"]; !ok {
				return "", fmt.Errorf("the delayed error is not reported: %+v", *st)
			}
		}
		if cancelledAt >= 0 && !global {
			if total > cancelledAt+1 {
				return "", fmt.Errorf("cancelled after %d lists, but %d were processed", cancelledAt, total)
			}
			if total < len(p.lists) && !st.Cancelled {
				return "", fmt.Errorf("the cancellation is not reported: %+v", *st)
			}
		}
		// A list that nothing happened to is backed up.
		if failedKey == "" && !dstFailed {
			for k := range st.Errors {
				if k != "a0" && k != "delayed_error" {
					return "", fmt.Errorf("nothing failed, but the job reports %+v", *st)
				}
			}
		}
		// What is reported as backed up can be restored.
		restored := func(d backup.Loader, st *backup.Status, complete bool) error {
			out := &inst{st: h.NewStore(), m: newModel(), merge: 1, split: 3, aux: map[string]any{}}
			if err := out.start(); err != nil {
				return err
			}
			res, err := (&backup.RestoreInfo{Source: d, DB: out.mgr}).Restore(bg)
			if err != nil && complete {
				return fmt.Errorf("the job reports %+v, but restoring returns %v", *st, err)
			}
			if err == nil && res.Restored != len(st.Success) {
				return fmt.Errorf("the job reports %+v, but %d lists are restored", *st, res.Restored)
			}
			for _, s := range st.Success {
				l, ok := out.mgr.Lists.ByID(rankdb.ListID(s))
				if !ok {
					return fmt.Errorf("the job reports %+v, but list %q is not restored", *st, s)
				}
				x := &inst{st: out.st, l: l, mgr: out.mgr, m: newModel(), aux: map[string]any{}}
				x.m.put(content27[s]...)
				if err := checkHealthy(x); err != nil {
					return fmt.Errorf("restored list %q: %v", s, err)
				}
			}
			return nil
		}
		if !global || p.delayed == 2 && len(st.Errors) == 1 {
			if err := restored(d, st, !st.Cancelled); err != nil {
				return "", err
			}
		}
		if p.second {
			if id2 == id {
				return "", fmt.Errorf("two jobs have the ID %s", id)
			}
			st2 := id2.Status()
			if st2 == nil || !st2.Done || st2.Cancelled || len(st2.Success) != len(lists) {
				return "", fmt.Errorf("second job: %+v", st2)
			}
			if err := restored(d2, st2, true); err != nil {
				return "", fmt.Errorf("second job: %v", err)
			}
		}
		// The lists are unharmed.
		for _, i := range ids {
			l, _ := in.mgr.Lists.ByID(rankdb.ListID(i))
			x := &inst{st: in.st, l: l, mgr: in.mgr, m: newModel(), aux: map[string]any{}}
			x.m.put(content27[i]...)
			if err := checkHealthy(x); err != nil {
				return "", fmt.Errorf("after the backup, list %q: %v", i, err)
			}
		}
		var errs []string
		for k, v := range st.Errors {
			errs = append(errs, k+v)
		}
		sort.Strings(errs)
		return fmt.Sprintf("%v %v %v %v %v %d", st.Success, errs, st.Cancelled, failedKey, d.closed, len(snaps)), nil
	}
	h.Par(fns...)
	vsched.Quiesce(0)
	in.st.Fault = nil
	st = observe()
	if fail != nil {
		return "", fail
	}
	if !st.Done {
		return "", fmt.Errorf("the job does not finish: %+v", *st)
	}
	var out string
	vsched.Frozen(func() { out, err = verify() })
	return out, err
}

func progs27() (ps []*jprog) {
	base := jprog{dstFail: -2, getFail: -1, readers: 2, chunk: 1 << 20}
	add := func(name string, f func(p *jprog)) {
		p := base
		p.name = name
		f(&p)
		ps = append(ps, &p)
	}
	all := []string{"c", "a", "b"}
	add("plain", func(p *jprog) { p.lists = all })
	add("plain, small writes", func(p *jprog) { p.lists, p.chunk, p.readers = []string{"a", "c"}, 64, 3 })
	add("nothing", func(p *jprog) {})
	add("missing", func(p *jprog) { p.lists, p.readers = []string{"a", "a0", "b"}, 3 })
	add("cancel", func(p *jprog) { p.lists, p.cancel = all, true })
	add("cancel, small writes", func(p *jprog) { p.lists, p.cancel, p.chunk, p.readers = []string{"a", "a0", "c"}, true, 64, 1 })
	add("two jobs", func(p *jprog) { p.lists, p.second, p.readers = []string{"a", "b"}, true, 1 })
	add("no destination", func(p *jprog) { p.lists, p.saveFail = all, true })
	add("no destination, cancel", func(p *jprog) { p.lists, p.saveFail, p.cancel = all, true, true })
	for d := 1; d <= 3; d++ {
		add("delayed result", func(p *jprog) { p.lists, p.delayed, p.readers = []string{"c"}, d, 3 })
		add("delayed result, no destination", func(p *jprog) { p.lists, p.delayed, p.saveFail = []string{"c"}, d, true })
		add("delayed result, cancel", func(p *jprog) { p.lists, p.delayed, p.cancel, p.readers = []string{"c", "a"}, d, true, 1 })
	}
	for _, ch := range []int{40, 200, 1 << 20} {
		for f := -1; f < 12; f++ {
			for _, once := range []bool{false, true} {
				add("destination fails", func(p *jprog) {
					p.lists, p.chunk, p.dstFail, p.dstOnce, p.readers = all, ch, f, once, 1
				})
			}
			if f == -1 || ch == 200 && f < 4 {
				add("destination fails, cancel", func(p *jprog) {
					p.lists, p.chunk, p.dstFail, p.cancel, p.readers = all, ch, f, true, 1
				})
			}
		}
	}
	for g := 0; g < 12; g++ {
		add("storage fails", func(p *jprog) { p.lists, p.getFail = []string{"a", "a0", "c"}, g })
	}
	return
}

// restores27 restores with a storage fault at every call.
func restores27(c *h.Ctx) {
	n := 0
	for _, kinds := range []string{"S", "D", "G", "SDG"} {
		for _, once := range []bool{true, false} {
			for _, mode := range []string{"fresh", "replace", "keep"} {
				for at := 0; ; at++ {
					n++
					mine := n%c.NShards == c.Shard
					name := fmt.Sprintf("restore (%s) with the storage failing at call %d of kind %s, once=%v", mode, at, kinds, once)
					if mine {
						c.Begin(func() string { return name })
					}
					fired := false
					err := h.Seq(0, func() error {
						in, ids, err := setup27()
						if err != nil {
							return err
						}
						d := &memDst{}
						var lists rankdb.ListIDs
						for _, id := range ids {
							lists = append(lists, rankdb.ListID(id))
						}
						st := waitJob(backup.Request{DB: in.mgr, Dst: d, Lists: lists}.Start(bg))
						if st == nil || !st.Done || len(st.Success) != len(ids) {
							return fmt.Errorf("backup: %+v", st)
						}
						out := in
						if mode == "fresh" {
							out = &inst{st: h.NewStore(), m: newModel(), merge: 1, split: 3, aux: map[string]any{}}
							if err := out.start(); err != nil {
								return err
							}
						}
						calls := 0
						out.st.Fault = func(n int, kind byte, set, key string) error {
							if !strings.ContainsRune(kinds, rune(kind)) {
								return nil
							}
							calls++
							if calls-1 == at || calls-1 > at && !once {
								fired = true
								return h.ErrInjected
							}
							return nil
						}
						res, err := (&backup.RestoreInfo{Source: d, DB: out.mgr, Replace: mode == "replace"}).Restore(bg)
						out.st.Fault = nil
						if !fired && !mine {
							return nil
						}
						if err != nil {
							return fmt.Errorf("the restore returned %v", err)
						}
						if res.Restored+res.Skipped+len(res.Failed) != len(ids) {
							return fmt.Errorf("the result of the restore is %+v for %d lists", *res, len(ids))
						}
						if !fired && len(res.Failed) > 0 {
							return fmt.Errorf("nothing failed, but the result is %+v", *res)
						}
						if mode == "keep" && res.Skipped != len(ids) {
							return fmt.Errorf("existing lists were not skipped: %+v", *res)
						}
						for _, id := range ids {
							if _, failed := res.Failed[id]; failed {
								continue
							}
							l, ok := out.mgr.Lists.ByID(rankdb.ListID(id))
							if !ok {
								return fmt.Errorf("list %q is missing: %+v", id, *res)
							}
							x := &inst{st: out.st, l: l, mgr: out.mgr, m: newModel(), aux: map[string]any{}}
							x.m.put(content27[id]...)
							if err := checkHealthy(x); err != nil {
								return fmt.Errorf("list %q is reported as restored: %v", id, err)
							}
						}
						return nil
					})
					if mine {
						c.Trace(1)
						c.Trans(1)
						c.State(name)
					}
					if err != nil {
						c.Violate(fmt.Sprint("restore ", mode, kinds, once), name, "%s: %v", name, err)
						if c.Stopped() {
							return
						}
					}
					if !fired {
						break
					}
					if c.Expired() {
						return
					}
				}
			}
		}
	}
	c.Bound("restores", "one failing call, or all from one on, at every storage call")
}

func c27(c *h.Ctx) {
	restores27(c)
	ps := progs27()
	b := h.Pick(c, 1, 2)
	c.Bound("programs", len(ps))
	c.Bound("complete", fmt.Sprintf("all schedules with at most %d deviations from each of 3 base schedules", b))
	run := func(p *jprog, extra int) h.Scenario {
		return h.Scenario{Name: p.String(), Body: p.body, Bound: b + extra, Policies: []int{0, 1, 5}, MaxSteps: 20000, Extra: extra > 0}
	}
	for _, p := range ps {
		c.Explore(run(p, 0))
		if c.Stopped() || c.Expired() {
			return
		}
	}
	c.Bound("beyond", "one more deviation, as far as the time allows (see counters)")
	var deep []h.Scenario
	for _, p := range ps {
		deep = append(deep, run(p, 1))
	}
	c.ExploreAll(deep)
}

var _ = strings.Join
