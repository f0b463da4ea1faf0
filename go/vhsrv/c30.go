//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/badgerstore"
	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vmem"
	"github.com/Vivino/rankdb/zz_verif/vnet"
	"github.com/Vivino/rankdb/zz_verif/vsched"
	shutdown "github.com/Vivino/rankdb/zz_verif/vshutdown"
	"github.com/dgraph-io/badger"
	jwt "github.com/dgrijalva/jwt-go"
)

func init() {
	specs["C30"] = h.Spec{Rule: "every server configuration times every program, stopped and started again, with every kind of damage of the directory; every concurrent program of requests and an orderly shutdown under all schedules up to the deviation bound", Run: c30, Budget: 110 * time.Second}
}

// conf is the configuration of a server.
type conf struct {
	storage, cache         string
	entries                int
	lazy, retry            bool
	backup                 string
	backupEvery            int
	maxUpdates, lazyLimit  int
	dir                    string
	noBackupSet, nosync    bool
	masterAsBackupSetsName bool
}

func (c *conf) String() string {
	s := "storage=" + c.storage
	if c.lazy {
		s += " lazysaver"
		if c.lazyLimit > 0 {
			s += fmt.Sprintf("(%d)", c.lazyLimit)
		}
	}
	if c.retry {
		s += " retry"
	}
	if c.entries > 0 {
		s += fmt.Sprintf(" cache=%s(%d)", c.cache, c.entries)
	}
	if c.backup != "" {
		s += " backup=" + c.backup
		if c.masterAsBackupSetsName {
			s += "(same set)"
		}
	}
	if c.maxUpdates > 0 {
		s += fmt.Sprintf(" maxupdates=%d", c.maxUpdates)
	}
	if c.nosync {
		s += " nosync"
	}
	return s
}

func (c *conf) backupSet() string {
	if c.masterAsBackupSetsName {
		return "lists"
	}
	return "bak"
}

func (c *conf) bolt() string   { return filepath.Join(c.dir, "bolt") }
func (c *conf) badger() string { return filepath.Join(c.dir, "badger") }

func (c *conf) toml() string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	p("ListenAddress = \"127.0.0.1:0\"\nMasterSet = \"lists\"\nStorage = %q\nSaveEvery = \"1m\"\nPruneEvery = \"1h\"", c.storage)
	p("ShutdownStageWait = \"1m\"\nShutdownRequestWait = \"15s\"")
	p("CacheEntries = %d\nCacheType = %q\nMaxUpdates = %d", c.entries, c.cache, c.maxUpdates)
	if c.backup != "" {
		p("BackupStorage = %q\nBackupEvery = %d", c.backup, c.backupEvery)
		if !c.noBackupSet {
			p("BackupSet = %q", c.backupSet())
		}
	}
	p("[BoltDB]\nFilePath = %q\nNoSync = %v", c.bolt(), c.nosync)
	p("[Badger]\nPath = %q\nNoSync = %v", c.badger(), c.nosync)
	if c.lazy {
		p("[LazySaver]\nEnabled = true\nMaxTime = \"10s\"\nSaveTimeout = \"1h\"\nSavers = 2")
		if c.lazyLimit != 0 {
			p("LimitItems = %d\nFlushAtItems = %d", c.lazyLimit, c.lazyLimit/2+1)
		} else {
			p("LimitItems = 10000\nFlushAtItems = 9000")
		}
	}
	if c.retry {
		p("[StorageRetry]\nEnabled = true\nOpTimeout = \"5s\"")
	}
	return b.String()
}

// server is a started server.
type server struct {
	*srv
	late []string
}

// start runs the real startup of the server.
func (c *conf) start() (*server, error) {
	vmem.Process++
	api.ZZReset()
	shutdown.ZZReset()
	s := &server{}
	shutdown.OnTimeout(func(st shutdown.Stage, who string) { s.late = append(s.late, fmt.Sprint(st, " ", who)) })
	if err := api.StartServer(bg, strings.NewReader(c.toml()), nil); err != nil {
		return nil, err
	}
	vnet.Handler = nil
	jwt.TimeFunc = vsched.Now
	api.StartServices(nolog{}, bg, nil)
	if vnet.Handler == nil {
		return nil, fmt.Errorf("the server does not listen")
	}
	s.srv = &srv{h: vnet.Handler, db: api.ZZDB()}
	return s, nil
}

func (s *server) stop() error {
	t := vsched.Now()
	shutdown.Shutdown()
	return s.stopped(t)
}

func (s *server) stopped(t time.Time) error {
	if len(s.late) > 0 {
		return fmt.Errorf("the shutdown did not finish in time: %s", strings.Join(s.late, ", "))
	}
	return nil
}

// open opens the store of a stopped server.
func (c *conf) open(storage string) (blobstore.Store, func(), error) {
	switch storage {
	case "Memory":
		vmem.Process++
		return vmem.NewMemStore(), func() {}, nil
	case "BoltDB":
		b, err := boltstore.NewBoltStore(c.bolt(), nil)
		if err != nil {
			return nil, nil, err
		}
		return b, func() { b.Close() }, nil
	case "Badger":
		b, err := badgerstore.New(small(badger.DefaultOptions(c.badger())).WithLogger(nil))
		if err != nil {
			return nil, nil, err
		}
		return b, func() { b.Close() }, nil
	}
	return nil, nil, fmt.Errorf("no storage %q", storage)
}

func small(o badger.Options) badger.Options {
	return o.WithMaxTableSize(1 << 20).WithValueLogFileSize(1 << 20).WithNumMemtables(1).WithNumCompactors(2)
}

// dirs makes a scratch directory.
func (c *conf) scratch() (func(), error) {
	vmem.Mem = nil
	if c.storage == "Memory" && (c.backup == "" || c.backup == "Master" || c.backup == "Memory") {
		return func() {}, nil
	}
	d, err := os.MkdirTemp("", "c30-")
	if err != nil {
		return nil, err
	}
	c.dir = d
	return func() { os.RemoveAll(d) }, nil
}

// restart starts the server again and compares its lists with the model.
func (c *conf) restart(m *amodel) (*server, error) {
	s, err := c.start()
	if err != nil {
		return nil, fmt.Errorf("starting again: %v", err)
	}
	if err := s.checkLists(m); err != nil {
		return s, fmt.Errorf("after starting again: %v", err)
	}
	return s, nil
}

var (
	c30aa = &alist{id: "aa", set: "set1", merge: 10, split: 20, meta: map[string]string{"game": "1"}, load: true}
	c30bb = &alist{id: "bb", set: "set2", merge: 500, split: 2000}
	c30cc = &alist{id: "cc", set: "set1", merge: 500, split: 2000}
)

func c30elems(from, n int) (r []elem) {
	for i := 0; i < n; i++ {
		id := uint64(from + i)
		r = append(r, elem{id: id, score: id % 7 * 10, tie: uint32(id % 3), payload: fmt.Sprintf(`{"n":%d}`, id)})
	}
	return
}

// c30many belong in one segment, which becomes too large.
var c30many = func() (r []elem) {
	for i := uint64(100); i < 118; i++ {
		r = append(r, c30e(i, 40, int(i)))
	}
	return
}()

func c30e(id, score uint64, n int) elem {
	return elem{id: id, score: score, tie: uint32(n), payload: fmt.Sprintf(`{"n":%d}`, n)}
}

// c30progs are the requests of the sequential part.
func c30progs() map[string][]areq {
	e := c30e
	base := func(q ...areq) []areq {
		return append([]areq{qNewList(c30aa, false, e(1, 10, 1), e(2, 20, 2), e(3, 30, 3))}, q...)
	}
	return map[string][]areq{
		"nothing":  nil,
		"one list": base(),
		"updates":  base(qPut("aa", e(1, 40, 1), 1), qCreate("aa", e(7, 5, 2), -1), qDelete("aa", 2)),
		"splits":   base(qPutMulti("aa", false, c30elems(10, 45)...), qDelete("aa", 12, 13), qPutMulti("aa", false, c30elems(50, 30)...)),
		"lists":    base(qClone("aa", c30bb), qNewList(c30cc, false), qPut("bb", e(1, 40, 1), -1), qDelList("aa"), qNewList(c30aa, false, e(9, 9, 9))),
		"replaced": base(qNewList(c30bb, false, c30elems(1, 30)...), qNewList(c30bb, true, e(5, 5, 5)), qDelete("bb", 5), qReindex("aa")),
	}
}

// sequential stops and starts a server after requests.
func (c *conf) sequential(ctx *h.Ctx, reqs []areq) (err error) {
	clean, err := c.scratch()
	if err != nil {
		return err
	}
	defer clean()
	m := newModel()
	s, err := c.start()
	if err != nil {
		return fmt.Errorf("the first start: %v", err)
	}
	if err := s.checkLists(m); err != nil {
		return fmt.Errorf("the first start: %v", err)
	}
	half := len(reqs) / 2
	for i := range reqs {
		vsched.Advance(time.Second)
		if err := s.run(m, &reqs[i]); err != nil {
			return err
		}
		vsched.Quiesce(0)
		if i == half {
			if err := s.stop(); err != nil {
				return err
			}
			if s, err = c.restart(m); err != nil {
				return err
			}
		}
		ctx.Trans(1)
	}
	if err := s.checkLists(m); err != nil {
		return err
	}
	if err := s.stop(); err != nil {
		return err
	}
	// Requests are refused.
	for _, q := range []areq{qPut("aa", c30e(1, 77, 7), -1), qDelList("aa"), qNewList(c30cc, true)} {
		r, err := s.do(q.q)
		if err != nil {
			return err
		}
		if r.code != 503 {
			return fmt.Errorf("%s after the shutdown: status %d %.300s", q.name, r.code, r.raw)
		}
	}
	for i := 0; i < 2; i++ {
		if s, err = c.restart(m); err != nil {
			return fmt.Errorf("restart %d: %v", i, err)
		}
		if i == 0 {
			q := qNewList(c30cc, true, c30e(4, 4, 4))
			if err := s.run(m, &q); err != nil {
				return fmt.Errorf("after starting again: %v", err)
			}
		}
		if err := s.stop(); err != nil {
			return fmt.Errorf("restart %d: %v", i, err)
		}
	}
	ctx.State(c.String() + m.key())
	return nil
}

// failure is a way the directory is damaged.
type failure struct {
	name string
	fn   func(b []byte) []byte
	// missing: the directory was deleted.
	missing bool
}

func failures(n int) (r []failure) {
	r = append(r, failure{name: "deleted", missing: true}, failure{name: "empty", fn: func([]byte) []byte { return []byte{} }},
		failure{name: "other content", fn: func([]byte) []byte { return bytes.Repeat([]byte{0xc3}, 50) }})
	for _, k := range []int{1, 2, 3, 5} {
		k := k
		r = append(r, failure{name: fmt.Sprintf("cut after %d bytes", k), fn: func(b []byte) []byte { return b[:min(k, len(b)-1)] }})
	}
	for k := 1; k < n; k++ {
		k := k
		r = append(r, failure{name: fmt.Sprintf("cut at %d/%d", k, n), fn: func(b []byte) []byte { return b[:len(b)*k/n] }})
	}
	r = append(r, failure{name: "last byte cut", fn: func(b []byte) []byte { return b[:len(b)-1] }})
	return
}

// damaged starts the server with a damaged directory, the backup of the
// directory is missing, there, or damaged as well.
func (c *conf) damaged(ctx *h.Ctx, backups int, f failure) error {
	clean, err := c.scratch()
	if err != nil {
		return err
	}
	defer clean()
	m := newModel()
	s, err := c.start()
	if err != nil {
		return fmt.Errorf("the first start: %v", err)
	}
	for _, q := range []areq{qNewList(c30aa, false, c30e(1, 10, 1), c30e(2, 20, 2)), qNewList(c30bb, false, c30e(1, 10, 1))} {
		q := q
		if err := s.run(m, &q); err != nil {
			return err
		}
	}
	if backups > 0 {
		// Saves of the directory, one of them is the backup.
		vsched.Quiesce(0)
		for i := 0; i <= c.backupEvery; i++ {
			vsched.Advance(time.Minute + time.Second)
			vsched.Quiesce(0)
		}
	}
	if err := s.stop(); err != nil {
		return err
	}
	hasBackup := false
	err = func() error {
		st, cl, err := c.open(c.storage)
		if err != nil {
			return err
		}
		defer cl()
		bst, bset := st, c.backupSet()
		if c.backup != "" && c.backup != "Master" && c.backup != c.storage {
			var bcl func()
			if bst, bcl, err = c.open(c.backup); err != nil {
				return err
			}
			defer bcl()
		}
		b, err := st.Get(bg, "lists", "lists")
		if err != nil {
			return fmt.Errorf("the directory after the shutdown: %v", err)
		}
		if c.backup != "" {
			bb, err := bst.Get(bg, bset, "lists-backup")
			if err != nil && err != blobstore.ErrBlobNotFound {
				return fmt.Errorf("the backup: %v", err)
			}
			hasBackup = err == nil
			if hasBackup != (backups > 0) {
				return fmt.Errorf("backup stored: %v, after %d saves with BackupEvery=%d", hasBackup, (backups)*(c.backupEvery+1), c.backupEvery)
			}
			if backups == 2 {
				if err := bst.Set(bg, bset, "lists-backup", bb[:len(bb)/2]); err != nil {
					return err
				}
			}
		}
		if f.missing {
			return st.Delete(bg, "lists", "lists")
		}
		return st.Set(bg, "lists", "lists", f.fn(b))
	}()
	if err != nil {
		return err
	}
	ctx.State(fmt.Sprint(c.String(), " damage ", backups, f.name))
	s, err = c.start()
	switch {
	case hasBackup && backups == 1:
		if err != nil {
			return fmt.Errorf("starting with a backup: %v", err)
		}
		if err := s.checkLists(m); err != nil {
			return fmt.Errorf("loading the backup: %v", err)
		}
	case f.missing && !hasBackup:
		if err != nil {
			return fmt.Errorf("starting without a directory: %v", err)
		}
		m = newModel()
		if err := s.checkLists(m); err != nil {
			return fmt.Errorf("starting without a directory: %v", err)
		}
	default:
		if err == nil {
			return fmt.Errorf("the server starts with an unreadable directory and no readable backup; it has the lists %v and will overwrite the directory with them", api.ZZDB().Lists.All())
		}
		return nil
	}
	q := qNewList(c30cc, true, c30e(4, 4, 4))
	if err := s.run(m, &q); err != nil {
		return err
	}
	if err := s.stop(); err != nil {
		return err
	}
	if s, err = c.restart(m); err != nil {
		return err
	}
	return s.stop()
}

// cprog are requests during an orderly shutdown.
type sprog struct {
	conf
	reqs []areq
	// tick: the periodic save is due.
	tick bool
	// pending: a split of the list is due.
	pending bool
	bound   int
}

func (p *sprog) name() string {
	var n []string
	for _, q := range p.reqs {
		n = append(n, q.name)
	}
	s := strings.Join(n, " || ") + " || shutdown"
	if p.tick {
		s += " || periodic save"
	}
	if p.pending {
		s += " || split"
	}
	return s + " " + p.conf.String()
}

func (p *sprog) body(init []areq) (string, error) {
	var s *server
	var m *amodel
	var err error
	clean := func() {}
	vsched.Frozen(func() {
		if clean, err = p.scratch(); err != nil {
			return
		}
		if s, err = p.start(); err != nil {
			return
		}
		m = newModel()
		for i := range init {
			vsched.Advance(time.Second)
			if err = s.run(m, &init[i]); err != nil {
				return
			}
		}
		vsched.Quiesce(0)
		if p.pending {
			q := qPutMulti("aa", false, c30many...)
			err = s.run(m, &q)
		}
	})
	defer func() { clean() }()
	if err != nil {
		return "", err
	}
	vsched.Advance(time.Second)
	if p.tick {
		vsched.Advance(time.Minute)
	}
	rs := make([]*resp, len(p.reqs))
	errs := make([]error, len(p.reqs))
	var serr error
	var fns []func()
	for i := range p.reqs {
		i := i
		fns = append(fns, func() { rs[i], errs[i] = s.do(p.reqs[i].q) })
	}
	fns = append(fns, func() { serr = s.stop() })
	h.Par(fns...)
	if serr != nil {
		return "", serr
	}
	var codes []int
	for i := range rs {
		if errs[i] != nil {
			return "", errs[i]
		}
		codes = append(codes, rs[i].code)
	}
	var ferr error
	var out string
	vsched.Frozen(func() {
		s, err := p.start()
		if err != nil {
			ferr = fmt.Errorf("starting again: %v", err)
			return
		}
		for _, perm := range perms(len(p.reqs)) {
			m2 := m.clone()
			ok := true
			for _, i := range perm {
				if codes[i] == 503 {
					continue
				}
				code, _ := p.reqs[i].want(m2)
				if code != codes[i] && !(code == anyErr && codes[i] >= 400 && codes[i] < 500) {
					ok = false
				}
			}
			if !ok {
				if ferr == nil {
					ferr = fmt.Errorf("in no order")
				}
				continue
			}
			if err := s.checkLists(m2); err != nil {
				ferr = err
				continue
			}
			ferr = nil
			out = fmt.Sprint(codes, m2.key())
			break
		}
		if ferr == nil {
			ferr = s.stop()
		}
	})
	if ferr != nil {
		var b []string
		for i := range rs {
			b = append(b, fmt.Sprintf("%s: status %d %.2000s", p.reqs[i].name, rs[i].code, rs[i].raw))
		}
		return "", fmt.Errorf("after the shutdown and starting again, the answered requests are not there as answered (%v): %s", ferr, strings.Join(b, "; "))
	}
	return out, nil
}

func c30(c *h.Ctx) {
	vmem.BadgerOpened = func(o badger.Options) badger.Options { return small(o) }
	c30errors(c)
	if os.Getenv("VH_CONC") == "" {
		c30damage(c)
		c30configs(c)
	}
	c30conc(c)
}

func c30configs(c *h.Ctx) {
	progs := c30progs()
	var cfs []conf
	for _, st := range []string{"Memory", "BoltDB", "Badger"} {
		for _, lazy := range []bool{false, true} {
			for _, retry := range []bool{false, true} {
				for _, ca := range []conf{{}, {cache: "", entries: 50}, {cache: "ARC", entries: 2}, {cache: "LRU", entries: 50}, {cache: "LRU2Q", entries: 5}} {
					for _, b := range []string{"", "Master", "Memory", "BoltDB"} {
						if b == st || b != "" && (ca.cache == "LRU" || ca.cache == "LRU2Q") && c.Quick() {
							continue
						}
						cf := conf{storage: st, lazy: lazy, retry: retry, cache: ca.cache, entries: ca.entries, backup: b, backupEvery: 2, nosync: true}
						cfs = append(cfs, cf)
					}
				}
			}
		}
	}
	for _, st := range []string{"Memory", "BoltDB", "Badger"} {
		cfs = append(cfs, conf{storage: st, lazy: true, lazyLimit: 2, maxUpdates: 1}, conf{storage: st, maxUpdates: 1, nosync: true, backup: "Master", backupEvery: 1, masterAsBackupSetsName: true})
	}
	n := 0
	for i := range cfs {
		for _, name := range h.SortedKeys(progs) {
			cf := cfs[i]
			if !c.Mine() {
				continue
			}
			if c.Stopped() || c.Expired() {
				return
			}
			n++
			what := fmt.Sprintf("%s: %s, stop, start", cf.String(), name)
			c.Begin(func() string { return what })
			opened := 0
			var bad string
			vmem.BadgerOpened = func(o badger.Options) badger.Options {
				opened++
				if o.SyncWrites == cf.nosync {
					bad = fmt.Sprintf("Badger is opened with SyncWrites=%v, the configuration has NoSync=%v", o.SyncWrites, cf.nosync)
				}
				return small(o)
			}
			err := h.Seq(0, func() error { return cf.sequential(c, progs[name]) })
			if err == nil && bad != "" {
				err = fmt.Errorf("%s", bad)
			}
			c.Trace(1)
			if err != nil {
				c.Violate("restart "+name, what, "%s: %v", what, err)
			}
		}
	}
	c.Count("configurations with a program", n)
	c.Bound("configurations", len(cfs))
}

func c30errors(c *h.Ctx) {
	for _, cf := range []conf{{storage: "Other"}, {storage: ""}, {storage: "Memory", entries: 5, cache: "FIFO"}, {storage: "Memory", backup: "Master", backupEvery: 1, noBackupSet: true},
		{storage: "Memory", backup: "Other", backupEvery: 1}, {storage: "Memory", lazy: true, lazyLimit: -5}} {
		cf := cf
		if !c.Mine() {
			continue
		}
		c.Begin(cf.String)
		err := h.Seq(0, func() error {
			clean, err := cf.scratch()
			if err != nil {
				return err
			}
			defer clean()
			if _, err := cf.start(); err == nil {
				return fmt.Errorf("the server starts")
			}
			return nil
		})
		c.Trace(1)
		c.State("error " + cf.String())
		if err != nil {
			c.Violate("invalid configuration", cf.String(), "invalid configuration %s: %v\n%s", cf.String(), err, cf.toml())
		}
	}
}

func c30damage(c *h.Ctx) {
	for _, cf := range []conf{{storage: "Memory"}, {storage: "Memory", backup: "Master", backupEvery: 1}, {storage: "Memory", lazy: true, backup: "Master", backupEvery: 2},
		{storage: "Memory", retry: true, backup: "Master", backupEvery: 3, masterAsBackupSetsName: true, entries: 10},
		{storage: "Memory", backup: "BoltDB", backupEvery: 1, nosync: true}, {storage: "BoltDB", backup: "Memory", backupEvery: 1, nosync: true, lazy: true},
		{storage: "BoltDB", backup: "Master", backupEvery: 1, nosync: true, lazy: true}, {storage: "Badger", retry: true, backup: "Master", backupEvery: 1, nosync: true}} {
		for backups := 0; backups < 3; backups++ {
			if cf.backup == "" && backups > 0 {
				continue
			}
			for _, f := range failures(h.Pick(c, 8, 40)) {
				if !c.Mine() {
					continue
				}
				if c.Stopped() || c.Expired() {
					return
				}
				cf := cf
				what := fmt.Sprintf("%s: directory %s, %s", cf.String(), f.name, [3]string{"no backup stored", "backup stored", "backup cut"}[backups])
				c.Begin(func() string { return what })
				err := h.Seq(0, func() error { return cf.damaged(c, backups, f) })
				c.Trace(1)
				c.Count("damaged directories", 1)
				if err != nil {
					c.Violate("damaged directory", what, "%s: %v", what, err)
				}
			}
		}
	}
}

func c30conc(c *h.Ctx) {
	e := c30e
	full := *c30aa
	init := []areq{qNewList(&full, false, append(c30elems(10, 18), e(1, 10, 1), e(2, 20, 2))...)}
	put, put2 := qPut("aa", e(1, 40, 1), 1), qPut("aa", e(2, 0, 2), 1)
	mput := qPutMulti("aa", true, append([]elem{e(1, 35, 9)}, c30many...)...)
	q := h.Pick(c, 1, 2)
	progs := []sprog{
		{reqs: []areq{put}, bound: 2},
		{reqs: []areq{mput}, bound: q},
		{reqs: []areq{qCreate("aa", e(7, 5, 2), -1)}, bound: q},
		{reqs: []areq{qDelete("aa", 1, 2)}, bound: q},
		{reqs: []areq{qNewList(c30bb, false, e(1, 1, 1))}, bound: 2},
		{reqs: []areq{qNewList(&full, true, e(1, 1, 1))}, bound: q},
		{reqs: []areq{qClone("aa", c30bb)}, bound: q},
		{reqs: []areq{qDelList("aa")}, bound: q},
		{reqs: []areq{qReindex("aa")}, bound: q},
		{reqs: []areq{put, put2}, bound: q},
		{reqs: []areq{mput, qDelete("aa", 2)}, bound: q},
		{reqs: []areq{qNewList(c30bb, false, e(1, 1, 1)), put}, bound: q},
		{reqs: []areq{put, qDelete("aa", 2)}, bound: q, conf: conf{maxUpdates: 1}},
		{reqs: []areq{put, mput, qDelete("aa", 2)}, bound: 1, conf: conf{maxUpdates: 1}},
		{reqs: []areq{put}, tick: true, bound: q},
		{reqs: []areq{qNewList(c30bb, false, e(1, 1, 1))}, tick: true, bound: q},
		{reqs: []areq{qNewList(c30bb, false, e(1, 1, 1))}, tick: true, bound: q, conf: conf{backup: "Master", backupEvery: 1}},
	}
	progs = append(progs, sprog{pending: true, bound: 2}, sprog{pending: true, tick: true, bound: q}, sprog{pending: true, reqs: []areq{put}, bound: q}, sprog{pending: true, reqs: []areq{qDelList("aa")}, bound: q})
	base := len(progs)
	for i := 0; i < base; i++ {
		p := progs[i]
		p.lazy, p.lazyLimit = true, 20
		if !p.pending {
			p.bound = q
		}
		progs = append(progs, p)
		if i == 1 || i == 4 {
			p.lazyLimit = 2
			progs = append(progs, p)
		}
	}
	for i := range progs {
		p := &progs[i]
		p.storage = "Memory"
		if c.Stopped() || c.Expired() {
			return
		}
		c.Explore(h.Scenario{Name: p.name(), Bound: p.bound, Policies: []int{0, 5}, Body: func() (string, error) { return p.body(init) }, Key: func(error) string { return "shutdown" }})
	}
	c.Bound("programs with a shutdown", len(progs))
}
