//go:build go1.21

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// network replaces the network: hosts are servers of this process.
type network struct {
	hosts map[string]func(q *http.Request) (*http.Response, error)
	cur   *srv
}

// transport is the network of the current execution.
var transport *network

type rtrip struct{}

func (rtrip) RoundTrip(q *http.Request) (*http.Response, error) {
	f := transport.hosts[q.URL.Host]
	if f == nil {
		if q.Body != nil {
			q.Body.Close()
		}
		return nil, fmt.Errorf("dial tcp %s: connection refused", q.URL.Host)
	}
	return f(q)
}

func use(s *srv) {
	transport.cur = s
	api.ZZServe(bg, s.db, s.cache, nil)
}

var errReset = errors.New("connection reset by peer")

// cutBody breaks the connection after n bytes.
type cutBody struct {
	io.Reader
	n int
}

func (b *cutBody) Read(p []byte) (int, error) {
	if b.n >= 0 {
		if b.n == 0 {
			return 0, errReset
		}
		if len(p) > b.n {
			p = p[:b.n]
		}
	}
	n, err := b.Reader.Read(p)
	if b.n > 0 {
		b.n -= n
	}
	return n, err
}

// serve makes the server reachable. cut is the number of bytes of a request
// after which the connection breaks (-1: does not).
func (n *network) serve(host string, s *srv, cut int) {
	n.hosts[host] = func(q *http.Request) (*http.Response, error) {
		w := &rw{hd: http.Header{}}
		done := false
		body := q.Body
		vsched.GoNamed(host, func() {
			defer func() { done = true }()
			hr := (&http.Request{Method: q.Method, URL: q.URL, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: q.Header.Clone(), Host: host, RemoteAddr: "127.0.0.1:1", RequestURI: q.URL.RequestURI()}).WithContext(q.Context())
			hr.Header.Set("Accept", "application/json")
			hr.Body = http.NoBody
			if body != nil && body != http.NoBody {
				hr.Body = io.NopCloser(&cutBody{body, cut})
				hr.ContentLength = -1
			}
			old := n.cur
			use(s)
			s.h.ServeHTTP(w, hr)
			if old != nil {
				use(old)
			}
			// The rest of the body is not read.
			if body != nil {
				body.Close()
			}
		})
		vsched.Block("http", func() bool { return done || q.Context().Err() != nil })
		if !done {
			if body != nil {
				body.Close()
			}
			return nil, q.Context().Err()
		}
		if cut >= 0 && body != nil && body != http.NoBody {
			return nil, errReset
		}
		return &http.Response{StatusCode: w.code, Status: fmt.Sprint(w.code, " ", http.StatusText(w.code)), Header: w.hd, Body: io.NopCloser(bytes.NewReader(w.b.Bytes())), ContentLength: int64(w.b.Len()), Request: q}, nil
	}
}

// fixed serves a response.
func (n *network) fixed(host string, code int, b []byte, broken bool) {
	n.hosts[host] = func(q *http.Request) (*http.Response, error) {
		if q.Body != nil {
			q.Body.Close()
		}
		r := io.Reader(bytes.NewReader(b))
		if broken {
			r = io.MultiReader(r, &cutBody{r, 0})
		}
		return &http.Response{StatusCode: code, Status: fmt.Sprint(code, " ", http.StatusText(code)), Header: http.Header{}, Body: io.NopCloser(r), ContentLength: -1, Request: q}, nil
	}
}

// xfer is one way of moving lists.
type xfer struct {
	dest           string // file, download, server
	src            string // body, src, src_file (not for servers)
	prefix, suffix string
	keep           bool
	self           bool // to the server itself
	x              selection
}

func (t *xfer) String() string {
	return fmt.Sprintf("backup %s to %s, restore from %q prefix=%q suffix=%q keep=%v self=%v", js(t.x.body()), t.dest, t.src, t.prefix, t.suffix, t.keep, t.self)
}

// xworld are two servers.
type xworld struct {
	a, b   *srv
	ma, mb *amodel
	dir    string
	n      int
}

func newX(hd http.Handler, dir string) (*xworld, error) {
	transport = &network{hosts: map[string]func(q *http.Request) (*http.Response, error){}}
	x := &xworld{dir: dir}
	var err error
	if x.b, err = newSrv(hd, h.NewCache(1000), 0); err != nil {
		return nil, err
	}
	x.mb = newModel()
	e := func(id, score uint64) elem { return elem{id: id, score: score, payload: fmt.Sprintf(`{"b":%d}`, id)} }
	for _, q := range []areq{
		qNewList(&alist{id: "bb", set: "t1", merge: 20, split: 40, meta: map[string]string{"old": "1"}}, false, e(2, 10), e(9, 8)),
		qNewList(&alist{id: "p-cc", set: "t1", merge: 20, split: 40}, false, e(3, 11)),
		qNewList(&alist{id: "other", set: "t2", merge: 20, split: 40}, false, e(1, 12), e(4, 12)),
	} {
		q := q
		if err := x.b.run(x.mb, &q); err != nil {
			return nil, err
		}
	}
	if x.a, err = newSrv(hd, h.NewCache(1000), 0); err != nil {
		return nil, err
	}
	if x.ma, err = fill25(x.a); err != nil {
		return nil, err
	}
	use(x.a)
	transport.serve("a:80", x.a, -1)
	transport.serve("b:80", x.b, -1)
	return x, nil
}

// backup starts a backup on server a and returns the response and, for
// downloads, the data.
func (x *xworld) backup(t *xfer, path string) (*resp, error) {
	use(x.a)
	d := obj{"type": t.dest}
	if path != "" {
		d["path"] = path
	}
	if t.dest == "server" {
		if t.prefix != "" {
			d["server_list_id_prefix"] = t.prefix
		}
		if t.suffix != "" {
			d["server_list_id_suffix"] = t.suffix
		}
	}
	return x.a.do(req{method: "PUT", path: "/xlist/backup", body: js(obj{"lists": t.x.body(), "destination": d})})
}

// status of a backup.
type bstat struct {
	done, cancelled bool
	lists, nDone    int
	errs            map[string]any
	raw             string
}

func (x *xworld) status(id string) (*bstat, error) {
	r, err := x.a.do(req{method: "GET", path: "/backup/" + id})
	if err != nil {
		return nil, err
	}
	o, _ := r.js.(map[string]any)
	if r.code != 200 {
		return nil, fmt.Errorf("backup status: status %d: %.300s", r.code, r.raw)
	}
	es, _ := o["errors"].(map[string]any)
	return &bstat{fmt.Sprint(o["done"]) == "true", fmt.Sprint(o["cancelled"]) == "true", num(o, "lists"), num(o, "lists_done"), es, string(r.raw)}, nil
}

func backupID(t *xfer, r *resp) string {
	if t.dest == "download" {
		return r.hd.Get("X-Backup-ID")
	}
	o, _ := r.js.(map[string]any)
	return fmt.Sprint(o["id"])
}

// restoreQuery are the parameters of a restore request.
func (t *xfer) restoreReq(data []byte, path string) req {
	v := url.Values{}
	if t.prefix != "" {
		v.Set("list_id_prefix", t.prefix)
	}
	if t.suffix != "" {
		v.Set("list_id_suffix", t.suffix)
	}
	if t.keep {
		v.Set("keep", "true")
	}
	q := req{method: "POST", path: "/xlist/restore", ctype: "application/octet-stream"}
	switch t.src {
	case "body":
		q.body = string(data)
	case "src":
		v.Set("src", "http://files:80/backup.bin")
	case "src_file":
		v.Set("src_file", path)
	}
	if len(v) > 0 {
		q.path += "?" + v.Encode()
	}
	return q
}

// restored applies the restore of the lists to the model.
func (t *xfer) restored(src, dst *amodel, lists []string) (restored, skipped int) {
	add := map[string]*alist{}
	for _, id := range lists {
		n := src.lists[id].clone()
		n.id = t.prefix + id + t.suffix
		if dst.lists[n.id] != nil && t.keep {
			skipped++
			continue
		}
		restored++
		add[n.id] = n
	}
	for id, l := range add {
		dst.lists[id] = l
	}
	return
}

// check compares both servers with their models, also after a restart.
func (x *xworld) check() error {
	for i := 0; i < 2; i++ {
		for _, s := range []struct {
			n string
			s *srv
			m *amodel
		}{{"source", x.a, x.ma}, {"destination", x.b, x.mb}} {
			use(s.s)
			if err := s.s.checkLists(s.m); err != nil {
				return fmt.Errorf("%s server: %v", s.n, err)
			}
			if i == 0 {
				if err := s.s.reload(); err != nil {
					return fmt.Errorf("%s server: restart: %v", s.n, err)
				}
			}
		}
	}
	return nil
}

// move backs up and restores.
func (x *xworld) move(t *xfer) error {
	path := ""
	x.n++
	file := filepath.Join(x.dir, fmt.Sprint(x.n))
	switch t.dest {
	case "file":
		path = file
	case "server":
		path = "b:80"
		if t.self {
			path = "a:80"
		}
	}
	r, err := x.backup(t, path)
	if err != nil {
		return err
	}
	want := 201
	if t.dest == "download" {
		want = 200
	}
	if r.code != want {
		return fmt.Errorf("backup: status %d: %.300s", r.code, r.raw)
	}
	vsched.Quiesce(50)
	lists, missing := t.x.resolve(x.ma, true)
	st, err := x.status(backupID(t, r))
	if err != nil {
		return err
	}
	if !st.done || st.cancelled || st.lists != len(lists)+len(missing) || st.nDone != len(lists) || fmt.Sprint(h.SortedKeys(st.errs)) != fmt.Sprint(append([]string{}, missing...)) {
		return fmt.Errorf("selected %v and the missing %v, status %.500s", lists, missing, st.raw)
	}
	dst, mdst := x.b, x.mb
	if t.self {
		dst, mdst = x.a, x.ma
	}
	src := x.ma.clone()
	if t.dest == "server" {
		t.restored(src, mdst, lists)
	} else {
		data := r.raw
		if t.dest == "file" {
			if data, err = os.ReadFile(file); err != nil {
				return err
			}
		} else if err := os.WriteFile(file, data, 0o600); err != nil {
			return err
		}
		defer os.Remove(file)
		transport.fixed("files:80", 200, data, false)
		use(dst)
		rr, err := dst.do(t.restoreReq(data, file))
		if err != nil {
			return err
		}
		nr, ns := t.restored(src, mdst, lists)
		o, _ := rr.js.(map[string]any)
		es, _ := o["errors"].(map[string]any)
		if rr.code != 200 || num(o, "restored") != nr || num(o, "skipped") != ns || len(es) > 0 {
			return fmt.Errorf("restoring %v: status %d %.300s, want %d restored, %d skipped", lists, rr.code, rr.raw, nr, ns)
		}
	}
	if err := x.check(); err != nil {
		return err
	}
	if len(lists) == 0 {
		return nil
	}
	// The copies are independent.
	id := t.prefix + lists[0] + t.suffix
	if t.self && mdst.lists[lists[0]] != nil {
		id = lists[0]
	}
	use(dst)
	vsched.Advance(time.Second)
	for _, q := range []areq{qPutMulti(id, false, elem{id: 1, score: 3, payload: `{}`}, elem{id: 77, score: 12, payload: `{}`}), qDelete(id, 2)} {
		q := q
		if err := dst.run(mdst, &q); err != nil {
			return err
		}
	}
	return x.check()
}

func c31(c *h.Ctx) {
	http.DefaultTransport = rtrip{}
	http.DefaultClient.Transport = rtrip{}
	hd := boot("", false)
	dir, err := os.MkdirTemp("", "c31")
	if err != nil {
		c.Errorf("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	n := 0
	mine := func() bool { n++; return (n-1)%c.NShards == c.Shard }
	one := func(desc string, pol int, fn func(x *xworld) error) bool {
		c.Begin(func() string { return desc })
		err := h.Seq(pol, func() error {
			x, err := newX(hd, dir)
			if err != nil {
				return err
			}
			return fn(x)
		})
		c.Trace(1)
		c.Trans(1)
		c.StateHash(h.Hash(desc))
		if err != nil {
			c.Violate(desc, desc, "%s: %v", desc, err)
		}
		return !c.Stopped() && !c.Expired()
	}
	sels := []selection{{}, {lists: []string{"cc", "aa"}}, {lists: []string{"bb"}}, {lists: []string{"zz", "dd", "a0"}}, {meta: map[string]string{"c": "dk"}}, {sets: []string{"s3", "s1"}}, {lists: []string{"aa", "aa"}, sets: []string{"s1"}, meta: map[string]string{"game": "1"}}, {lists: []string{"nope"}}}
	var ts []xfer
	for _, x := range sels {
		for _, px := range []string{"", "p-"} {
			for _, sx := range []string{"", "-s"} {
				for _, self := range []bool{false, true} {
					ts = append(ts, xfer{dest: "server", prefix: px, suffix: sx, self: self, x: x})
					for _, dest := range []string{"file", "download"} {
						for _, src := range []string{"body", "src", "src_file"} {
							for _, keep := range []bool{false, true} {
								ts = append(ts, xfer{dest: dest, src: src, prefix: px, suffix: sx, keep: keep, self: self, x: x})
							}
						}
					}
				}
			}
		}
	}
	for i := range ts {
		t := &ts[i]
		for _, pol := range h.Pick(c, []int{0, 1}, []int{0, 1, 5, 6}) {
			if mine() && !one(fmt.Sprintf("%v policy=%d", t, pol), pol, func(x *xworld) error { return x.move(t) }) {
				return
			}
		}
	}
	c.Bound("routes", len(ts))
	// Two transfers one after the other.
	short := []xfer{}
	for _, t := range ts {
		if (len(t.x.lists) == 2 || len(t.x.meta) == 1 && t.x.lists == nil) && t.suffix == "" && t.src != "src" {
			short = append(short, t)
		}
	}
	for i := range short {
		for j := range short {
			if i%2 != j%2 && c.Quick() {
				continue
			}
			if mine() && !one(fmt.Sprintf("%v; %v", &short[i], &short[j]), 0, func(x *xworld) error {
				if err := x.move(&short[i]); err != nil {
					return err
				}
				return x.move(&short[j])
			}) {
				return
			}
		}
	}
	c.Bound("pairs_of_routes", len(short))
	if !c31faults(c, mine, one, hd, dir) {
		return
	}
	c31sched(c, hd, dir)
}

// c31faults: unusable destinations and sources.
func c31faults(c *h.Ctx, mine func() bool, one func(string, int, func(*xworld) error) bool, hd http.Handler, dir string) bool {
	all := selection{}
	// Requests that cannot be served are refused, without any effect.
	type bad struct {
		name string
		q    func(x *xworld, data []byte) req
		prep func(data []byte)
	}
	bk := func(d obj) func(*xworld, []byte) req {
		return func(*xworld, []byte) req {
			return req{method: "PUT", path: "/xlist/backup", body: js(obj{"lists": obj{}, "destination": d})}
		}
	}
	rs := func(v url.Values) func(*xworld, []byte) req {
		return func(*xworld, []byte) req {
			return req{method: "POST", path: "/xlist/restore?" + v.Encode(), ctype: "application/octet-stream"}
		}
	}
	bads := []bad{
		{name: "file without path", q: bk(obj{"type": "file"})},
		{name: "file with empty path", q: bk(obj{"type": "file", "path": ""})},
		{name: "server without path", q: bk(obj{"type": "server"})},
		{name: "server with empty path", q: bk(obj{"type": "server", "path": ""})},
		{name: "server not reachable", q: bk(obj{"type": "server", "path": "nowhere:80"})},
		{name: "server not healthy", q: bk(obj{"type": "server", "path": "files:80"}), prep: func([]byte) { transport.fixed("files:80", 503, nil, false) }},
		{name: "unknown destination", q: bk(obj{"type": "tape", "path": "x"})},
		{name: "s3 not configured", q: bk(obj{"type": "s3", "path": "s3://b/x"})},
		{name: "restore: s3 not configured", q: rs(url.Values{"src": {"s3://b/x"}})},
		{name: "restore: empty body", q: rs(url.Values{})},
		{name: "restore: no such file", q: rs(url.Values{"src_file": {filepath.Join(dir, "missing")}})},
		{name: "restore: host not reachable", q: rs(url.Values{"src": {"http://nowhere:80/x"}})},
		{name: "restore: not a URL", q: rs(url.Values{"src": {"http://%zz"}})},
	}
	for _, code := range []int{300, 304, 401, 404, 500, 503} {
		code := code
		bads = append(bads, bad{name: fmt.Sprint("restore: source answers ", code), q: rs(url.Values{"src": {"http://files:80/x"}}), prep: func(data []byte) { transport.fixed("files:80", code, data, false) }})
	}
	for i := range bads {
		b := &bads[i]
		if mine() && !one("refused: "+b.name, 0, func(x *xworld) error {
			t := &xfer{dest: "download", x: all}
			r, err := x.backup(t, "")
			if err != nil {
				return err
			}
			vsched.Quiesce(50)
			if b.prep != nil {
				b.prep(r.raw)
			}
			use(x.b)
			rr, err := x.b.do(b.q(x, r.raw))
			if err != nil {
				return err
			}
			vsched.Quiesce(50)
			if rr.code < 400 || strings.Contains(string(rr.raw), "panic") {
				return fmt.Errorf("status %d: %.300s", rr.code, rr.raw)
			}
			return x.check()
		}) {
			return false
		}
	}
	c.Bound("refused_requests", len(bads))
	// The backup breaks off at every position.
	var size int
	_ = h.Seq(0, func() error {
		x, err := newX(hd, dir)
		if err != nil {
			return err
		}
		r, err := x.backup(&xfer{dest: "download", x: all}, "")
		if err != nil {
			return err
		}
		size = len(r.raw)
		vsched.Quiesce(50)
		return nil
	})
	if size == 0 {
		c.Errorf("no backup data")
		return false
	}
	for _, src := range []string{"body", "src", "src broken", "src_file"} {
		for k := 0; k < size; k += h.Pick(c, 1+size/64, 1) {
			src, k := src, k
			if mine() && !one(fmt.Sprintf("restore of the first %d of %d bytes from %s", k, size, src), 0, func(x *xworld) error {
				r, err := x.backup(&xfer{dest: "download", x: all}, "")
				if err != nil {
					return err
				}
				vsched.Quiesce(50)
				data := r.raw[:k]
				file := filepath.Join(dir, "cut")
				if err := os.WriteFile(file, data, 0o600); err != nil {
					return err
				}
				defer os.Remove(file)
				t := &xfer{src: strings.Fields(src)[0]}
				transport.fixed("files:80", 200, data, src == "src broken")
				use(x.b)
				rr, err := x.b.do(t.restoreReq(data, file))
				if err != nil {
					return err
				}
				if rr.code < 400 || strings.Contains(string(rr.raw), "panic") {
					return fmt.Errorf("status %d: %.300s", rr.code, rr.raw)
				}
				return x.checkSome()
			}) {
				return false
			}
		}
	}
	c.Bound("backup_bytes", size)
	// Unusable destinations of running backups are reported.
	run := func(t *xfer, path string, x *xworld, must bool) error {
		r, err := x.backup(t, path)
		if err != nil {
			return err
		}
		if r.code >= 400 {
			return x.check()
		}
		vsched.Quiesce(50)
		st, err := x.status(backupID(t, r))
		if err != nil {
			return err
		}
		if !st.done {
			return fmt.Errorf("backup not done: %.300s", st.raw)
		}
		if must && len(st.errs) == 0 {
			return fmt.Errorf("no error reported: %.300s", st.raw)
		}
		if len(st.errs) == 0 {
			lists, _ := t.x.resolve(x.ma, true)
			t.restored(x.ma.clone(), x.mb, lists)
			return x.check()
		}
		return x.checkSome()
	}
	for _, p := range []string{filepath.Join(dir, "no", "such"), dir} {
		p := p
		if mine() && !one("backup to the unusable file "+filepath.Base(p), 0, func(x *xworld) error { return run(&xfer{dest: "file", x: all}, p, x, true) }) {
			return false
		}
	}
	for _, pol := range []int{0, 1, 5, 6} {
		pol := pol
		for k := 0; k <= size; k += h.Pick(c, 1+size/32, 1) {
			k := k
			if mine() && !one(fmt.Sprintf("connection to the destination server breaks after %d of %d bytes policy=%d", k, size, pol), pol, func(x *xworld) error {
				transport.serve("b:80", x.b, k)
				return run(&xfer{dest: "server", x: all}, "b:80", x, true)
			}) {
				return false
			}
		}
		for _, code := range []int{400, 401, 503} {
			code := code
			if mine() && !one(fmt.Sprintf("destination server refuses the restore with %d policy=%d", code, pol), pol, func(x *xworld) error {
				ok := transport.hosts["b:80"]
				transport.hosts["b:80"] = func(q *http.Request) (*http.Response, error) {
					if q.Method == "GET" {
						return ok(q)
					}
					q.Body.Close()
					return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: http.Header{}, Body: io.NopCloser(strings.NewReader("refused")), Request: q}, nil
				}
				return run(&xfer{dest: "server", x: all}, "b:80", x, true)
			}) {
				return false
			}
			if mine() && !one(fmt.Sprintf("destination server fails with %d after it got everything policy=%d", code, pol), pol, func(x *xworld) error {
				ok := transport.hosts["b:80"]
				transport.hosts["b:80"] = func(q *http.Request) (*http.Response, error) {
					if q.Method == "GET" {
						return ok(q)
					}
					_, _ = io.Copy(io.Discard, q.Body)
					q.Body.Close()
					return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: http.Header{}, Body: io.NopCloser(strings.NewReader("refused")), Request: q}, nil
				}
				return run(&xfer{dest: "server", x: all}, "b:80", x, true)
			}) {
				return false
			}
		}
		// The storage of the destination fails.
		for _, id := range []string{"aa", "bb", "cc", "dd", "ee"} {
			id := id
			if mine() && !one(fmt.Sprintf("destination server cannot store the elements of %s policy=%d", id, pol), pol, func(x *xworld) error {
				n := 0
				x.b.st.Fault = func(_ int, kind byte, set, key string) error {
					if kind == 'S' && set == x.ma.lists[id].set {
						n++
						return h.ErrInjected
					}
					return nil
				}
				err := run(&xfer{dest: "server", x: selection{lists: []string{id}}}, "b:80", x, len(x.ma.lists[id].m) > 0)
				if n == 0 && err == nil && len(x.ma.lists[id].m) > 0 {
					return fmt.Errorf("nothing stored for %s", id)
				}
				return err
			}) {
				return false
			}
		}
	}
	// The storage of some sets of the destination fails: exactly the lists in these are
	// not restored, all of them are reported, and all others are restored.
	sets := []string{"s1", "s2", "s3"}
	for mask := 1; mask < 1<<len(sets); mask++ {
		for _, t := range []xfer{{dest: "server", x: all}, {dest: "server", x: all, prefix: "p-"}, {dest: "download", src: "body", x: all}, {dest: "download", src: "body", x: all, prefix: "p-"}} {
			for _, pol := range []int{0, 1} {
				bad := map[string]bool{}
				for i, s := range sets {
					if mask>>i&1 != 0 {
						bad[s] = true
					}
				}
				t := t
				if mine() && !one(fmt.Sprintf("%v; destination cannot store elements in %v policy=%d", &t, h.SortedKeys(bad), pol), pol, func(x *xworld) error { return x.partial(&t, bad) }) {
					return false
				}
			}
		}
	}
	return true
}

// partial moves lists to a server that cannot store elements in some sets.
func (x *xworld) partial(t *xfer, bad map[string]bool) error {
	x.b.st.Fault = func(_ int, kind byte, set, key string) error {
		if kind == 'S' && bad[set] {
			return h.ErrInjected
		}
		return nil
	}
	path := ""
	if t.dest == "server" {
		path = "b:80"
	}
	r, err := x.backup(t, path)
	if err != nil {
		return err
	}
	vsched.Quiesce(50)
	lists, _ := t.x.resolve(x.ma, true)
	var good []string
	must, may := map[string]bool{}, map[string]bool{}
	for _, id := range lists {
		l := x.ma.lists[id]
		switch {
		case !bad[l.set]:
			good = append(good, id)
		case len(l.m) > 0:
			must[t.prefix+id+t.suffix] = true
		}
		if bad[l.set] {
			may[t.prefix+id+t.suffix] = true
		}
	}
	if t.dest == "server" {
		st, err := x.status(backupID(t, r))
		if err != nil {
			return err
		}
		if !st.done {
			return fmt.Errorf("backup not done: %.300s", st.raw)
		}
		if len(must) > 0 && len(st.errs) == 0 {
			return fmt.Errorf("%v cannot be restored, but no error is reported: %.300s", h.SortedKeys(must), st.raw)
		}
	} else {
		use(x.b)
		rr, err := x.b.do(t.restoreReq(r.raw, ""))
		if err != nil {
			return err
		}
		o, _ := rr.js.(map[string]any)
		es, _ := o["errors"].(map[string]any)
		for id := range es {
			if !may[id] {
				return fmt.Errorf("%s is reported as not restored: %.500s", id, rr.raw)
			}
		}
		for id := range must {
			if _, ok := es[id]; !ok {
				return fmt.Errorf("%s cannot be restored, but that is not reported: %.500s", id, rr.raw)
			}
		}
		if num(o, "restored") != len(lists)-len(es) {
			return fmt.Errorf("%d of %d lists are reported as not restored, but %d as restored", len(es), len(lists), num(o, "restored"))
		}
	}
	// What happens to those that fail is not checked here.
	x.b.st.Fault = nil
	use(x.b)
	t.restored(x.ma.clone(), x.mb, good)
	for id := range may {
		l, ok := x.b.db.Lists.ByID(lid(id))
		if !ok {
			delete(x.mb.lists, id)
			continue
		}
		if old := x.mb.lists[id]; old == nil || checkList(x.b, l, old) != nil {
			n := x.ma.lists[strings.TrimSuffix(strings.TrimPrefix(id, t.prefix), t.suffix)].clone()
			n.id = id
			x.mb.lists[id] = n
		}
	}
	return x.check()
}

// checkSome: the source is unchanged, on the destination each list of the
// source is there completely, as before, or absent, and nothing else changed.
func (x *xworld) checkSome() error {
	x.b.st.Fault = nil
	use(x.b)
	m := x.mb.clone()
	for id, a := range x.ma.lists {
		l, ok := x.b.db.Lists.ByID(lid(id))
		if !ok {
			delete(m.lists, id)
			continue
		}
		if old := x.mb.lists[id]; old != nil && checkList(x.b, l, old) == nil {
			continue
		}
		m.lists[id] = a.clone()
	}
	x.mb = m
	return x.check()
}

// c31sched: server to server transfers under all schedules, with cancellation.
func c31sched(c *h.Ctx, hd http.Handler, dir string) {
	for _, mode := range []string{"", "cancel", "cut", "refuse"} {
		mode := mode
		for _, t := range []xfer{
			{dest: "server", x: selection{lists: []string{"bb", "cc"}}},
			{dest: "server", x: selection{lists: []string{"bb", "cc"}}, prefix: "p-"},
			{dest: "file", x: selection{lists: []string{"bb", "cc"}}},
		} {
			t := t
			if t.dest == "file" && mode != "" && mode != "cancel" {
				continue
			}
			body := func() (string, error) {
				var x *xworld
				var err error
				vsched.Frozen(func() {
					x, err = newX(hd, dir)
					if err == nil && mode == "cut" {
						transport.serve("b:80", x.b, 150)
					}
					if err == nil && mode == "refuse" {
						ok := transport.hosts["b:80"]
						transport.hosts["b:80"] = func(q *http.Request) (*http.Response, error) {
							if q.Method == "GET" {
								return ok(q)
							}
							q.Body.Close()
							return &http.Response{StatusCode: 503, Status: "503", Header: http.Header{}, Body: io.NopCloser(strings.NewReader("refused")), Request: q}, nil
						}
					}
				})
				if err != nil {
					return "", err
				}
				path := "b:80"
				if t.dest == "file" {
					path = filepath.Join(dir, "f")
				}
				r, err := x.backup(&t, path)
				if err != nil || r.code != 201 {
					return "", fmt.Errorf("backup: %v %+v", err, r)
				}
				id := backupID(&t, r)
				if mode == "cancel" {
					vsched.Point("cancel")
					r, err := x.a.do(req{method: "DELETE", path: "/backup/" + id})
					if err != nil || r.code != 204 {
						return "", fmt.Errorf("cancel: %v %+v", err, r)
					}
				}
				// Wait for the end as a client does.
				var st *bstat
				vsched.Quiesce(0)
				vsched.Frozen(func() {
					st, err = x.status(id)
				})
				if err != nil {
					return "", err
				}
				out := ""
				vsched.Frozen(func() {
					if !st.done {
						err = fmt.Errorf("not done: %.300s", st.raw)
						return
					}
					if (mode == "cut" || mode == "refuse") && len(st.errs) == 0 {
						err = fmt.Errorf("no error reported: %.300s", st.raw)
						return
					}
					if len(st.errs) == 0 && !st.cancelled {
						if t.dest == "file" {
							var data []byte
							if data, err = os.ReadFile(path); err != nil {
								return
							}
							use(x.b)
							var rr *resp
							t2 := t
							t2.src = "body"
							if rr, err = x.b.do(t2.restoreReq(data, "")); err != nil {
								return
							}
							if rr.code != 200 {
								err = fmt.Errorf("restoring: status %d %.300s", rr.code, rr.raw)
								return
							}
						}
						lists, _ := t.x.resolve(x.ma, true)
						t.restored(x.ma.clone(), x.mb, lists)
						err = x.check()
						out = "complete"
						return
					}
					if mode == "" {
						err = fmt.Errorf("status %.300s", st.raw)
						return
					}
					out = fmt.Sprint(st.cancelled, h.SortedKeys(st.errs), st.nDone)
					if t.dest == "server" && t.prefix == "" {
						err = x.checkSome()
					}
				})
				return out, err
			}
			c.Explore(h.Scenario{Name: fmt.Sprintf("%v, %s", &t, mode), Policies: []int{0, 1, 5}, Bound: h.Pick(c, 2, 3), Body: body})
		}
	}
}
