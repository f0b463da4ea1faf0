//go:build go1.21

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/log"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vnet"
	"github.com/Vivino/rankdb/zz_verif/vsched"
	jwt "github.com/dgrijalva/jwt-go"
	"github.com/goadesign/goa"
)

var bg = log.WithLogger(context.Background(), log.NullLogger())

type nolog struct{}

func (nolog) Info(string, ...interface{})         {}
func (nolog) Error(string, ...interface{})        {}
func (n nolog) New(...interface{}) goa.LogAdapter { return n }

// handlers are the API servers without and with token security.
var handlers [2]http.Handler

// boot starts the server (its real startup code) and returns its handler.
func boot(keys string, create bool) http.Handler {
	i := 0
	if keys != "" {
		i = 1
	}
	if handlers[i] != nil {
		return handlers[i]
	}
	err := h.Seq(0, func() error {
		vnet.Handler = nil
		api.ZZConfig(keys, create, "127.0.0.1:0")
		api.ZZListening()
		api.StartServices(nolog{}, bg, nil)
		return nil
	})
	if err != nil || vnet.Handler == nil {
		panic(fmt.Sprint("starting the server: ", err))
	}
	jwt.TimeFunc = vsched.Now
	handlers[i] = vnet.Handler
	return handlers[i]
}

// srv is a running server over a store.
type srv struct {
	h     http.Handler
	st    *h.Store
	cache rankdb.Cache
	db    *rankdb.Manager
	token string
	// keys are the blobs of the lists.
	keys map[string][]string
}

const dset = "master"

func newSrv(hd http.Handler, cache rankdb.Cache, maxUpdates int) (*srv, error) {
	s := &srv{h: hd, st: h.NewStore(), cache: cache}
	m, err := rankdb.NewManager(s.st, dset)
	if err != nil {
		return nil, err
	}
	if err := m.NewLists(cache); err != nil {
		return nil, err
	}
	s.db = m
	var b rankdb.Bucket
	if maxUpdates > 0 {
		b = rankdb.NewBucket(maxUpdates)
	}
	api.ZZServe(bg, m, cache, b)
	return s, nil
}

// resp is a response.
type resp struct {
	code int
	raw  []byte
	js   any
	hd   http.Header
}

type rw struct {
	hd   http.Header
	code int
	b    bytes.Buffer
}

func (w *rw) Header() http.Header { return w.hd }
func (w *rw) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *rw) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	return w.b.Write(b)
}

// req is one request.
type req struct {
	method, path, body string
	ctype              string
}

func (q req) String() string {
	s := q.method + " " + q.path
	if q.body != "" {
		b := q.body
		if len(b) > 200 {
			b = b[:200] + "..."
		}
		s += " " + b
	}
	return s
}

// do sends a request to the server.
func (s *srv) do(q req) (*resp, error) {
	u, err := url.Parse("http://x" + q.path)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	hr := (&http.Request{Method: q.method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "x", RemoteAddr: "127.0.0.1:1", RequestURI: q.path}).WithContext(ctx)
	hr.Body = http.NoBody
	if q.body != "" {
		hr.Body = io.NopCloser(strings.NewReader(q.body))
		hr.ContentLength = int64(len(q.body))
		ct := q.ctype
		if ct == "" {
			ct = "application/json"
		}
		hr.Header.Set("Content-Type", ct)
	}
	hr.Header.Set("Accept", "application/json")
	if s.token != "" {
		hr.Header.Set("Authorization", s.token)
	}
	w := &rw{hd: http.Header{}}
	s.h.ServeHTTP(w, hr)
	r := &resp{code: w.code, raw: w.b.Bytes(), hd: w.hd}
	if len(r.raw) > 0 && r.raw[0] != 'P' {
		d := json.NewDecoder(bytes.NewReader(r.raw))
		d.UseNumber()
		if err := d.Decode(&r.js); err != nil && !strings.HasPrefix(w.hd.Get("Content-Type"), "application/octet") {
			r.js = nil
		}
	}
	return r, nil
}

// norm brings decoded JSON in a comparable form: empty values are dropped,
// times are in seconds.
func norm(v any) any {
	switch v := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, x := range v {
			if k == "updated_at" {
				if s, ok := x.(string); ok {
					if t, err := time.Parse(time.RFC3339Nano, s); err == nil {
						r[k] = fmt.Sprint(t.Unix())
						continue
					}
				}
			}
			if mm, ok := x.(map[string]any); ok && k == "success" {
				// Empty results of a list are results.
				rr := map[string]any{}
				for id, y := range mm {
					rr[id] = fmt.Sprint(norm(y) == nil)
					if n := norm(y); n != nil {
						rr[id] = n
					}
				}
				if len(rr) > 0 {
					r[k] = rr
				}
				continue
			}
			if n := norm(x); n != nil {
				r[k] = n
			}
		}
		if len(r) == 0 {
			return nil
		}
		return r
	case []any:
		if len(v) == 0 {
			return nil
		}
		r := make([]any, len(v))
		for i := range v {
			r[i] = norm(v[i])
		}
		return r
	case json.Number:
		return v.String()
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1e15 {
			return fmt.Sprint(int64(v))
		}
		return fmt.Sprint(v)
	case int, int64, uint64, uint32, uint:
		return fmt.Sprint(v)
	}
	return v
}

func same(got, want any) bool { return reflect.DeepEqual(norm(got), norm(want)) }

func js(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// repoDir is where the sources are.
func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func keyDir() string { return filepath.Join(repoDir(), "api", "jwtkey") }

func decode(b []byte) (v any) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil
	}
	return v
}

// reload stores the directory and starts again from the store.
func (s *srv) reload() error {
	if err := s.db.SaveLists(bg, false); err != nil {
		return err
	}
	s.cache = h.NewCache(1000)
	m, err := rankdb.NewManager(s.st, dset)
	if err != nil {
		return err
	}
	if err := m.LoadLists(bg, s.cache); err != nil {
		return err
	}
	s.db = m
	api.ZZServe(bg, m, s.cache, nil)
	return nil
}
