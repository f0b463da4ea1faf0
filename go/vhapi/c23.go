//go:build go1.21

package main

import (
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
	jwt "github.com/dgrijalva/jwt-go"
)

// endpoint is a request with the access it needs.
type endpoint struct {
	q     req
	scope string
	// lists and elems are named by the request; restrictions apply to them.
	lists []string
	elems []uint64
	// body of the response is not compared.
	random bool
	// job: the request needs the ID of a backup job.
	job bool
}

const secret = "s3cret"

func (s *srv) fill23() error {
	e := func(id, score uint64) elem { return elem{id: id, score: score, payload: `{"v":"` + secret + `"}`} }
	m := newModel()
	for _, q := range []areq{
		qNewList(&alist{id: "aa", set: "set1", merge: 500, split: 2000, meta: map[string]string{"game": "1", "c": "dk"}}, false, e(1, 10), e(2, 20), e(3, 30)),
		qNewList(&alist{id: "bb", set: "set1", merge: 500, split: 2000, meta: map[string]string{"game": "2", "c": "dk"}}, false, e(1, 50), e(2, 10)),
		qNewList(&alist{id: "cc", set: "set2", merge: 500, split: 2000}, false, e(2, 5)),
	} {
		vsched.Advance(time.Second)
		if err := s.run(m, &q); err != nil {
			return err
		}
	}
	vsched.Advance(time.Second)
	return nil
}

func endpoints() []endpoint {
	el := func(id uint64) any { return obj{"id": id, "score": 77, "payload": obj{"n": "new"}} }
	r := func(method, path string, body any) req {
		q := req{method: method, path: path}
		if body != nil {
			q.body = js(body)
		}
		return q
	}
	ls := func(l ...string) []string { return l }
	es := func(e ...uint64) []uint64 { return append([]uint64{}, e...) }
	const rd, up, de, ma = "api:read", "api:update", "api:delete", "api:manage"
	return []endpoint{
		{q: r("GET", "/health", nil), scope: ma, random: true},
		{q: r("GET", "/", nil), scope: ma, random: true},
		{q: r("POST", "/jwt?scope=api:read", nil), scope: ma, random: true},
		{q: r("GET", "/backup/", nil), scope: ma, random: true, job: true},
		{q: r("DELETE", "/backup/", nil), scope: ma, random: true, job: true},
		{q: r("GET", "/backup/nojob", nil), scope: ma},
		{q: r("DELETE", "/backup/nojob", nil), scope: ma},
		// Elements.
		{q: r("POST", "/lists/aa/elements", el(7)), scope: up, lists: ls("aa"), elems: es(7)},
		{q: r("POST", "/lists/aa/elements", el(1)), scope: up, lists: ls("aa"), elems: es(1)},
		{q: r("POST", "/lists/zz/elements", el(1)), scope: up, lists: ls("zz")},
		{q: r("PUT", "/lists/aa/elements/1", el(1)), scope: up, lists: ls("aa"), elems: es(1)},
		{q: r("PUT", "/lists/bb/elements/3?range=1", el(3)), scope: up, lists: ls("bb"), elems: es(3)},
		{q: r("PUT", "/lists/aa/elements?results=true", []any{el(2), el(1), el(7)}), scope: up, lists: ls("aa"), elems: es(1, 2, 7)},
		{q: r("PUT", "/lists/aa/elements", []any{el(2), el(1)}), scope: up, lists: ls("aa"), elems: es(1, 2)},
		{q: r("PUT", "/lists/aa/elements?results=true", []any{el(1), el(7), el(2)}), scope: up, lists: ls("aa"), elems: es(1, 2, 7)},
		{q: r("PUT", "/lists/aa/elements?results=true", []any{el(7), el(1), el(7)}), scope: up, lists: ls("aa"), elems: es(1, 7)},
		{q: r("PUT", "/lists/aa/elements", []any{el(2), el(2)}), scope: up, lists: ls("aa"), elems: es(2)},
		{q: r("POST", "/lists/aa/elements", el(1<<32+1)), scope: up, lists: ls("aa"), elems: es(1<<32 + 1)},
		{q: r("PUT", "/lists/aa/elements/4294967297", el(1<<32+1)), scope: up, lists: ls("aa"), elems: es(1<<32 + 1)},
		{q: r("PUT", "/lists/aa/elements", []any{el(math.MaxUint64), el(1)}), scope: up, lists: ls("aa"), elems: es(1, math.MaxUint64)},
		{q: r("DELETE", "/lists/aa/elements/18446744073709551615", nil), scope: de, lists: ls("aa"), elems: es(math.MaxUint64)},
		{q: r("DELETE", "/lists/aa/elements?element_ids=4294967298&element_ids=1&element_ids=4294967298", nil), scope: de, lists: ls("aa"), elems: es(1, 1<<32+2)},
		{q: r("POST", "/lists/aa/elements/find", obj{"element_ids": es(1, 1<<32+2, 1)}), scope: rd, lists: ls("aa"), elems: es(1, 1<<32+2)},
		{q: r("POST", "/lists/aa/elements/1/around", obj{"element_ids": es(2, 2, 1)}), scope: rd, lists: ls("aa"), elems: es(1, 2)},
		{q: r("DELETE", "/lists/aa/elements/1", nil), scope: de, lists: ls("aa"), elems: es(1)},
		{q: r("DELETE", "/lists/bb/elements/1", nil), scope: de, lists: ls("bb"), elems: es(1)},
		{q: r("DELETE", "/lists/aa/elements?element_ids=1&element_ids=2", nil), scope: de, lists: ls("aa"), elems: es(1, 2)},
		{q: r("DELETE", "/lists/aa/elements?element_ids=1&element_ids=7", nil), scope: de, lists: ls("aa"), elems: es(1, 7)},
		{q: r("GET", "/lists/aa/elements/1", nil), scope: rd, lists: ls("aa"), elems: es(1)},
		{q: r("GET", "/lists/aa/elements/7", nil), scope: rd, lists: ls("aa"), elems: es(7)},
		{q: r("GET", "/lists/bb/elements/2?range=0", nil), scope: rd, lists: ls("bb"), elems: es(2)},
		{q: r("POST", "/lists/aa/elements/find", obj{"element_ids": es(1, 2)}), scope: rd, lists: ls("aa"), elems: es(1, 2)},
		{q: r("POST", "/lists/aa/elements/find", obj{"element_ids": es(7)}), scope: rd, lists: ls("aa"), elems: es(7)},
		{q: r("POST", "/lists/aa/elements/1/around", obj{"element_ids": es(2, 3)}), scope: rd, lists: ls("aa"), elems: es(1, 2, 3)},
		{q: r("POST", "/lists/aa/elements/2/around", obj{"element_ids": es(1)}), scope: rd, lists: ls("aa"), elems: es(1, 2)},
		{q: r("POST", "/lists/aa/elements/1/around", obj{"element_ids": es()}), scope: rd, lists: ls("aa"), elems: es(1)},
		// Lists.
		{q: r("POST", "/lists", obj{"id": "dd", "set": "set1", "populate": []any{el(1)}}), scope: ma},
		{q: r("POST", "/lists?replace=true", obj{"id": "aa", "set": "set1", "populate": []any{el(1)}}), scope: ma},
		{q: r("POST", "/lists", obj{"id": "aa", "set": "set1"}), scope: ma},
		{q: r("PUT", "/lists/aa/clone", obj{"id": "dd", "set": "set1"}), scope: ma},
		{q: r("DELETE", "/lists/aa", nil), scope: ma},
		{q: r("DELETE", "/lists/zz", nil), scope: ma},
		{q: r("GET", "/lists", nil), scope: ma},
		{q: r("GET", "/lists?after_id=aa&limit=1", nil), scope: ma},
		{q: r("PUT", "/lists/aa/reindex", nil), scope: ma},
		{q: r("PUT", "/lists/aa/repair?clear=true", nil), scope: ma},
		{q: r("PUT", "/lists/aa/verify?repair=true", nil), scope: ma},
		{q: r("GET", "/lists/aa", nil), scope: rd, lists: ls("aa")},
		{q: r("GET", "/lists/bb?top_bottom=true", nil), scope: rd, lists: ls("bb")},
		{q: r("GET", "/lists/zz", nil), scope: rd, lists: ls("zz")},
		{q: r("GET", "/lists/aa/percentile?from_top=50", nil), scope: rd, lists: ls("aa")},
		{q: r("GET", "/lists/aa/range?from_top=0", nil), scope: rd, lists: ls("aa")},
		{q: r("GET", "/lists/bb/range?from_bottom=0&limit=1", nil), scope: rd, lists: ls("bb")},
		// Multiple lists.
		{q: r("POST", "/xlist/elements?results=true", obj{"lists": ls("aa", "bb"), "payload": []any{el(7), el(8)}}), scope: up, lists: ls("aa", "bb"), elems: es(7, 8)},
		{q: r("POST", "/xlist/elements", obj{"lists": ls("aa"), "match_metadata": obj{"game": "2"}, "payload": []any{el(7)}}), scope: up, lists: ls("aa", "bb"), elems: es(7)},
		{q: r("PUT", "/xlist/elements?results=true", obj{"lists": ls("aa"), "payload": []any{el(1)}}), scope: up, lists: ls("aa"), elems: es(1)},
		{q: r("PUT", "/xlist/elements", obj{"match_metadata": obj{"c": "dk"}, "payload": []any{el(1), el(2)}}), scope: up, lists: ls("aa", "bb"), elems: es(1, 2)},
		{q: r("PUT", "/xlist/elements", obj{"all_in_sets": ls("set1"), "payload": []any{el(1)}}), scope: up, lists: ls("aa", "bb"), elems: es(1)},
		{q: r("PUT", "/xlist/elements?results=true", obj{"lists": ls("aa", "aa", "bb"), "payload": []any{el(1), el(7), el(1)}}), scope: up, lists: ls("aa", "bb"), elems: es(1, 7)},
		{q: r("POST", "/xlist/elements?results=true", obj{"lists": ls("bb"), "payload": []any{el(1<<32 + 1), el(8), el(8)}}), scope: up, lists: ls("bb"), elems: es(8, 1<<32+1)},
		{q: r("DELETE", "/xlist/elements/4294967297?lists=aa", nil), scope: de, lists: ls("aa"), elems: es(1<<32 + 1)},
		{q: r("GET", "/xlist/elements/4294967297?lists=aa", nil), scope: rd, lists: ls("aa"), elems: es(1<<32 + 1)},
		{q: r("DELETE", "/xlist/elements/1?lists=aa", nil), scope: de, lists: ls("aa"), elems: es(1)},
		{q: r("DELETE", "/xlist/elements/1?lists=aa&all_in_sets=set1", nil), scope: de, lists: ls("aa", "bb"), elems: es(1)},
		{q: r("DELETE", "/xlist/elements/2?match_metadata="+url.QueryEscape(`{"game":"2"}`), nil), scope: de, lists: ls("bb"), elems: es(2)},
		{q: r("GET", "/xlist/elements/1?lists=aa", nil), scope: rd, lists: ls("aa"), elems: es(1)},
		{q: r("GET", "/xlist/elements/1?lists=aa&lists=bb", nil), scope: rd, lists: ls("aa", "bb"), elems: es(1)},
		{q: r("GET", "/xlist/elements/2?all_in_sets=set1", nil), scope: rd, lists: ls("aa", "bb"), elems: es(2)},
		{q: r("GET", "/xlist/elements/2?match_metadata="+url.QueryEscape(`{"game":"1"}`), nil), scope: rd, lists: ls("aa"), elems: es(2)},
		{q: r("PUT", "/xlist/reindex", obj{"lists": ls("aa", "bb")}), scope: ma},
		{q: r("PUT", "/xlist/verify?elements=true", obj{}), scope: ma},
		{q: r("PUT", "/xlist/verify?elements=true&repair=true", obj{"lists": ls("aa")}), scope: ma},
		{q: r("PUT", "/xlist/backup", obj{"lists": obj{"lists": ls("aa", "bb")}, "destination": obj{"type": "download"}}), scope: ma, random: true},
		{q: req{method: "POST", path: "/xlist/restore", body: "BACKUP", ctype: "application/octet-stream"}, scope: ma, random: true},
		{q: req{method: "POST", path: "/xlist/restore?list_id_prefix=new", body: "BACKUP", ctype: "application/octet-stream"}, scope: ma, random: true},
	}
}

// dump is the observable content of the server.
func (s *srv) dump() (string, error) {
	var b strings.Builder
	all := s.db.Lists.All()
	ids := make(map[string]bool)
	for _, id := range all {
		ids[string(id)] = true
	}
	for _, id := range h.SortedKeys(ids) {
		l, _ := s.db.Lists.ByID(rankdb.ListID(id))
		fmt.Fprintf(&b, "%s %s %d %d %v %v:", l.ID, l.Set, l.SplitSize, l.MergeSize, l.LoadIndex, l.Metadata)
		n, err := l.Len(bg, s.st)
		if err != nil {
			return "", err
		}
		if n > 0 {
			es, err := l.GetRankTop(bg, s.st, 0, n+1)
			if err != nil {
				return "", err
			}
			for _, e := range es {
				fmt.Fprintf(&b, " {%d %d %d %d %s}", e.ID, e.Score, e.TieBreaker, e.Updated, e.Payload)
			}
		}
		b.WriteString("\n")
	}
	return b.String(), nil
}

// prepare builds the server of the check; backup is what was saved of it.
func prepare(hd int) (s *srv, backup string, job string, err error) {
	s, err = newSrv(handlers[hd], h.NewCache(100), 0)
	if err != nil {
		return
	}
	// The content is created without security.
	s.h = handlers[0]
	if err = s.fill23(); err != nil {
		return
	}
	r, err := s.do(req{method: "PUT", path: "/xlist/backup", body: js(obj{"lists": obj{"lists": []string{"aa", "bb"}}, "destination": obj{"type": "download"}})})
	if err != nil {
		return
	}
	if r.code != 200 || len(r.raw) == 0 {
		err = fmt.Errorf("backup: status %d", r.code)
		return
	}
	backup = string(r.raw)
	job = r.hd.Get("X-Backup-ID")
	s.h = handlers[hd]
	return
}

type outcome struct {
	code int
	body any
	dump string
}

func fire(s *srv, e *endpoint, backup, job string) (outcome, *resp, error) {
	q := e.q
	if q.body == "BACKUP" {
		q.body = backup
	}
	if e.job {
		q.path += job
	}
	r, err := s.do(q)
	if err != nil {
		return outcome{}, nil, err
	}
	d, err := s.dump()
	o := outcome{code: r.code, dump: d}
	if !e.random {
		o.body = norm(r.js)
		if m, ok := r.js.(map[string]any); ok && r.code >= 400 {
			// Error IDs are random.
			o.body = m["code"]
		} else if ok {
			for _, k := range []string{"cache_hits", "cache_misses", "cache_percent"} {
				delete(m, k)
			}
			o.body = norm(m)
		}
	}
	return o, r, err
}

// claims of a token.
type claims struct {
	scopes []string
	// form: 0 "scope" string, 1 "scopes" string, 2 "scope" array, 3 "scopes" array.
	form         int
	lists, elems *string
}

func (c claims) String() string {
	s := fmt.Sprintf("scopes %v (form %d)", c.scopes, c.form)
	if c.lists != nil {
		s += fmt.Sprintf(" only_lists %q", *c.lists)
	}
	if c.elems != nil {
		s += fmt.Sprintf(" only_elements %q", *c.elems)
	}
	return s
}

func (c claims) claims() jwt.MapClaims {
	m := jwt.MapClaims{}
	key := []string{"scope", "scopes"}[c.form&1]
	if c.form < 2 {
		m[key] = strings.Join(c.scopes, " ")
	} else {
		m[key] = append([]string{}, c.scopes...)
	}
	if c.lists != nil {
		m["only_lists"] = *c.lists
	}
	if c.elems != nil {
		m["only_elements"] = *c.elems
	}
	return m
}

func has(only *string, v string) bool {
	if only == nil {
		return true
	}
	for _, s := range strings.Split(*only, ",") {
		if strings.TrimSpace(s) == v {
			return true
		}
	}
	return false
}

// allows is the documented rule.
func (c claims) allows(e *endpoint) bool {
	ok := false
	for _, s := range c.scopes {
		ok = ok || s == e.scope
	}
	if !ok {
		return false
	}
	for _, l := range e.lists {
		if !has(c.lists, l) {
			return false
		}
	}
	for _, id := range e.elems {
		if !has(c.elems, fmt.Sprint(id)) {
			return false
		}
	}
	return true
}

func mustKey(pem string) *rsa.PrivateKey {
	b, err := os.ReadFile(filepath.Join(keyDir(), pem))
	if err != nil {
		panic(err)
	}
	k, err := jwt.ParseRSAPrivateKeyFromPEM(b)
	if err != nil {
		panic(err)
	}
	return k
}

func signed(m jwt.SigningMethod, key any, c jwt.MapClaims) string {
	t := jwt.New(m)
	t.Claims = c
	s, err := t.SignedString(key)
	if err != nil {
		panic(err)
	}
	return s
}

func c23(c *h.Ctx) {
	boot("", false)
	boot(keyDir(), true)
	eps := endpoints()
	// The outcome of every request without security.
	base := make([]outcome, len(eps))
	for i := range eps {
		e := &eps[i]
		c.Begin(func() string { return "without security: " + e.q.String() })
		err := h.Seq(0, func() error {
			s, backup, job, err := prepare(0)
			if err != nil {
				return err
			}
			var r *resp
			if base[i], r, err = fire(s, e, backup, job); err != nil {
				return err
			}
			known := r.code >= 200 && r.code < 300 || strings.Contains(e.q.path, "zz") && r.code == 404 || strings.Contains(e.q.path, "nojob") && r.code == 404 ||
				strings.HasSuffix(e.q.path, "/7") && r.code == 404 || r.code == 409 && e.q.method == "POST" || r.code == 401 && strings.HasPrefix(e.q.path, "/jwt")
			if !known {
				return fmt.Errorf("status %d: %.300s", r.code, r.raw)
			}
			return nil
		})
		if err != nil {
			c.Violate(e.q.String(), e.q.String(), "without security: %s: %v", e.q, err)
			if c.Stopped() {
				return
			}
		}
	}
	key := mustKey("jwt.key")
	n := 0
	mine := func() bool { n++; return (n-1)%c.NShards == c.Shard }
	// check sends the requests with the token; the server is built again
	// when a request changed it.
	check := func(desc string, header string, allows func(e *endpoint) bool, sel func(i int) bool) bool {
		for i := 0; i < len(eps); {
			next := i
			err := h.Seq(0, func() error {
				s, backup, job, err := prepare(1)
				if err != nil {
					return err
				}
				before, err := s.dump()
				if err != nil {
					return err
				}
				writes := len(s.st.Mutations())
				s.token = header
				for i := i; i < len(eps); i++ {
					next = i
					if !sel(i) {
						continue
					}
					e := &eps[i]
					c.Begin(func() string { return desc + ": " + e.q.String() })
					got, r, err := fire(s, e, backup, job)
					if err != nil {
						return err
					}
					c.Trace(1)
					c.Trans(1)
					if allows(e) {
						c.Count("granted", 1)
						if e.q.path == "/jwt?scope=api:read" && base[i].code == 401 {
							base[i] = outcome{code: 200, dump: before}
						}
						if got.code != base[i].code || js(got.body) != js(base[i].body) || got.dump != base[i].dump {
							return fmt.Errorf("granted: status %d (%.300s), content %q; without security status %d (%s), content %q", got.code, r.raw, got.dump, base[i].code, js(base[i].body), base[i].dump)
						}
						// The rest of a server that changed.
						if len(s.st.Mutations()) != writes || got.dump != before {
							return nil
						}
						continue
					}
					c.Count("refused", 1)
					if got.code != 401 {
						return fmt.Errorf("not refused: status %d: %.300s", got.code, r.raw)
					}
					if strings.Contains(string(r.raw), secret) {
						return fmt.Errorf("refused, but the response has content: %.300s", r.raw)
					}
					if got.dump != before || len(s.st.Mutations()) != writes {
						return fmt.Errorf("refused, but changed the content from %q to %q", before, got.dump)
					}
				}
				return nil
			})
			if err != nil {
				d := desc + ": " + eps[next].q.String()
				c.Violate(d, d, "%s: %v", d, err)
				if c.Stopped() {
					return false
				}
			}
			i = next + 1
		}
		return !c.Expired()
	}
	all := func(int) bool { return true }
	scopes := []string{"api:read", "api:update", "api:delete", "api:manage"}
	full := claims{scopes: scopes}
	future := func(d time.Duration) int64 { return base0.Add(d).Unix() }
	other, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		c.Errorf("%v", err)
		return
	}
	pub, err := os.ReadFile(filepath.Join(keyDir(), "jwt.key.pub"))
	if err != nil {
		c.Errorf("%v", err)
		return
	}
	with := func(k string, v any) jwt.MapClaims { m := full.claims(); m[k] = v; return m }
	good := signed(jwt.SigningMethodRS512, key, full.claims())
	parts := strings.Split(good, ".")
	weak := signed(jwt.SigningMethodRS512, key, claims{scopes: []string{"api:read"}}.claims())
	bad := []struct{ name, header string }{
		{"no token", ""},
		{"empty bearer", "Bearer "},
		{"garbage", "Bearer garbage"},
		{"no scheme", good},
		{"basic", "Basic " + good},
		{"other key", "Bearer " + signed(jwt.SigningMethodRS512, other, full.claims())},
		{"not signed", "Bearer " + signed(jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType, full.claims())},
		{"public key as HMAC secret", "Bearer " + signed(jwt.SigningMethodHS256, pub, full.claims())},
		{"RSA-PSS", "Bearer " + signed(jwt.SigningMethodPS512, key, full.claims())},
		{"signature removed", "Bearer " + parts[0] + "." + parts[1] + "."},
		{"claims replaced", "Bearer " + strings.Split(weak, ".")[0] + "." + parts[1] + "." + strings.Split(weak, ".")[2]},
		{"expired", "Bearer " + signed(jwt.SigningMethodRS512, key, with("exp", future(-time.Second)))},
		{"not yet valid", "Bearer " + signed(jwt.SigningMethodRS512, key, with("nbf", future(24*time.Hour)))},
		{"scopes of a wrong type", "Bearer " + signed(jwt.SigningMethodRS512, key, jwt.MapClaims{"scope": 7})},
	}
	for _, b := range bad {
		if mine() && !check("token: "+b.name, b.header, func(*endpoint) bool { return false }, all) {
			return
		}
	}
	for _, b := range []struct{ name, header string }{
		{"RS256", "Bearer " + signed(jwt.SigningMethodRS256, key, full.claims())},
		{"RS384", "Bearer " + signed(jwt.SigningMethodRS384, key, full.claims())},
		{"lower case scheme", "bearer " + good},
		{"valid period", "Bearer " + signed(jwt.SigningMethodRS512, key, jwt.MapClaims{"scope": strings.Join(scopes, " "), "nbf": future(-time.Hour), "iat": future(-time.Hour), "exp": future(24 * time.Hour)})},
	} {
		if mine() && !check("token: "+b.name, b.header, func(*endpoint) bool { return true }, all) {
			return
		}
	}
	c.Bound("invalid tokens", len(bad))
	// Tokens from the server.
	if mine() && !issued(c) {
		return
	}
	// Every scope set, form and restriction.
	str := func(s ...string) (r []*string) {
		r = append(r, nil)
		for i := range s {
			r = append(r, &s[i])
		}
		return
	}
	lists := str("aa", "bb", "aa,bb", " bb , aa ", "", "zz", "aa,aa", "a", "aabb")
	elems := str("1", "1,2", " 2 ,1", "7", "", "12", "1,x", "1,2,3,7,8", "3,8,7,2", "1,2,7,8,4294967297,4294967298,18446744073709551615")
	forms := 4
	for set := 0; set < 16; set++ {
		var sc []string
		for i, s := range scopes {
			if set>>i&1 != 0 {
				sc = append(sc, s)
			}
		}
		for form := 0; form < forms; form++ {
			for li, l := range lists {
				for ei, el := range elems {
					// Every pair of restrictions with every set of scopes in
					// one form; every form without restrictions.
					if c.Tier != "thorough" && form > 0 && (li > 1 || ei > 1) {
						continue
					}
					if !mine() {
						continue
					}
					cl := claims{scopes: sc, form: form, lists: l, elems: el}
					if !check(cl.String(), "Bearer "+signed(jwt.SigningMethodRS512, key, cl.claims()), cl.allows, all) {
						return
					}
					c.StateHash(h.Hash(cl.String()))
				}
			}
		}
	}
	// Almost a scope.
	for _, s := range []string{"api", "api:rea", "api:readx", "API:READ", "read", "api:*", "*", "api:read,api:update", "api:manager"} {
		cl := claims{scopes: []string{s}}
		if mine() && !check(cl.String(), "Bearer "+signed(jwt.SigningMethodRS512, key, cl.claims()), func(*endpoint) bool { return false }, all) {
			return
		}
	}
	c.Bound("endpoint requests", len(eps))
	c.Bound("scope sets", 16)
	c.Bound("list restrictions", len(lists))
	c.Bound("element restrictions", len(elems))
}

var base0 = func() (t time.Time) {
	h.Seq(0, func() error { t = vsched.Now(); return nil })
	return
}()

// issued checks that tokens of the server grant what was asked for.
func issued(c *h.Ctx) bool {
	key := mustKey("jwt.key")
	admin := "Bearer " + signed(jwt.SigningMethodRS512, key, jwt.MapClaims{"scope": "api:manage"})
	for _, scope := range []string{"", "api:read", "api:update", "api:read api:update", "api:manage"} {
		for _, lists := range []string{"", "aa", "bb,aa"} {
			for _, elems := range []string{"", "1", "2,1"} {
				for _, exp := range []int{0, 1, 10} {
					p := url.Values{}
					if scope != "" {
						p.Set("scope", scope)
					}
					cl := claims{scopes: strings.Fields(scope)}
					if scope == "" {
						cl.scopes = []string{"api:read"}
					}
					if lists != "" {
						p.Set("only_lists", lists)
						cl.lists = &lists
					}
					if elems != "" {
						p.Set("only_elements", elems)
						cl.elems = &elems
					}
					life := 24 * time.Hour
					if exp > 0 {
						p.Set("expire", fmt.Sprint(exp))
						life = time.Duration(exp) * time.Minute
					}
					q := req{method: "POST", path: "/jwt?" + p.Encode()}
					d := "issued by " + q.String()
					c.Begin(func() string { return d })
					err := h.Seq(0, func() error {
						s, _, _, err := prepare(1)
						if err != nil {
							return err
						}
						s.token = admin
						r, err := s.do(q)
						if err != nil {
							return err
						}
						if r.code != 200 || r.hd.Get("Authorization") != "Bearer "+string(r.raw) {
							return fmt.Errorf("status %d: %.100s", r.code, r.raw)
						}
						tok := "Bearer " + string(r.raw)
						probe := func(valid bool) error {
							for _, e := range []endpoint{
								{q: req{method: "GET", path: "/lists/aa/elements/1"}, scope: "api:read", lists: []string{"aa"}, elems: []uint64{1}},
								{q: req{method: "GET", path: "/lists/bb/elements/2"}, scope: "api:read", lists: []string{"bb"}, elems: []uint64{2}},
								{q: req{method: "PUT", path: "/lists/aa/elements/2", body: `{"id":2,"score":1}`}, scope: "api:update", lists: []string{"aa"}, elems: []uint64{2}},
								{q: req{method: "DELETE", path: "/lists/aa/elements/9"}, scope: "api:delete", lists: []string{"aa"}, elems: []uint64{9}},
								{q: req{method: "GET", path: "/lists"}, scope: "api:manage"},
							} {
								s.token = tok
								r, err := s.do(e.q)
								if err != nil {
									return err
								}
								want := valid && cl.allows(&e)
								if ok := r.code >= 200 && r.code < 300; ok != want || !ok && r.code != 401 {
									return fmt.Errorf("%s after %v: status %d, granted should be %v", e.q, vsched.Now().Sub(base0), r.code, want)
								}
								c.Trans(1)
							}
							return nil
						}
						if err := probe(true); err != nil {
							return err
						}
						vsched.Advance(life - 2*time.Second)
						if err := probe(true); err != nil {
							return err
						}
						vsched.Advance(4 * time.Second)
						return probe(false)
					})
					c.Trace(1)
					if err != nil {
						c.Violate(d, d, "%s: %v", d, err)
						if c.Stopped() {
							return false
						}
					}
				}
			}
		}
	}
	c.Bound("issued tokens", 5*3*3*3)
	return true
}
