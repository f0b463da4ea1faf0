//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// elem is an element of the reference model.
type elem struct {
	id, score uint64
	tie       uint32
	upd       int64
	payload   string // JSON, "" if none
}

type alist struct {
	id, set      string
	meta         map[string]string
	merge, split int
	load         bool
	m            map[uint64]elem
}

// amodel is the documented state of a server.
type amodel struct {
	lists map[string]*alist
}

func newModel() *amodel { return &amodel{lists: map[string]*alist{}} }

func (a *alist) clone() *alist {
	n := *a
	n.m = map[uint64]elem{}
	for k, v := range a.m {
		n.m[k] = v
	}
	return &n
}

func (m *amodel) clone() *amodel {
	n := newModel()
	for k, v := range m.lists {
		n.lists[k] = v.clone()
	}
	return n
}

// ranked are the elements in rank order.
func (a *alist) ranked() []elem {
	r := make([]elem, 0, len(a.m))
	for _, e := range a.m {
		r = append(r, e)
	}
	sort.Slice(r, func(i, j int) bool {
		x, y := r[i], r[j]
		switch {
		case x.score != y.score:
			return x.score > y.score
		case x.tie != y.tie:
			return x.tie > y.tie
		case x.upd != y.upd:
			return x.upd < y.upd
		}
		return x.id < y.id
	})
	return r
}

func rankOf(s []elem, id uint64) int {
	for i := range s {
		if s[i].id == id {
			return i
		}
	}
	return -1
}

type obj = map[string]any

func payload(e elem) any {
	if e.payload == "" {
		return nil
	}
	return json.RawMessage(e.payload)
}

// dflt is the default view of the element with rank i.
func (a *alist) dflt(s []elem, i int) obj {
	e := s[i]
	return obj{"id": e.id, "score": e.score, "tie_breaker": e.tie, "payload": payload(e), "list_id": a.id,
		"from_top": i, "from_bottom": len(s) - 1 - i, "updated_at": e.upd}
}

func (a *alist) tiny(s []elem, i int) obj {
	e := s[i]
	return obj{"id": e.id, "score": e.score, "payload": payload(e), "from_top": i, "from_bottom": len(s) - 1 - i}
}

// full is the full view with n neighbours, which are in rank order.
func (a *alist) full(s []elem, i, n int) obj {
	o := a.dflt(s, i)
	var above, below []any
	for k := max(0, i-n); k < i; k++ {
		above = append(above, a.dflt(s, k))
	}
	for k := i + 1; k < len(s) && k <= i+n; k++ {
		below = append(below, a.dflt(s, k))
	}
	o["neighbors"] = obj{"above": above, "below": below}
	return o
}

func (a *alist) info() obj {
	return obj{"id": a.id, "set": a.set, "merge_size": a.merge, "split_size": a.split, "load_index": a.load, "metadata": a.meta}
}

func (a *alist) infoFull(topBottom bool) obj {
	o := a.info()
	s := a.ranked()
	o["elements"] = len(s)
	if topBottom && len(s) > 0 {
		o["top_element"] = a.dflt(s, 0)
		o["bottom_element"] = a.dflt(s, len(s)-1)
	}
	return o
}

// key is the canonical form of the model.
func (m *amodel) key() string {
	var o []any
	for _, id := range h.SortedKeys(m.lists) {
		l := m.lists[id]
		o = append(o, l.info())
		for _, e := range l.ranked() {
			o = append(o, fmt.Sprint(e))
		}
	}
	return js(o)
}

func now() int64 { return vsched.Now().Unix() }

// asJSON converts the expected value to the form a response is decoded to.
func asJSON(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return decode(b)
}

// checkLists compares the lists of the server with the model.
func (s *srv) checkLists(m *amodel) error {
	for id, a := range m.lists {
		l, ok := s.db.Lists.ByID(rankdb.ListID(id))
		if !ok {
			return fmt.Errorf("list %s is not in the directory", id)
		}
		if err := checkList(s, l, a); err != nil {
			return fmt.Errorf("list %s: %v", id, err)
		}
	}
	for _, id := range s.db.Lists.All() {
		if m.lists[string(id)] == nil {
			return fmt.Errorf("unexpected list %s in the directory", id)
		}
	}
	return nil
}

func checkList(s *srv, l *rankdb.List, a *alist) error {
	want := a.ranked()
	if l.Set != a.set || l.MergeSize != a.merge || l.SplitSize != a.split || l.LoadIndex != a.load || len(l.Metadata) != len(a.meta) {
		return fmt.Errorf("attributes are set=%s merge=%d split=%d load_index=%v metadata=%v, want %v", l.Set, l.MergeSize, l.SplitSize, l.LoadIndex, l.Metadata, a.info())
	}
	for k, v := range a.meta {
		if l.Metadata[k] != v {
			return fmt.Errorf("metadata is %v, want %v", l.Metadata, a.meta)
		}
	}
	n, err := l.Len(bg, s.db.Storage)
	if err != nil {
		return err
	}
	if n != len(want) {
		return fmt.Errorf("has %d elements, want %d", n, len(want))
	}
	if n > 0 {
		got, err := l.GetRankTop(bg, s.db.Storage, 0, n+1)
		if err != nil {
			return err
		}
		if len(got) != n {
			return fmt.Errorf("%d elements returned of %d", len(got), n)
		}
		for i, e := range got {
			w := want[i]
			p := string(e.Payload)
			if uint64(e.ID) != w.id || e.Score != w.score || e.TieBreaker != w.tie || int64(e.Updated) != w.upd || p != w.payload {
				return fmt.Errorf("element %d is {%d %d %d %d %s}, want %v", i, e.ID, e.Score, e.TieBreaker, e.Updated, p, w)
			}
		}
	}
	if err := l.Verify(bg, s.db.Storage); err != nil {
		return fmt.Errorf("verify: %v", err)
	}
	if err := l.VerifyElements(bg, s.db.Storage); err != nil {
		return fmt.Errorf("verify elements: %v", err)
	}
	return nil
}

func lid(id string) rankdb.ListID { return rankdb.ListID(id) }
