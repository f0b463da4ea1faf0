//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/Vivino/rankdb"
)

// model is the reference: a set of elements by ID, ranked by sorting.
type model struct {
	m map[rankdb.ElementID]rankdb.Element
}

func newModel() *model { return &model{m: map[rankdb.ElementID]rankdb.Element{}} }

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.m {
		n.m[k] = v
	}
	return n
}

// above is the documented ranking order, written independently of the code under test.
func above(a, b rankdb.Element) bool {
	switch {
	case a.Score != b.Score:
		return a.Score > b.Score
	case a.TieBreaker != b.TieBreaker:
		return a.TieBreaker > b.TieBreaker
	case a.Updated != b.Updated:
		return a.Updated < b.Updated
	}
	return a.ID < b.ID
}

func (m *model) sorted() []rankdb.Element {
	r := make([]rankdb.Element, 0, len(m.m))
	for _, e := range m.m {
		r = append(r, e)
	}
	sort.Slice(r, func(i, j int) bool { return above(r[i], r[j]) })
	return r
}

func (m *model) put(es ...rankdb.Element) {
	for _, e := range es {
		m.m[e.ID] = e
	}
}

func (m *model) del(ids ...rankdb.ElementID) {
	for _, id := range ids {
		delete(m.m, id)
	}
}

func eqElem(a, b rankdb.Element) bool {
	return a.ID == b.ID && a.Score == b.Score && a.TieBreaker == b.TieBreaker && a.Updated == b.Updated && bytes.Equal(a.Payload, b.Payload)
}

func es(e rankdb.Element) string {
	s := fmt.Sprintf("{id:%d score:%d tie:%d upd:%d", e.ID, e.Score, e.TieBreaker, e.Updated)
	if len(e.Payload) > 0 {
		s += fmt.Sprintf(" payload:%q", e.Payload)
	}
	return s + "}"
}

func ess(l []rankdb.Element) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i, e := range l {
		if i > 40 {
			fmt.Fprintf(&sb, " ...%d more", len(l)-i)
			break
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(es(e))
	}
	sb.WriteByte(']')
	return sb.String()
}

func sameElems(got, want []rankdb.Element) error {
	if len(got) != len(want) {
		return fmt.Errorf("got %d elements %s, want %d %s", len(got), ess(got), len(want), ess(want))
	}
	for i := range got {
		if !eqElem(got[i], want[i]) {
			return fmt.Errorf("element %d differs: got %s, want %s\n got %s\nwant %s", i, es(got[i]), es(want[i]), ess(got), ess(want))
		}
	}
	return nil
}

func cloneElems(e []rankdb.Element) rankdb.Elements {
	r := make(rankdb.Elements, len(e))
	for i := range e {
		r[i] = e[i]
		if e[i].Payload != nil {
			r[i].Payload = append([]byte{}, e[i].Payload...)
		}
	}
	return r
}

func el(id uint64, score uint64, tie, upd uint32) rankdb.Element {
	return rankdb.Element{ID: rankdb.ElementID(id), Score: score, TieBreaker: tie, Updated: upd, Payload: []byte(fmt.Sprintf("p%d.%d.%d", id, score%1000, upd))}
}
