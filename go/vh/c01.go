//go:build go1.21

package main

import (
	"fmt"
	"math"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
)

// checkContent compares the complete content of the list with the model.
func checkContent(in *inst) error {
	want := in.m.sorted()
	n, err := in.l.Len(bg, in.st)
	if err != nil {
		return fmt.Errorf("Len: %v", err)
	}
	if n != len(want) {
		return fmt.Errorf("Len = %d, want %d (%s)", n, len(want), ess(want))
	}
	got, err := in.l.GetRankTop(bg, in.st, 0, len(want)+3)
	if err == rankdb.ErrOffsetOutOfBounds && len(want) == 0 {
		err = nil
	}
	if err != nil {
		return fmt.Errorf("GetRankTop: %v", err)
	}
	if err := sameElems(got, want); err != nil {
		return fmt.Errorf("list content: %v", err)
	}
	return nil
}

func checkByID(in *inst, universe []rankdb.ElementID) error {
	got, err := in.l.GetElements(bg, in.st, append([]rankdb.ElementID{}, universe...), 0)
	if err != nil {
		return fmt.Errorf("GetElements: %v", err)
	}
	seen := map[rankdb.ElementID]bool{}
	for _, g := range got {
		w, ok := in.m.m[g.ID]
		if !ok {
			return fmt.Errorf("GetElements returned %s, which is not in the list", es(g.Element))
		}
		if seen[g.ID] {
			return fmt.Errorf("GetElements returned element %d twice", g.ID)
		}
		seen[g.ID] = true
		if !eqElem(g.Element, w) {
			return fmt.Errorf("GetElements returned %s, want %s", es(g.Element), es(w))
		}
	}
	for _, id := range universe {
		if _, ok := in.m.m[id]; ok && !seen[id] {
			return fmt.Errorf("GetElements did not find element %d", id)
		}
	}
	return nil
}

var ids8 = []rankdb.ElementID{0, 1, 2, 3, 4, 5, 6, 7, math.MaxUint64}

func c01(c *h.Ctx) {
	for _, w := range contentWorlds(c) {
		w.check = func(in *inst, c *h.Ctx) error {
			if err := checkContent(in); err != nil {
				return err
			}
			return checkByID(in, ids8)
		}
		w.explore(c)
		if c.Stopped() {
			return
		}
	}
	bulk(c)
}

// contentWorlds are small closed worlds of mutating operations.
func contentWorlds(c *h.Ctx) []*world {
	const top = math.MaxUint64
	six := []rankdb.Element{el(1, 60, 0, 1), el(2, 50, 0, 1), el(3, 40, 1, 1), el(4, 40, 0, 1), el(5, 20, 0, 1), el(6, 10, 0, 1)}
	ops := []op{
		opUpdate(el(1, 10, 0, 2)),
		opUpdate(el(1, 40, 0, 2)),
		opUpdate(el(2, top, 0, 2)),
		opUpdate(el(3, 0, 0, 2)),
		opUpdate(el(4, 40, 1, 1)),
		opUpdate(el(7, 40, 0, 1)),
		opUpdate(el(1, 50, 0, 3), el(6, 50, 0, 3), el(7, 5, 0, 3)),
		opUpdate(el(5, 60, 0, 1), el(2, 20, math.MaxUint32, 4)),
		opInsert(el(0, 40, 0, 2)),
		opInsert(el(math.MaxUint64, 55, 0, 2), el(0, 15, 0, 2)),
		opInsert(el(7, 25, 0, 1), el(1, 65, 0, 1), el(3, 41, 0, 5)),
		opDelete(1),
		opDelete(3, 4),
		opDelete(2, 5, 6, 7),
		opDelete(0, math.MaxUint64, 99),
		opSplit,
		opReload,
	}
	mk := func(name string, merge, split, cache, pol, depth int) *world {
		return &world{name: name, merge: merge, split: split, cache: cache, pol: pol, depth: depth, ops: ops,
			init: []op{initNew(), initNew(six...), initBuilt("new+insert6+split", initNew(), opInsert(six...), opSplit)}}
	}
	d := h.Pick(c, 4, 5)
	ws := []*world{
		mk("A", 2, 4, -1, 0, d+1),
		mk("B", 2, 5, 0, 1, d-1),
		mk("C", 3, 4, 2, 3, d-1),
		mk("D", 1, 2, -1, 2, d-1),
		mk("E", 0, 1, 3, 0, d-1),
	}
	return append(ws, tieWorld(c), bigWorld(c))
}

// tieWorld: elements that share scores and tie-breakers, at and around segment borders.
func tieWorld(c *h.Ctx) *world {
	const tt = math.MaxUint32
	ops := []op{
		opUpdate(el(10, 29, 7, 1)),
		opUpdate(el(10, 30, tt, 1)),
		opUpdate(el(10, 30, 0, 2), el(2, 30, 0, 3)),
		opUpdate(el(11, 31, 0, 1), el(3, 31, tt, 1)),
		opUpdate(el(1, 30, 0, 1), el(3, 30, 0, 1), el(4, 30, 0, 1)),
		opUpdate(el(2, 30, 1, 1), el(5, 20, tt, 9)),
		opUpdate(el(4, 0, 0, 1), el(6, 0, 0, 8)),
		opInsert(el(12, 20, 3, 2), el(13, 19, tt, 2), el(14, 20, 2, 9)),
		opInsert(el(15, 9, 9, 2), el(16, 0, 0, 5)),
		opDelete(2, 5),
		opDelete(1, 3, 4, 6),
		opDelete(10, 11, 12, 13, 14, 15, 16),
		opSplit,
		opReload,
	}
	spread := []rankdb.Element{el(1, 40, 0, 1), el(2, 30, 0, 1), el(3, 20, 0, 1), el(4, 10, 0, 1)}
	ties := []rankdb.Element{el(1, 30, 3, 1), el(2, 30, 2, 1), el(3, 30, 1, 1), el(4, 30, 0, 1), el(5, 20, 2, 1), el(6, 20, 1, 1)}
	flat := []rankdb.Element{el(1, 0, 0, 3), el(2, 0, 0, 1), el(3, 0, 0, 1), el(4, 0, tt, 1), el(5, math.MaxUint64, tt, 1), el(6, math.MaxUint64, tt, 4)}
	return &world{name: "T", merge: 1, split: 3, cache: -1, pol: 0, depth: h.Pick(c, 3, 5), ops: ops,
		init: []op{initNew(spread...), initNew(ties...), initNew(flat...), initBuilt("new+insert ties+split", initNew(), opInsert(ties...), opSplit)}}
}

// bigWorld: lists and batches large enough to select the algorithms for larger sizes.
func bigWorld(c *h.Ctx) *world {
	var base, odd, all []rankdb.Element
	for i := 1; i <= 40; i++ {
		e := el(uint64(i), uint64(i*37%41)*10, uint32(i%3), uint32(1+i%2))
		all = append(all, e)
		if i <= 24 {
			base = append(base, e)
		} else {
			odd = append(odd, e)
		}
	}
	var move, ids = []rankdb.Element{}, []rankdb.ElementID{}
	for i := 1; i <= 40; i += 3 {
		move = append(move, el(uint64(i), uint64(i*29%41)*10+5, 0, 3))
		ids = append(ids, rankdb.ElementID(i))
	}
	ops := []op{
		opUpdate(move...),
		opUpdate(base...),
		opUpdate(odd[2:]...),
		opInsert(odd...),
		opInsert(odd[:12]...),
		opUpdate(el(2, 205, 0, 4), el(40, 205, 0, 4)),
		opDelete(ids...),
		opDelete(2, 5, 8, 11, 14, 17, 20, 23, 3, 6, 9, 12, 26, 29, 32, 35),
		opPopulate(all...),
		opPopulate(),
		opSplit,
		opReload,
	}
	return &world{name: "big", merge: 6, split: 12, cache: 2, pol: 1, depth: h.Pick(c, 3, 5), ops: ops,
		init: []op{initNew(base...), initBuilt("new+insert+split+split", initNew(), opInsert(all...), opSplit, opSplit)}}
}

