//go:build go1.21

package main

import (
	"fmt"
	"math"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/zz_verif/h"
)

// bulkShapes are the score patterns of a bulk populate.
var bulkShapes = []struct {
	name string
	e    func(i, n int) rankdb.Element
}{
	{"scrambled", func(i, n int) rankdb.Element {
		return el(uint64(i+1), uint64(i)*7919%1000003, uint32(i%3), 1)
	}},
	{"ascending", func(i, n int) rankdb.Element { return el(uint64(i+1), uint64(i), 0, 1) }},
	{"descending", func(i, n int) rankdb.Element { return el(uint64(i+1), uint64(n-i), 0, 1) }},
	{"tied", func(i, n int) rankdb.Element {
		return el(uint64(i)*0x9e3779b97f4a7c15, uint64(i*31%97), uint32(i*17%11), uint32(1+i%5))
	}},
	{"ends", func(i, n int) rankdb.Element {
		s := uint64(i*7%50) + 10
		switch i % 4 {
		case 0:
			s = 0
		case 1:
			s = math.MaxUint64
		}
		return el(uint64(i)<<20|uint64(i%7), s, uint32(i*13%29), 1)
	}},
	{"last first", func(i, n int) rankdb.Element {
		s := uint64(n-i) * 2
		if i == n-1 {
			s = uint64(n)*2 + 1
		}
		return el(uint64(i+1), s, 0, 1)
	}},
}

func bulkElems(shape, n int) []rankdb.Element {
	e := make([]rankdb.Element, n)
	for i := range e {
		e[i] = bulkShapes[shape].e(i, n)
		e[i].Payload = nil
	}
	return e
}

// bulk populates lists of sizes around the limit above which the population
// is done in rounds, and uses them afterwards.
func bulk(c *h.Ctx) {
	type size struct{ n, merge, split int }
	sizes := []size{{100000, 500, 2000}, {100001, 500, 2000}, {100777, 100, 3000}, {131072, 2000, 5000}}
	if !c.Quick() {
		sizes = append(sizes, size{99999, 500, 2000}, size{100002, 20, 1500}, size{150000, 500, 2000}, size{200001, 1000, 4000}, size{260000, 3000, 6000})
	}
	for si, s := range sizes {
		for sh := range bulkShapes {
			for _, rel := range []int{0, 1} {
				if !c.Mine() {
					continue
				}
				if c.Expired() {
					c.Bound("bulk", "cut off (time)")
					return
				}
				bulkCase(c, s.n, s.merge, s.split, sh, rel, si%2*2-1)
				if c.Stopped() {
					return
				}
			}
		}
	}
	c.Bound("bulk", "complete")
}

func bulkCase(c *h.Ctx, n, merge, split, shape, rel, cache int) {
	all := bulkElems(shape, n)
	var ids []rankdb.ElementID
	for i := 0; i < n; i += n / 9 {
		ids = append(ids, all[i].ID)
	}
	move := []rankdb.Element{
		el(uint64(all[1].ID), all[n/2].Score, all[n/2].TieBreaker, 2),
		el(uint64(all[n-1].ID), 0, 0, 2),
		el(uint64(all[n-2].ID), math.MaxUint64, math.MaxUint32, 2),
		el(1<<63+5, all[n/3].Score, 1, 2),
	}
	w := &world{name: "bulk " + bulkShapes[shape].name, merge: merge, split: split, cache: cache, maxSteps: 1 << 30,
		init: []op{{name: fmt.Sprintf("new; populate(%d elements)", n), do: func(in *inst) error {
			if err := initNew().do(in); err != nil {
				return err
			}
			in.m.put(cloneElems(all)...)
			return in.l.Populate(bg, in.st, cloneElems(all))
		}}},
		ops: []op{opReload, opSplit,
			{name: "update(4)", do: opUpdate(move...).do},
			{name: fmt.Sprintf("delete(%d)", len(ids)), do: opDelete(ids...).do},
		},
	}
	w.check = func(in *inst, c *h.Ctx) error {
		if err := checkContent(in); err != nil {
			return err
		}
		return checkByID(in, rankdb.Elements(all).IDs())
	}
	seqs := [][]int16{{}, {1, 2, 3, 0}}
	if rel == 1 {
		seqs = [][]int16{{0, 3, 2}}
	}
	for _, s := range seqs {
		nn := wnode{ops: s}
		hash, _, err := w.run(c, nn)
		c.Trace(1)
		c.Trans(1 + len(s))
		c.StateHash(hash)
		if err != nil {
			msg := err.Error()
			if len(msg) > 600 {
				msg = msg[:600] + "…"
			}
			d := w.desc(nn)
			c.Violate(d, d, "%s: %s", d, msg)
			return
		}
	}
}
