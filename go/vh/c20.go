//go:build go1.21

package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/zz_verif/h"
	"github.com/tinylib/msgp/msgp"
)

type codec interface {
	MarshalMsg([]byte) ([]byte, error)
	EncodeMsg(*msgp.Writer) error
	UnmarshalMsg([]byte) ([]byte, error)
	DecodeMsg(*msgp.Reader) error
}

// Boundary values of the integer encodings.
var (
	u64s = []uint64{0, 1, 127, 128, 255, 256, math.MaxUint16, math.MaxUint16 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}
	u32s = []uint32{0, 1, 127, 128, 255, 256, math.MaxUint16, math.MaxUint16 + 1, math.MaxInt32, math.MaxUint32}
	ints = []int64{0, 1, -1, -32, -33, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64}
)

func fill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + 0xc0)
	}
	return b
}

func str(n int) string { return strings.Repeat("æx/\x00", n/4+1)[:n] }

var byteLens = []int{0, 1, 31, 32, 255, 256, 4095, 4096, 65535, 65536, 70000}

var zeros = bytes.Repeat([]byte{0}, 8)

// rt checks all four encode/decode combinations of one value, on fresh and on used
// receivers, with data following, and every truncation.
func rt(name string, v codec, fresh []func() codec, canon func(codec) string, trunc bool) error {
	want := canon(v)
	m, err := v.MarshalMsg([]byte{0xaa, 0xbb})
	if err != nil {
		return fmt.Errorf("MarshalMsg: %v", err)
	}
	if len(m) < 2 || m[0] != 0xaa || m[1] != 0xbb {
		return fmt.Errorf("MarshalMsg did not append to the buffer it was given")
	}
	m = m[2:]
	var buf bytes.Buffer
	w := msgp.NewWriter(&buf)
	if err := v.EncodeMsg(w); err != nil {
		return fmt.Errorf("EncodeMsg: %v", err)
	}
	if err := w.Flush(); err != nil {
		return fmt.Errorf("Flush: %v", err)
	}
	if got := canon(v); got != want {
		return fmt.Errorf("encoding changed the value to %s", got)
	}
	for ei, enc := range [][]byte{m, buf.Bytes()} {
		en := []string{"MarshalMsg", "EncodeMsg"}[ei]
		tail := []byte{0xc3, 0x01, 0x95}
		in := append(append([]byte{}, enc...), tail...)
		for fi, f := range fresh {
			d := f()
			rest, err := d.UnmarshalMsg(in)
			if err != nil {
				return fmt.Errorf("%s -> UnmarshalMsg (receiver %d): %v", en, fi, err)
			}
			if got := canon(d); got != want {
				return fmt.Errorf("%s -> UnmarshalMsg (receiver %d): got %s, want %s", en, fi, got, want)
			}
			if !bytes.Equal(rest, tail) {
				return fmt.Errorf("%s -> UnmarshalMsg (receiver %d): %d bytes left, want %d", en, fi, len(rest), len(tail))
			}
			// The decoded value must not depend on the input buffer afterwards.
			for i := range in {
				in[i] ^= 0xff
			}
			if got := canon(d); got != want {
				return fmt.Errorf("%s -> UnmarshalMsg (receiver %d): value changes with the input buffer", en, fi)
			}
			for i := range in {
				in[i] ^= 0xff
			}
			for ri := 0; ri < 2; ri++ {
				d = f()
				var r *msgp.Reader
				if ri == 0 {
					r = msgp.NewReader(bytes.NewReader(in))
				} else {
					if len(in) > 5000 {
						break
					}
					r = msgp.NewReader(iotest.OneByteReader(bytes.NewReader(in)))
				}
				if err := d.DecodeMsg(r); err != nil {
					return fmt.Errorf("%s -> DecodeMsg (receiver %d): %v", en, fi, err)
				}
				if got := canon(d); got != want {
					return fmt.Errorf("%s -> DecodeMsg (receiver %d): got %s, want %s", en, fi, got, want)
				}
				b, err := r.ReadBool()
				if err != nil || !b {
					return fmt.Errorf("%s -> DecodeMsg (receiver %d): following data not readable: %v %v", en, fi, b, err)
				}
				i, err := r.ReadInt()
				if err != nil || i != 1 {
					return fmt.Errorf("%s -> DecodeMsg (receiver %d): following data not readable: %v %v", en, fi, i, err)
				}
			}
		}
		if !trunc {
			continue
		}
		step := 1
		if len(enc) > 4000 {
			step = len(enc)/1500 + 1
		}
		for n := 0; n < len(enc); n += step {
			if len(enc)-n < 200 {
				step = 1
			}
			// Capacity limited: reading beyond the end must not see the rest.
			if _, err := fresh[0]().UnmarshalMsg(enc[:n:n]); err == nil {
				return fmt.Errorf("%s truncated to %d of %d bytes: UnmarshalMsg returns no error", en, n, len(enc))
			}
			if err := fresh[0]().DecodeMsg(msgp.NewReader(bytes.NewReader(enc[:n]))); err == nil {
				return fmt.Errorf("%s truncated to %d of %d bytes: DecodeMsg returns no error", en, n, len(enc))
			}
		}
	}
	return nil
}

func canonElem(e rankdb.Element) string { return es(e) }

func canonElems(e []rankdb.Element) string {
	var sb strings.Builder
	for i := range e {
		sb.WriteString(es(e[i]))
	}
	return sb.String()
}

func dirtyElem() rankdb.Element {
	return rankdb.Element{ID: 77, Score: 88, TieBreaker: 9, Updated: 3, Payload: []byte("old payload that is rather long, longer than most")}
}

func canonSeg(s *rankdb.Segment) string {
	return fmt.Sprintf("{%d %d %d %d %d %d %d %q}", s.ID, s.Min, s.Max, s.MinTie, s.MaxTie, s.N, s.Updated, s.Parent)
}

func canonSegs(s *rankdb.Segments) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q %d %v %d:", s.ID, s.NextID, s.IsIndex, len(s.Segments))
	for i := range s.Segments {
		sb.WriteString(canonSeg(&s.Segments[i]))
	}
	return sb.String()
}

func canonList(l *rankdb.List) string {
	var ks []string
	for k := range l.Metadata {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q %q %d %d %v %q %q;", l.ID, l.Set, l.SplitSize, l.MergeSize, l.LoadIndex, l.Scores, l.Index)
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q=%q,", k, l.Metadata[k])
	}
	return sb.String()
}

func c20(c *h.Ctx) {
	if err := h.Seq(0, func() error { c20body(c); return nil }); err != nil {
		c.Errorf("%v", err)
	}
}

func c20body(c *h.Ctx) {
	x := &c22ctx{c: c}
	for _, p := range []struct {
		name string
		f    func(x *c22ctx)
	}{{"element", c20elem}, {"elements", c20elems}, {"ids", c20ids}, {"segment", c20seg}, {"list", c20list},
		{"stored", c20stored}, {"directory", c20dir}, {"backup", c20backup}} {
		n0 := x.n
		p.f(x)
		c.Count(p.name, (x.n-n0)/c.NShards)
		if c.Expired() {
			return
		}
	}
	c.Bound("integer values", "every boundary of the wire encodings")
	c.Bound("lengths", fmt.Sprint(byteLens))
}

func c20elem(x *c22ctx) {
	canon := func(v codec) string { return canonElem(*v.(*rankdb.Element)) }
	fresh := []func() codec{func() codec { return &rankdb.Element{} }, func() codec { e := dirtyElem(); return &e }}
	canonI := func(v codec) string { return canonElem(v.(*rankdb.IndexElement).Element) }
	freshI := []func() codec{func() codec { return &rankdb.IndexElement{} }, func() codec { return &rankdb.IndexElement{Element: dirtyElem()} }}
	one := func(e rankdb.Element, trunc bool) bool {
		return x.do(func() string { return "element " + es(rankdb.Element{ID: e.ID, Score: e.Score, TieBreaker: e.TieBreaker, Updated: e.Updated}) + fmt.Sprintf(" payload %d", len(e.Payload)) }, func() error {
			if err := rt("element", &e, fresh, canon, trunc); err != nil {
				return err
			}
			return rt("index element", &rankdb.IndexElement{Element: e}, freshI, canonI, trunc)
		})
	}
	for _, s := range u64s {
		for _, id := range u64s {
			for _, t := range u32s {
				for _, u := range u32s {
					if !one(rankdb.Element{ID: rankdb.ElementID(id), Score: s, TieBreaker: t, Updated: u}, s == id) {
						return
					}
				}
			}
		}
	}
	for _, n := range byteLens {
		for _, s := range []uint64{0, 200, math.MaxUint64} {
			one(rankdb.Element{ID: 3, Score: s, TieBreaker: 500, Updated: math.MaxUint32, Payload: fill(n)}, true)
		}
	}
	for n := 0; n < 300; n++ {
		one(rankdb.Element{ID: 3, Score: 1 << 40, Payload: fill(n)}, true)
	}
}

func c20elems(x *c22ctx) {
	canon := func(v codec) string { return canonElems(*v.(*rankdb.Elements)) }
	dirty := func(n, c int) func() codec {
		return func() codec {
			e := make(rankdb.Elements, n, c)
			for i := range e[:c] {
				e[:c][i] = dirtyElem()
			}
			return &e
		}
	}
	canonI := func(v codec) string {
		var e []rankdb.Element
		ie := v.(*rankdb.IndexElements)
		for i := range ie.Elements {
			e = append(e, ie.Elements[i])
		}
		return canonElems(e)
	}
	for _, n := range []int{0, 1, 2, 3, 14, 15, 16, 17, 100, 255, 256, 65535, 65536} {
		for _, pl := range []int{0, 1, 40, 300} {
			if n > 300 && pl > 1 {
				continue
			}
			n, pl := n, pl
			x.do(func() string { return fmt.Sprintf("elements n=%d payload=%d", n, pl) }, func() error {
				var e rankdb.Elements
				ie := rankdb.IndexElements{}
				for i := 0; i < n; i++ {
					el := rankdb.Element{ID: rankdb.ElementID(u64s[i%len(u64s)]), Score: u64s[(i+5)%len(u64s)], TieBreaker: u32s[i%len(u32s)], Updated: u32s[(i+3)%len(u32s)], Payload: fill((pl + i) % (pl + 1))}
					e = append(e, el)
					ie.Elements = append(ie.Elements, el)
				}
				fresh := []func() codec{func() codec { return &rankdb.Elements{} }, dirty(0, n), dirty(n, n), dirty(n+3, n+3), dirty(1, 2)}
				if n > 1000 {
					fresh = fresh[:2]
				}
				if err := rt("elements", &e, fresh, canon, n < 1000); err != nil {
					return err
				}
				return rt("index elements", &ie, []func() codec{func() codec { return &rankdb.IndexElements{} }}, canonI, n < 1000)
			})
		}
	}
}

func c20ids(x *c22ctx) {
	for _, v := range u64s {
		v := v
		x.do(func() string { return fmt.Sprintf("element id %d", v) }, func() error {
			id := rankdb.ElementID(v)
			return rt("id", &id, []func() codec{func() codec { return new(rankdb.ElementID) }}, func(c codec) string { return fmt.Sprint(uint64(*c.(*rankdb.ElementID))) }, true)
		})
	}
	for _, v := range u32s {
		v := v
		x.do(func() string { return fmt.Sprintf("segment id %d", v) }, func() error {
			id := rankdb.SegmentID(v)
			return rt("id", &id, []func() codec{func() codec { return new(rankdb.SegmentID) }}, func(c codec) string { return fmt.Sprint(uint64(*c.(*rankdb.SegmentID))) }, true)
		})
	}
	for _, n := range append([]int{2, 15, 16, 33, 254, 257}, byteLens...) {
		n := n
		x.do(func() string { return fmt.Sprintf("list id of %d bytes", n) }, func() error {
			id := rankdb.ListID(str(n))
			if err := rt("id", &id, []func() codec{func() codec { return new(rankdb.ListID) }}, func(c codec) string { return string(*c.(*rankdb.ListID)) }, true); err != nil {
				return err
			}
			sid := rankdb.SegmentsID(str(n))
			return rt("id", &sid, []func() codec{func() codec { return new(rankdb.SegmentsID) }}, func(c codec) string { return string(*c.(*rankdb.SegmentsID)) }, true)
		})
	}
	for _, n := range []int{0, 1, 2, 15, 16, 100, 65535, 65536} {
		n := n
		x.do(func() string { return fmt.Sprintf("%d ids", n) }, func() error {
			ids := rankdb.ElementIDs{}
			lids := rankdb.ListIDs{}
			for i := 0; i < n; i++ {
				ids = append(ids, rankdb.ElementID(u64s[i%len(u64s)]))
				lids = append(lids, rankdb.ListID(str(i%40)))
			}
			if err := rt("ids", &ids, []func() codec{func() codec { return new(rankdb.ElementIDs) }, func() codec { e := make(rankdb.ElementIDs, n+2); return &e }},
				func(c codec) string { return fmt.Sprint([]rankdb.ElementID(*c.(*rankdb.ElementIDs))) }, n < 1000); err != nil {
				return err
			}
			return rt("list ids", &lids, []func() codec{func() codec { return new(rankdb.ListIDs) }, func() codec { e := make(rankdb.ListIDs, n+2); return &e }},
				func(c codec) string { return fmt.Sprintf("%q", []rankdb.ListID(*c.(*rankdb.ListIDs))) }, n < 1000)
		})
	}
}

func c20seg(x *c22ctx) {
	canon := func(v codec) string { return canonSeg(v.(*rankdb.Segment)) }
	fresh := []func() codec{func() codec { return &rankdb.Segment{} }, func() codec {
		return &rankdb.Segment{ID: 9, Min: 8, Max: 7, MinTie: 6, MaxTie: 5, N: 4, Updated: 3, Parent: "two"}
	}}
	base := rankdb.Segment{ID: 3, Min: 1 << 33, Max: 1 << 40, MinTie: 7, MaxTie: 1 << 20, N: 2000, Updated: 1573000000, Parent: "abcdefgh"}
	one := func(s rankdb.Segment) {
		x.do(func() string { return "segment " + canonSeg(&s)[:min(100, len(canonSeg(&s)))] }, func() error { return rt("segment", &s, fresh, canon, true) })
	}
	for _, mn := range u64s {
		for _, mx := range u64s {
			for _, t := range u32s {
				s := base
				s.Min, s.Max, s.MinTie = mn, mx, t
				one(s)
				s = base
				s.Min, s.Max, s.MaxTie = mn, mx, t
				one(s)
			}
		}
	}
	for _, n := range ints {
		for _, u := range ints {
			for _, id := range u32s {
				s := base
				s.N, s.Updated, s.ID = int(n), u, rankdb.SegmentID(id)
				one(s)
			}
		}
	}
	for _, n := range byteLens {
		s := base
		s.Parent = rankdb.SegmentsID(str(n))
		one(s)
	}
	one(*rankdb.MaxSegment())
	canonS := func(v codec) string { return canonSegs(v.(*rankdb.Segments)) }
	for _, n := range []int{0, 1, 2, 3, 15, 16, 17, 200, 65535, 65536} {
		for _, next := range u32s {
			for _, idx := range []bool{false, true} {
				n, next, idx := n, next, idx
				if n > 300 && next > 0 {
					continue
				}
				x.do(func() string { return fmt.Sprintf("segments n=%d next=%d index=%v", n, next, idx) }, func() error {
					s := &rankdb.Segments{ID: "abcdefgh", NextID: rankdb.SegmentID(next), IsIndex: idx, Segments: []rankdb.Segment{}}
					for i := 0; i < n; i++ {
						g := base
						g.ID, g.N, g.Min, g.Max = rankdb.SegmentID(i), int(ints[i%len(ints)]), u64s[i%len(u64s)], u64s[(i+3)%len(u64s)]
						s.Segments = append(s.Segments, g)
					}
					fr := []func() codec{func() codec { return &rankdb.Segments{} }, func() codec {
						return &rankdb.Segments{ID: "x", NextID: 99, IsIndex: true, Segments: make([]rankdb.Segment, n+1)}
					}}
					if n > 300 {
						fr = fr[:1]
					}
					return rt("segments", s, fr, canonS, n < 300)
				})
			}
		}
	}
}

func c20list(x *c22ctx) {
	canon := func(v codec) string { return canonList(v.(*rankdb.List)) }
	fresh := []func() codec{func() codec { return &rankdb.List{} }, func() codec {
		return &rankdb.List{ID: "old", Set: "oldset", Metadata: map[string]string{"old": "value", "k1": "old"}, SplitSize: 1, MergeSize: 2, LoadIndex: true, Scores: "s", Index: "i"}
	}}
	one := func(name string, l *rankdb.List) {
		x.do(func() string { return "list " + name }, func() error { return rt("list", l, fresh, canon, len(l.Metadata) < 300) })
	}
	for _, a := range ints {
		for _, b := range ints {
			for _, li := range []bool{false, true} {
				one(fmt.Sprint("sizes ", a, b, li), &rankdb.List{ID: "list", Set: "set", SplitSize: int(a), MergeSize: int(b), LoadIndex: li, Scores: "scores", Index: "index"})
			}
		}
	}
	for _, n := range byteLens {
		for f := 0; f < 6; f++ {
			l := &rankdb.List{ID: "list", Set: "set", Scores: "scores", Index: "index"}
			switch f {
			case 0:
				l.ID = rankdb.ListID(str(n))
			case 1:
				l.Set = str(n)
			case 2:
				l.Scores = rankdb.SegmentsID(str(n))
			case 3:
				l.Index = rankdb.SegmentsID(str(n))
			case 4:
				l.Metadata = map[string]string{"k": str(n), "k2": ""}
			case 5:
				l.Metadata = map[string]string{str(n): "v", "zz": "v2"}
			}
			one(fmt.Sprint("field ", f, " of ", n, " bytes"), l)
		}
	}
	for _, n := range []int{0, 1, 2, 15, 16, 17, 100, 65535, 65536} {
		l := &rankdb.List{ID: "list", Set: "set", Scores: "scores", Index: "index", Metadata: map[string]string{}}
		for i := 0; i < n; i++ {
			l.Metadata[fmt.Sprint("key", i)] = fmt.Sprint("value", i)
		}
		one(fmt.Sprint(n, " metadata entries"), l)
	}
}

// c20stored damages stored blobs: every version byte and every truncation.
func c20stored(x *c22ctx) {
	for _, n := range []int{0, 1, 5, 40} {
		n := n
		var elems rankdb.Elements
		for i := 1; i <= n; i++ {
			elems = append(elems, rankdb.Element{ID: rankdb.ElementID(i), Score: uint64(i * 1000), TieBreaker: 3, Updated: 1, Payload: []byte(`{"x":1}`)})
		}
		st := h.NewStore()
		l, err := rankdb.NewList(bg, "list", lset, st, rankdb.WithListOption.MergeSplitSize(2, 12), rankdb.WithListOption.Populate(elems))
		if err != nil {
			x.c.Errorf("creating list: %v", err)
			return
		}
		enc, err := l.MarshalMsg(nil)
		if err != nil {
			x.c.Errorf("%v", err)
			return
		}
		ids := make([]rankdb.ElementID, n)
		for i := range ids {
			ids[i] = rankdb.ElementID(i + 1)
		}
		read := func(s *h.Store) (bad string) {
			load := func() *rankdb.List {
				d := dir20()
				var b bytes.Buffer
				d.Add(l)
				if err := d.Save(bg, &b); err != nil {
					panic(err)
				}
				if err := d.Load(bg, s, b.Bytes()); err != nil {
					panic(err)
				}
				nl, _ := d.ByID("list")
				return nl
			}
			nl := load()
			if r, err := nl.GetRankTop(bg, s, 0, n+1); err == nil || errors.Is(err, rankdb.ErrOffsetOutOfBounds) && len(r) > 0 {
				return fmt.Sprintf("GetRankTop returns %d elements and no error", len(r))
			}
			return ""
		}
		_ = enc
		for _, id := range []rankdb.SegmentsID{l.Scores, l.Index} {
			ws := blobstore.StoreWithSet(st, lset)
			segs, err := id.Load(bg, ws, nil)
			if err != nil {
				x.c.Errorf("loading %q: %v", id, err)
				return
			}
			blob := st.M[lset][string(id)]
			isIdx := id == l.Index
			for v := 0; v < 256; v++ {
				if byte(v) == blob[0] {
					continue
				}
				v, id := v, id
				x.do(func() string { return fmt.Sprintf("segments of %d elements, index=%v: version %d", n, isIdx, v) }, func() error {
					s := st.Clone()
					b := append([]byte{}, blob...)
					b[0] = byte(v)
					s.M[lset][string(id)] = b
					if _, err := id.Load(bg, blobstore.StoreWithSet(s, lset), nil); err == nil {
						return fmt.Errorf("loaded without error")
					}
					if !isIdx && n > 0 {
						if bad := read(s); bad != "" {
							return fmt.Errorf("%s", bad)
						}
					}
					return nil
				})
			}
			for k := 0; k < len(blob); k++ {
				k, id := k, id
				x.do(func() string { return fmt.Sprintf("segments of %d elements, index=%v: truncated to %d of %d", n, isIdx, k, len(blob)) }, func() error {
					s := st.Clone()
					s.M[lset][string(id)] = blob[:k:k]
					if _, err := id.Load(bg, blobstore.StoreWithSet(s, lset), nil); err == nil {
						return fmt.Errorf("loaded without error")
					}
					if !isIdx && n > 0 {
						if bad := read(s); bad != "" {
							return fmt.Errorf("%s", bad)
						}
					}
					return nil
				})
			}
			if isIdx || n == 0 {
				continue
			}
			// Element blobs of the score segments.
			for i := range segs.Segments {
				key := segs.Segments[i].StorageKey()
				blob := st.M[lset][key]
				if len(blob) == 0 {
					x.c.Errorf("no blob %q", key)
					return
				}
				for v := 0; v < 256; v++ {
					if byte(v) == blob[0] {
						continue
					}
					v := v
					x.do(func() string { return fmt.Sprintf("elements of segment %d of %d: version %d", i, n, v) }, func() error {
						s := st.Clone()
						b := append([]byte{}, blob...)
						b[0] = byte(v)
						s.M[lset][key] = b
						if bad := read(s); bad != "" {
							return fmt.Errorf("%s", bad)
						}
						return nil
					})
				}
				for k := 0; k < len(blob); k++ {
					k := k
					x.do(func() string { return fmt.Sprintf("elements of segment %d of %d: truncated to %d of %d", i, n, k, len(blob)) }, func() error {
						s := st.Clone()
						s.M[lset][key] = blob[:k:k]
						if bad := read(s); bad != "" {
							return fmt.Errorf("%s", bad)
						}
						return nil
					})
				}
			}
		}
	}
}

// c20dir damages the saved list directory.
func c20dir(x *c22ctx) {
	for _, n := range []int{0, 1, 2, 3, 20, 300} {
		n := n
		var enc []byte
		d := dir20()
		want := ""
		for i := 0; i < n; i++ {
			l := &rankdb.List{ID: rankdb.ListID(fmt.Sprintf("list%04d", i)), Set: fmt.Sprint("set", i%3), SplitSize: 100 + i, MergeSize: i, LoadIndex: false,
				Scores: rankdb.SegmentsID(fmt.Sprint("s", i)), Index: rankdb.SegmentsID(fmt.Sprint("i", i)), Metadata: map[string]string{"country": fmt.Sprint(i), "k": ""}}
			d.Add(l)
			want += canonList(l) + "\n"
		}
		var b bytes.Buffer
		if err := d.Save(bg, &b); err != nil {
			x.c.Errorf("saving the directory: %v", err)
			return
		}
		enc = b.Bytes()
		all := func(d *rankdb.Lists) string {
			s := ""
			ls, _ := d.SortedIDsAfter("", n+10)
			for _, l := range ls {
				s += canonList(l) + "\n"
			}
			return s
		}
		x.do(func() string { return fmt.Sprintf("directory of %d lists: reload", n) }, func() error {
			nd := dir20()
			nd.Add(&rankdb.List{ID: "zz-old"})
			if err := nd.Load(bg, h.NewStore(), append([]byte{}, enc...)); err != nil {
				return err
			}
			if got := all(nd); got != want {
				return fmt.Errorf("got %s, want %s", got, want)
			}
			return nil
		})
		for k := 0; k < len(enc); k++ {
			k := k
			x.do(func() string { return fmt.Sprintf("directory of %d lists: truncated to %d of %d", n, k, len(enc)) }, func() error {
				nd := dir20()
				if err := nd.Load(bg, h.NewStore(), append([]byte{}, enc[:k]...)); err == nil {
					// Only redundant bytes (the checksum) may be missing.
					if got := all(nd); k < len(enc)-4 || got != want {
						return fmt.Errorf("loaded without error: %s", got)
					}
				}
				return nil
			})
		}
		// Uncompressed form: flag, version, stream of lists, true.
		raw := []byte{7, 1}
		for _, l := range func() []*rankdb.List { ls, _ := d.SortedIDsAfter("", n+10); return ls }() {
			raw, _ = l.MarshalMsg(raw)
		}
		raw = append(raw, 0xc3)
		x.do(func() string { return fmt.Sprintf("uncompressed directory of %d lists: load", n) }, func() error {
			nd := dir20()
			if err := nd.Load(bg, h.NewStore(), append([]byte{}, raw...)); err != nil {
				return err
			}
			if got := all(nd); got != want {
				return fmt.Errorf("got %s, want %s", got, want)
			}
			return nil
		})
		for k := 0; k < len(raw); k++ {
			if n > 30 && k%7 != 0 && k < len(raw)-300 {
				continue
			}
			k := k
			x.do(func() string { return fmt.Sprintf("uncompressed directory of %d lists: truncated to %d of %d", n, k, len(raw)) }, func() error {
				if err := dir20().Load(bg, h.NewStore(), append([]byte{}, raw[:k]...)); err == nil {
					return fmt.Errorf("loaded without error")
				}
				return nil
			})
		}
		for v := 0; v < 256; v++ {
			v := v
			x.do(func() string { return fmt.Sprintf("uncompressed directory of %d lists: version %d", n, v) }, func() error {
				b := append([]byte{}, raw...)
				b[1] = byte(v)
				if err := dir20().Load(bg, h.NewStore(), b); (err == nil) != (v == 1) {
					return fmt.Errorf("load returns %v", err)
				}
				return nil
			})
		}
	}
}

// c20backup damages list backups.
func c20backup(x *c22ctx) {
	for _, n := range []int{0, 1, 5, 30} {
		n := n
		var elems rankdb.Elements
		for i := 1; i <= n; i++ {
			elems = append(elems, rankdb.Element{ID: rankdb.ElementID(i), Score: uint64(i * 1000), TieBreaker: 3, Updated: 1, Payload: []byte(`{"x":1}`)})
		}
		st := h.NewStore()
		l, err := rankdb.NewList(bg, "list", lset, st, rankdb.WithListOption.MergeSplitSize(2, 12), rankdb.WithListOption.Populate(elems))
		if err != nil {
			x.c.Errorf("creating list: %v", err)
			return
		}
		w := rankdb.NewWriterMsg()
		if err := l.Backup(bg, st, w); err != nil {
			x.c.Errorf("backup: %v", err)
			return
		}
		enc := append([]byte{}, w.Buffer().Bytes()...)
		w.Close()
		for k := 0; k < len(enc); k++ {
			k := k
			x.do(func() string { return fmt.Sprintf("backup of %d elements: truncated to %d of %d", n, k, len(enc)) }, func() error {
				r := rankdb.NewReaderMsgp(enc[:k:k])
				defer r.Close()
				if nl, err := rankdb.RestoreList(bg, h.NewStore(), r, nil, nil); err == nil {
					return fmt.Errorf("restored without error: %v", nl.ID)
				}
				return nil
			})
		}
		// The versions are at the start, after the list and after the segments.
		lb, _ := l.MarshalMsg(nil)
		segs, err := l.Scores.Load(bg, blobstore.StoreWithSet(st, lset), nil)
		if err != nil {
			x.c.Errorf("%v", err)
			return
		}
		sb, _ := segs.MarshalMsg(nil)
		for i, p := range []int{0, 1 + len(lb), 2 + len(lb) + len(sb)} {
			for v := 0; v < 256; v++ {
				i, p, v := i, p, v
				x.do(func() string { return fmt.Sprintf("backup of %d elements: version %d = %d", n, i, v) }, func() error {
					b := append([]byte{}, enc...)
					b[p] = byte(v)
					r := rankdb.NewReaderMsgp(b)
					defer r.Close()
					_, err := rankdb.RestoreList(bg, h.NewStore(), r, nil, nil)
					if (err == nil) != (enc[p] == byte(v)) {
						return fmt.Errorf("restore returns %v (written version %d)", err, enc[p])
					}
					return nil
				})
			}
		}
	}
}

func dir20() *rankdb.Lists {
	d, err := newDir()
	if err != nil {
		panic(err)
	}
	return &d.Lists
}
