//go:build go1.21

package main

import (
	"fmt"
	"math"

	"github.com/Vivino/rankdb/sortfloat"
	"github.com/Vivino/rankdb/zz_verif/h"
)

func hexf(f float64) string { return fmt.Sprintf("%v (bits %#016x)", f, math.Float64bits(f)) }

// f32at maps -0x7f800000..0x7f800000 to all float32 values in ascending order.
func f32at(k int64) float64 {
	if k < 0 {
		return float64(math.Float32frombits(uint32(-k) | 1<<31))
	}
	return float64(math.Float32frombits(uint32(k)))
}

func c21(c *h.Ctx) {
	c.Begin(func() string { return "float enumeration" })
	bad := func(what string, a, b float64) bool {
		c.Violate(what+" "+hexf(a)+" "+hexf(b), fmt.Sprintf("sortfloat on %s and %s", hexf(a), hexf(b)), "%s: a=%s -> %#x, b=%s -> %#x, reverse(a)=%s",
			what, hexf(a), sortfloat.SortableFloat64(a), hexf(b), sortfloat.SortableFloat64(b), hexf(sortfloat.ReverseFloat64(sortfloat.SortableFloat64(a))))
		return c.Stopped()
	}
	// one checks the round trip of v.
	one := func(v float64) bool {
		r := sortfloat.ReverseFloat64(sortfloat.SortableFloat64(v))
		if math.Float64bits(r) == math.Float64bits(v) || v == 0 && r == 0 {
			return true
		}
		bad("does not convert back", v, r)
		return false
	}
	less := func(a, b float64) bool {
		if sortfloat.SortableFloat64(a) < sortfloat.SortableFloat64(b) {
			return true
		}
		bad("order not preserved", a, b)
		return false
	}
	// All float32 values in ascending order.
	const lim = int64(0x7f800000)
	total := 2*lim + 1
	from := total*int64(c.Shard)/int64(c.NShards) - lim
	to := total*int64(c.Shard+1)/int64(c.NShards) - lim
	prev := f32at(from)
	one(prev)
	n := 1
	for k := from + 1; k < to+1 && k <= lim; k++ {
		v := f32at(k)
		if !(prev < v) {
			c.Errorf("enumeration not ascending at %d", k)
			return
		}
		if !one(v) || !less(prev, v) {
			return
		}
		prev = v
		n++
		if n&0xfffff != 0 {
			continue
		}
		c.Begin(func() string { return hexf(v) })
		if c.Expired() {
			return
		}
	}
	// float64: every exponent with a grid of mantissas, each compared to the next float64.
	var mant []uint64
	const full = 1<<52 - 1
	for i := 0; i < 52; i++ {
		mant = append(mant, 1<<i, full&^(1<<i), 1<<i-1, full^(1<<i-1))
		for j := 0; j < i; j++ {
			mant = append(mant, 1<<i|1<<j, full&^(1<<i|1<<j))
			if !c.Quick() {
				for k := 0; k < j; k++ {
					mant = append(mant, 1<<i|1<<j|1<<k, full&^(1<<i|1<<j|1<<k))
				}
			}
		}
	}
	low := h.Pick(c, 256, 4096)
	for i := 0; i < low; i++ {
		mant = append(mant, uint64(i), full-uint64(i), 1<<51+uint64(i), 1<<51-1-uint64(i))
	}
	for exp := c.Shard; exp < 2047; exp += c.NShards {
		for _, m := range mant {
			for sign := uint64(0); sign < 2; sign++ {
				v := math.Float64frombits(sign<<63 | uint64(exp)<<52 | m)
				nx := math.Nextafter(v, math.Inf(1))
				if v == 0 {
					nx = math.SmallestNonzeroFloat64
				}
				if !one(v) || !less(v, nx) || !less(-nx, -v) {
					return
				}
				n++
			}
		}
		c.Begin(func() string { return fmt.Sprint("exponent ", exp) })
		if c.Expired() {
			return
		}
	}
	// Special values.
	sp := []float64{math.Inf(-1), -math.MaxFloat64, -1, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 1, math.MaxFloat64, math.Inf(1)}
	for i, a := range sp {
		if !one(a) {
			return
		}
		for _, b := range sp[i+1:] {
			if !less(a, b) {
				return
			}
		}
		if !(sortfloat.SortableFloat64(math.NaN()) < sortfloat.SortableFloat64(a)) {
			bad("NaN does not sort below", a, a)
			return
		}
	}
	if sortfloat.SortableFloat64(math.Copysign(0, -1)) != sortfloat.SortableFloat64(0) {
		bad("-0 and 0 differ", 0, math.Copysign(0, -1))
		return
	}
	for _, b := range []uint64{0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0xffffffffffffffff} {
		f := math.Float64frombits(b)
		if r := sortfloat.ReverseFloat64(sortfloat.SortableFloat64(f)); r == r {
			bad("NaN does not convert back to NaN", f, r)
			return
		}
	}
	c.Count("values", n)
	c.Trace(n)
	c.Trans(n)
	c.Bound("float32", "all non-NaN values")
	c.Bound("float64", fmt.Sprintf("%d mantissas for each sign and exponent, each with its successor", len(mant)))
	c.States(n)
	c.Sample("float32 range of worker: " + hexf(f32at(from)) + " .. " + hexf(prev))
}
