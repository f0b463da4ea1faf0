//go:build go1.21

package main

import (
	"fmt"

	"github.com/Vivino/rankdb/blobstore"
)

const notFound = "\x00not found"

// linear records a concurrent history of one register and checks that it is linearizable.
type linear struct {
	init  string
	clock int
	ops   []*linOp
	err   error
}

type linOp struct {
	inv, res int
	write    bool
	val      string
}

func (l *linear) write(val string, f func() error) {
	o := &linOp{write: true, val: val, inv: l.clock, res: 1 << 30}
	l.clock++
	l.ops = append(l.ops, o)
	if err := f(); err != nil && l.err == nil {
		l.err = err
	}
	o.res = l.clock
	l.clock++
}

func (l *linear) read(f func() ([]byte, error)) {
	o := &linOp{inv: l.clock, res: 1 << 30}
	l.clock++
	l.ops = append(l.ops, o)
	b, err := f()
	if err == blobstore.ErrBlobNotFound {
		o.val = notFound
	} else if err != nil {
		if l.err == nil {
			l.err = err
		}
	} else {
		o.val = string(b)
	}
	o.res = l.clock
	l.clock++
}

func (l *linear) check() (string, error) {
	if l.err != nil {
		return "", l.err
	}
	used := make([]bool, len(l.ops))
	var rec func(cur string, left int) bool
	rec = func(cur string, left int) bool {
		if left == 0 {
			return true
		}
		// An operation may come next if no other remaining one finished before it started.
		first := 1 << 30
		for i, o := range l.ops {
			if !used[i] && o.res < first {
				first = o.res
			}
		}
		for i, o := range l.ops {
			if used[i] || o.inv > first {
				continue
			}
			next := cur
			if o.write {
				next = o.val
			} else if o.val != cur {
				continue
			}
			used[i] = true
			if rec(next, left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	d := ""
	for _, o := range l.ops {
		k := "read"
		if o.write {
			k = "write"
		}
		v := "not found"
		if o.val != notFound {
			v = show15([]byte(o.val), nil)
		}
		d += fmt.Sprintf("[%d-%d %s %s] ", o.inv, o.res, k, v)
	}
	if !rec(l.init, len(l.ops)) {
		return "", fmt.Errorf("no sequential order explains the history %s", d)
	}
	return d, nil
}
