//go:build go1.21

package vsched

import (
	"reflect"
	"runtime"
	"sort"
	"time"
	"unsafe"
)

type chanKey = unsafe.Pointer

// hchan is the shadow state of a channel created by instrumented code.
type hchan struct {
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	ref    any // keeps the native channel alive, so its address is not reused.
}

// waiter is a blocked channel operation. For select it is enqueued on several channels.
type waiter struct {
	done   bool
	idx    int // case that fired
	val    any
	ok     bool
	closed bool // sender woken by close
	// per case values for senders.
	sendVals []any
	cases    []selState
}

func keyOf[T any](ch chan T) chanKey      { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func keyOfR[T any](ch <-chan T) chanKey   { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func keyOfS[T any](ch chan<- T) chanKey   { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func (e *exec) get(k chanKey) *hchan      { return e.chans[k] }

// MakeChan creates a channel that is managed by the active execution.
func MakeChan[T any](n int) chan T {
	ch := make(chan T, n)
	if e := cur; e != nil {
		e.chans[keyOf(ch)] = &hchan{cap: n, ref: ch}
	}
	return ch
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.done {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.done {
			return true
		}
	}
	return false
}

func (c *hchan) canRecv() bool { return len(c.buf) > 0 || c.closed || hasWaiter(c.sendq) }
func (c *hchan) canSend() bool { return c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq) }

// trySend assumes canSend and !closed.
func (c *hchan) doSend(v any) {
	if w := popWaiter(&c.recvq); w != nil {
		w.done, w.val, w.ok = true, v, true
		w.idx = w.caseIdx(c, false)
		return
	}
	c.buf = append(c.buf, v)
}

func (c *hchan) doRecv() (v any, ok bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := popWaiter(&c.sendq); w != nil {
			i := w.caseIdx(c, true)
			c.buf = append(c.buf, w.sendVals[i])
			w.done, w.idx = true, i
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		i := w.caseIdx(c, true)
		w.done, w.idx = true, i
		return w.sendVals[i], true
	}
	return nil, false // closed
}

// caseIdx finds the (first) select case of the waiter that refers to c.
func (w *waiter) caseIdx(c *hchan, send bool) int {
	for i, sc := range w.cases {
		if sc.c == c && sc.send == send {
			return i
		}
	}
	return 0
}

type selState struct {
	c    *hchan
	send bool
}

func (c *hchan) doClose() {
	c.closed = true
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.done, w.val, w.ok = true, nil, false
		w.idx = w.caseIdx(c, false)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.done, w.closed = true, true
		w.idx = w.caseIdx(c, true)
	}
}

// Case is one select case.
type Case struct {
	c       *hchan
	nilCh   bool
	send    bool
	val     any
	foreign func() (v any, ok bool, ready bool) // try operation on native channel
}

// RecvCase creates a receive case.
func RecvCase[T any](ch <-chan T) Case {
	if ch == nil {
		return Case{nilCh: true}
	}
	e := cur
	if e != nil {
		if c := e.get(keyOfR(ch)); c != nil {
			return Case{c: c}
		}
	}
	return Case{foreign: func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			if !ok {
				return nil, false, true
			}
			return v, true, true
		default:
			return nil, false, false
		}
	}}
}

// SendCase creates a send case; the value is supplied in a second call to keep assignability rules.
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		if ch == nil {
			return Case{nilCh: true, send: true}
		}
		e := cur
		if e != nil {
			if c := e.get(keyOfS(ch)); c != nil {
				return Case{c: c, send: true, val: v}
			}
		}
		return Case{send: true, foreign: func() (any, bool, bool) {
			select {
			case ch <- v:
				return nil, true, true
			default:
				return nil, false, false
			}
		}}
	}
}

// Select performs a select. Returns the index of the chosen case or -1 for default.
func Select(hasDefault bool, cases ...Case) (int, any, bool) {
	e := cur
	if e == nil {
		return nativeSelect(hasDefault, cases)
	}
	e.block(nil, "select")
	var ready []int
	type fres struct {
		v  any
		ok bool
	}
	for i := range cases {
		c := &cases[i]
		switch {
		case c.nilCh:
		case c.c != nil:
			if c.send && c.c.canSend() || !c.send && c.c.canRecv() {
				ready = append(ready, i)
			}
		default:
			// Foreign: performing the op is the poll. Prefer managed channels when ready.
			if len(ready) == 0 {
				if v, ok, r := c.foreign(); r {
					return i, v, ok
				}
			}
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = e.decide(len(ready), "select")
		}
		i := ready[k]
		c := &cases[i]
		if c.send {
			if c.c.closed {
				panic("send on closed channel")
			}
			c.c.doSend(c.val)
			return i, nil, true
		}
		v, ok := c.c.doRecv()
		return i, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	w := &waiter{idx: -1}
	states := make([]selState, len(cases))
	w.sendVals = make([]any, len(cases))
	var foreign []int
	for i := range cases {
		c := &cases[i]
		states[i] = selState{c: c.c, send: c.send}
		switch {
		case c.nilCh:
		case c.c != nil:
			if c.send {
				w.sendVals[i] = c.val
				c.c.sendq = append(c.c.sendq, w)
			} else {
				c.c.recvq = append(c.c.recvq, w)
			}
		default:
			foreign = append(foreign, i)
		}
	}
	w.cases = states
	e.block(func() bool {
		if w.done {
			return true
		}
		for _, i := range foreign {
			if v, ok, r := cases[i].foreign(); r {
				w.done, w.idx, w.val, w.ok = true, i, v, ok
				return true
			}
		}
		return false
	}, "select")
	// Remove leftovers.
	for i := range cases {
		if c := cases[i].c; c != nil {
			c.recvq = drop(c.recvq, w)
			c.sendq = drop(c.sendq, w)
		}
	}
	if w.closed {
		panic("send on closed channel")
	}
	return w.idx, w.val, w.ok
}

func drop(q []*waiter, w *waiter) []*waiter {
	for i := 0; i < len(q); i++ {
		if q[i] == w {
			q = append(q[:i:i], q[i+1:]...)
			i--
		}
	}
	return q
}

func nativeSelect(hasDefault bool, cases []Case) (int, any, bool) {
	// Poll all cases, then wait a little; only used outside controlled executions.
	for n := 0; ; n++ {
		for i := range cases {
			c := &cases[i]
			if c.nilCh || c.foreign == nil {
				continue
			}
			if v, ok, r := c.foreign(); r {
				return i, v, ok
			}
		}
		if hasDefault {
			return -1, nil, false
		}
		nativePause(n)
	}
}

func nativePause(n int) {
	if n < 100 {
		runtime.Gosched()
		return
	}
	time.Sleep(100 * time.Microsecond)
}

// As converts a received value.
func As[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// AsCh converts a value received from ch (used for type inference).
func AsCh[T any](ch <-chan T, v any) T { return As[T](v) }

// Send returns a function sending on ch.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if cur == nil {
			ch <- v
			return
		}
		Select(false, SendCase(ch)(v))
	}
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	if cur == nil {
		return <-ch
	}
	_, v, _ := Select(false, RecvCase(ch))
	return As[T](v)
}

// Recv2 receives from ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	_, v, ok := Select(false, RecvCase(ch))
	return As[T](v), ok
}

// Close a channel.
func Close[T any](ch chan<- T) {
	e := cur
	if e == nil {
		close(ch)
		return
	}
	c := e.get(keyOfS(ch))
	if c == nil {
		close(ch)
		return
	}
	if e.aborting {
		return
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.doClose()
}

// Len of a channel.
func Len[T any](ch <-chan T) int {
	if e := cur; e != nil && ch != nil {
		if c := e.get(keyOfR(ch)); c != nil {
			return len(c.buf)
		}
	}
	return len(ch)
}

// NonBlockSend performs a non blocking send from scheduler context (timers).
func NonBlockSend[T any](ch chan T, v T) bool {
	e := cur
	if e == nil {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}
	c := e.get(keyOf(ch))
	if c == nil || c.closed || !c.canSend() {
		return false
	}
	c.doSend(v)
	return true
}

// Drain removes buffered values (timer stop).
func Drain[T any](ch chan T) {
	if e := cur; e != nil {
		if c := e.get(keyOf(ch)); c != nil {
			c.buf = nil
		}
	}
}

// Keys returns the keys of a map in a deterministic order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	SortKeys(keys)
	return keys
}

// SortKeys sorts keys of basic kinds; honours the execution's policy (odd policies reverse).
func SortKeys[K any](keys []K) {
	if len(keys) < 2 {
		return
	}
	var less func(i, j int) bool
	switch ks := any(keys).(type) {
	case []int:
		less = func(i, j int) bool { return ks[i] < ks[j] }
	case []string:
		less = func(i, j int) bool { return ks[i] < ks[j] }
	case []uint64:
		less = func(i, j int) bool { return ks[i] < ks[j] }
	default:
		less = func(i, j int) bool { return lessV(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) }
	}
	if e := cur; e != nil && e.cfg.Policy&1 == 1 {
		l := less
		less = func(i, j int) bool { return l(j, i) }
	}
	sort.SliceStable(keys, less)
}

func lessV(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if lessV(a.Field(i), b.Field(i)) {
				return true
			}
			if lessV(b.Field(i), a.Field(i)) {
				return false
			}
		}
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && !b.IsNil()
		}
		return lessV(a.Elem(), b.Elem())
	}
	return false
}

// Reg registers a freshly made channel with the active execution.
func Reg[C ~chan T, T any](c C) C {
	if e := cur; e != nil {
		ch := (chan T)(c)
		e.chans[keyOf(ch)] = &hchan{cap: cap(ch), ref: ch}
	}
	return c
}

// RangeChan supports rewritten range loops over channels.
func RangeChan[T any](ch <-chan T) (<-chan T, T, bool) {
	var z T
	return ch, z, false
}

// MapIter iterates a map in deterministic order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// RangeMap supports rewritten range loops over maps.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return &MapIter[K, V]{m: m, keys: Keys(m)}, k, v
}

// Next advances the iterator.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
