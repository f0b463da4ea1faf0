//go:build go1.21

// Package vsync mirrors package sync on top of the controlled scheduler.
package vsync

import (
	"sync"

	"github.com/Vivino/rankdb/zz_verif/vsched"
)

type Locker = sync.Locker

// Mutex mirrors sync.Mutex.
type Mutex struct {
	native sync.Mutex
	ep     uint64
	locked bool
}

func (m *Mutex) sync(id uint64) {
	if m.ep != id {
		m.ep, m.locked = id, false
	}
}

func (m *Mutex) Lock() {
	id := vsched.ExecID()
	if id == 0 {
		m.native.Lock()
		return
	}
	m.sync(id)
	vsched.Block("Mutex.Lock", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	id := vsched.ExecID()
	if id == 0 {
		return m.native.TryLock()
	}
	m.sync(id)
	vsched.Point("Mutex.TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	id := vsched.ExecID()
	if id == 0 {
		m.native.Unlock()
		return
	}
	m.sync(id)
	if !m.locked {
		vsched.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

// RWMutex mirrors sync.RWMutex, including writer preference and hand-off to
// waiting readers when a writer releases the lock.
type RWMutex struct {
	native  sync.RWMutex
	ep      uint64
	readers int
	w       bool // a writer holds or is acquiring the lock
	writing bool
	waiting []*bool
}

func (m *RWMutex) sync(id uint64) {
	if m.ep != id {
		m.ep, m.readers, m.w, m.writing, m.waiting = id, 0, false, false, nil
	}
}

func (m *RWMutex) Lock() {
	id := vsched.ExecID()
	if id == 0 {
		m.native.Lock()
		return
	}
	m.sync(id)
	vsched.Block("RWMutex.Lock", func() bool { return !m.w })
	m.w = true
	if m.readers > 0 {
		vsched.Block("RWMutex.Lock(readers)", func() bool { return m.readers == 0 })
	}
	m.writing = true
}

func (m *RWMutex) TryLock() bool {
	id := vsched.ExecID()
	if id == 0 {
		return m.native.TryLock()
	}
	m.sync(id)
	vsched.Point("RWMutex.TryLock")
	if m.w || m.readers > 0 {
		return false
	}
	m.w, m.writing = true, true
	return true
}

func (m *RWMutex) Unlock() {
	id := vsched.ExecID()
	if id == 0 {
		m.native.Unlock()
		return
	}
	m.sync(id)
	if !m.writing {
		vsched.Fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	m.w, m.writing = false, false
	for _, g := range m.waiting {
		*g = true
		m.readers++
	}
	m.waiting = nil
}

func (m *RWMutex) RLock() {
	id := vsched.ExecID()
	if id == 0 {
		m.native.RLock()
		return
	}
	m.sync(id)
	vsched.Point("RWMutex.RLock")
	if !m.w {
		m.readers++
		return
	}
	granted := new(bool)
	m.waiting = append(m.waiting, granted)
	vsched.Block("RWMutex.RLock", func() bool { return *granted })
}

func (m *RWMutex) TryRLock() bool {
	id := vsched.ExecID()
	if id == 0 {
		return m.native.TryRLock()
	}
	m.sync(id)
	vsched.Point("RWMutex.TryRLock")
	if m.w {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	id := vsched.ExecID()
	if id == 0 {
		m.native.RUnlock()
		return
	}
	m.sync(id)
	if m.readers <= 0 {
		vsched.Fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	native sync.WaitGroup
	ep     uint64
	n      int
}

func (w *WaitGroup) sync(id uint64) {
	if w.ep != id {
		w.ep, w.n = id, 0
	}
}

func (w *WaitGroup) Add(d int) {
	id := vsched.ExecID()
	if id == 0 {
		w.native.Add(d)
		return
	}
	w.sync(id)
	w.n += d
	if w.n < 0 && !vsched.Aborting() {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	id := vsched.ExecID()
	if id == 0 {
		w.native.Wait()
		return
	}
	w.sync(id)
	vsched.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once mirrors sync.Once.
type Once struct {
	native sync.Once
	ep     uint64
	m      Mutex
	done   bool
}

func (o *Once) Do(f func()) {
	id := vsched.ExecID()
	if id == 0 {
		o.native.Do(func() { o.done = true; f() })
		return
	}
	if o.done {
		vsched.Point("Once.Do")
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues mirrors sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond mirrors sync.Cond.
type Cond struct {
	L      Locker
	native *sync.Cond
	once   sync.Once
	wait   []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) nat() *sync.Cond {
	c.once.Do(func() { c.native = sync.NewCond(c.L) })
	return c.native
}

func (c *Cond) Wait() {
	if vsched.ExecID() == 0 {
		c.nat().Wait()
		return
	}
	b := new(bool)
	c.wait = append(c.wait, b)
	c.L.Unlock()
	vsched.Block("Cond.Wait", func() bool { return *b })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if vsched.ExecID() == 0 {
		c.nat().Signal()
		return
	}
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}

func (c *Cond) Broadcast() {
	if vsched.ExecID() == 0 {
		c.nat().Broadcast()
		return
	}
	for _, b := range c.wait {
		*b = true
	}
	c.wait = nil
}

// Pool mirrors sync.Pool, deterministic LIFO. Content does not survive executions.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	ep    uint64
	items []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	if id := vsched.ExecID(); p.ep != id {
		p.ep, p.items = id, nil
	}
	var v any
	if n := len(p.items); n > 0 {
		v = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.mu.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.mu.Lock()
	if id := vsched.ExecID(); p.ep != id {
		p.ep, p.items = id, nil
	}
	p.items = append(p.items, v)
	p.mu.Unlock()
}

// Map mirrors sync.Map with deterministic (insertion ordered) iteration.
type Map struct {
	mu   sync.Mutex
	m    map[any]any
	keys []any
}

func (m *Map) point(s string) { vsched.Point(s) }

func (m *Map) Load(k any) (any, bool) {
	m.point("Map.Load")
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = make(map[any]any)
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, o := range m.keys {
		if o == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(k, v any) {
	m.point("Map.Store")
	m.mu.Lock()
	defer m.mu.Unlock()
	m.store(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.point("Map.LoadOrStore")
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.point("Map.LoadAndDelete")
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.point("Map.Swap")
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.store(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.point("Map.CompareAndSwap")
	m.mu.Lock()
	defer m.mu.Unlock()
	if c, ok := m.m[k]; ok && c == o {
		m.store(k, n)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.point("Map.CompareAndDelete")
	m.mu.Lock()
	defer m.mu.Unlock()
	if c, ok := m.m[k]; ok && c == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.point("Map.Clear")
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.point("Map.Range")
	m.mu.Lock()
	keys := append([]any{}, m.keys...)
	m.mu.Unlock()
	for _, k := range keys {
		m.mu.Lock()
		v, ok := m.m[k]
		m.mu.Unlock()
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
