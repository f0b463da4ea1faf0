//go:build go1.21

package h

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/zz_verif/vsched"
)

// ErrInjected is the error returned by injected storage faults.
var ErrInjected = errors.New("injected storage fault")

// Op is one storage operation.
type Op struct {
	Kind     byte // 'G', 'S', 'D'
	Set, Key string
	Val      []byte // Set
	Err      error
}

func (o Op) String() string {
	e := ""
	if o.Err != nil {
		e = " err=" + o.Err.Error()
	}
	return fmt.Sprintf("%c %s/%s (%d bytes)%s", o.Kind, o.Set, o.Key, len(o.Val), e)
}

// Store is an in-memory blobstore.Store with an operation log and fault injection.
// Blobs are copied on Set and Get. Each operation is a scheduling point.
type Store struct {
	M map[string]map[string][]byte
	// Log of mutations (and of everything when LogAll).
	Ops    []Op
	Record bool
	LogAll bool
	N      int // operations so far
	// Fault returns an error to inject for the n-th operation (0 based).
	Fault func(n int, kind byte, set, key string) error
	// Yield before each operation (scheduling point).
	NoPoint bool
	Faults  int
}

// NewStore returns an empty store.
func NewStore() *Store { return &Store{M: map[string]map[string][]byte{}} }

var _ blobstore.Store = &Store{}

func (s *Store) pre(kind byte, set, key string) error {
	if !s.NoPoint {
		vsched.Point("store")
	}
	n := s.N
	s.N++
	if s.Fault != nil {
		if err := s.Fault(n, kind, set, key); err != nil {
			s.Faults++
			if s.Record {
				s.Ops = append(s.Ops, Op{Kind: kind, Set: set, Key: key, Err: err})
			}
			return err
		}
	}
	return nil
}

// Get a blob.
func (s *Store) Get(ctx context.Context, set, key string) ([]byte, error) {
	if err := s.pre('G', set, key); err != nil {
		return nil, err
	}
	v, ok := s.M[set][key]
	if s.Record && s.LogAll {
		s.Ops = append(s.Ops, Op{Kind: 'G', Set: set, Key: key})
	}
	if !ok {
		return nil, blobstore.ErrBlobNotFound
	}
	return append(make([]byte, 0, len(v)), v...), nil
}

// Set a blob.
func (s *Store) Set(ctx context.Context, set, key string, val []byte) error {
	if err := s.pre('S', set, key); err != nil {
		return err
	}
	v := append(make([]byte, 0, len(val)), val...)
	if s.M[set] == nil {
		s.M[set] = map[string][]byte{}
	}
	s.M[set][key] = v
	if s.Record {
		s.Ops = append(s.Ops, Op{Kind: 'S', Set: set, Key: key, Val: v})
	}
	return nil
}

// Delete a blob.
func (s *Store) Delete(ctx context.Context, set, key string) error {
	if err := s.pre('D', set, key); err != nil {
		return err
	}
	delete(s.M[set], key)
	if s.Record {
		s.Ops = append(s.Ops, Op{Kind: 'D', Set: set, Key: key})
	}
	return nil
}

// Clone returns an independent copy of the content (blobs are immutable and shared).
func (s *Store) Clone() *Store {
	d := NewStore()
	for set, m := range s.M {
		n := make(map[string][]byte, len(m))
		for k, v := range m {
			n[k] = v
		}
		d.M[set] = n
	}
	return d
}

// Apply replays a logged mutation.
func (s *Store) Apply(o Op) {
	if o.Err != nil {
		return
	}
	switch o.Kind {
	case 'S':
		if s.M[o.Set] == nil {
			s.M[o.Set] = map[string][]byte{}
		}
		s.M[o.Set][o.Key] = o.Val
	case 'D':
		delete(s.M[o.Set], o.Key)
	}
}

// Mutations of the log.
func (s *Store) Mutations() []Op {
	var r []Op
	for _, o := range s.Ops {
		if o.Kind != 'G' && o.Err == nil {
			r = append(r, o)
		}
	}
	return r
}

// Keys returns all set/key pairs, sorted.
func (s *Store) Keys() []string {
	var r []string
	for set, m := range s.M {
		for k := range m {
			r = append(r, set+"/"+k)
		}
	}
	sort.Strings(r)
	return r
}

// Dump of the log.
func (s *Store) DumpOps() string {
	var sb strings.Builder
	for i, o := range s.Ops {
		fmt.Fprintf(&sb, "%3d %s\n", i, o)
	}
	return sb.String()
}

// Cache is an unbounded (or bounded, FIFO) segment cache. It is only used under the
// cooperative scheduler or from a single goroutine.
type Cache struct {
	M    map[string]any
	Cap  int
	keys []string
	Hits int
	// refuse that many additions (as if evicted at once).
	refuse int
}

// Refuse makes a cache which loses its first n additions and keeps the others.
func Refuse(n int) int { return -n - 100 }

// NewCache returns a cache with the given capacity (0: unbounded, see also Refuse).
func NewCache(cap int) *Cache {
	c := &Cache{M: map[string]any{}, Cap: cap}
	c.Reset()
	return c
}

// Reset empties the cache.
func (c *Cache) Reset() {
	c.M, c.keys = map[string]any{}, nil
	if c.Cap <= -100 {
		c.refuse = -c.Cap - 100
	}
}

func ck(k any) string { return fmt.Sprint(k) }

// Add to cache.
func (c *Cache) Add(key, value interface{}) {
	k := ck(key)
	if c.refuse > 0 {
		c.refuse--
		delete(c.M, k)
		return
	}
	if _, ok := c.M[k]; !ok {
		c.keys = append(c.keys, k)
	}
	c.M[k] = value
	for c.Cap > 0 && len(c.M) > c.Cap {
		delete(c.M, c.keys[0])
		c.keys = c.keys[1:]
	}
}

// Get from cache.
func (c *Cache) Get(key interface{}) (interface{}, bool) {
	v, ok := c.M[ck(key)]
	if ok {
		c.Hits++
	}
	return v, ok
}

// Contains returns whether key is in the cache.
func (c *Cache) Contains(key interface{}) bool { _, ok := c.M[ck(key)]; return ok }

// Remove from the cache.
func (c *Cache) Remove(key interface{}) {
	k := ck(key)
	if _, ok := c.M[k]; !ok {
		return
	}
	delete(c.M, k)
	for i := range c.keys {
		if c.keys[i] == k {
			c.keys = append(c.keys[:i:i], c.keys[i+1:]...)
			break
		}
	}
}
