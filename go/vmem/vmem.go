//go:build go1.21

// Package vmem stands in for the constructors of stores in the server.
package vmem

import (
	"context"

	"github.com/Vivino/rankdb/blobstore/badgerstore"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/Vivino/rankdb/zz_verif/vsched"
	"github.com/dgraph-io/badger"
)

// Mem is the store that outlives a restart of the server.
var Mem *memstore.MemBlobStore

// BadgerOpened is called with the options of Badger stores.
var BadgerOpened func(o badger.Options) badger.Options

// Process counts the processes: stores of earlier ones are not reached any more.
var Process int

// NewMemStore returns the kept store.
func NewMemStore() *Kept {
	if Mem == nil {
		Mem = memstore.NewMemStore()
	}
	return &Kept{MemBlobStore: Mem, process: Process}
}

// Kept is the store as seen by one process.
type Kept struct {
	*memstore.MemBlobStore
	process int
}

func (k *Kept) alive() {
	if k.process != Process {
		vsched.Block("the process has ended", func() bool { return false })
	}
}

// Get a blob.
func (k *Kept) Get(ctx context.Context, set, key string) ([]byte, error) {
	k.alive()
	return k.MemBlobStore.Get(ctx, set, key)
}

// Set a blob.
func (k *Kept) Set(ctx context.Context, set, key string, val []byte) error {
	k.alive()
	return k.MemBlobStore.Set(ctx, set, key, val)
}

// Delete a blob.
func (k *Kept) Delete(ctx context.Context, set, key string) error {
	k.alive()
	return k.MemBlobStore.Delete(ctx, set, key)
}

// New opens a Badger store.
func New(o badger.Options) (*badgerstore.BadgerStore, error) {
	if BadgerOpened != nil {
		o = BadgerOpened(o)
	}
	return badgerstore.New(o)
}
