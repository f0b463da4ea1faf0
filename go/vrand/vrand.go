//go:build go1.21

// Package vrand mirrors crypto/rand; deterministic inside controlled executions.
package vrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/Vivino/rankdb/zz_verif/vsched"
)

var (
	ep  uint64
	ctr uint64
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

// Reader mirrors rand.Reader.
var Reader io.Reader = reader{}

// Read fills b. Within an execution it is a deterministic counter based stream
// (all values distinct, so generated IDs never collide).
func Read(b []byte) (int, error) {
	id := vsched.ExecID()
	if id == 0 {
		return rand.Read(b)
	}
	if ep != id {
		ep, ctr = id, 0
	}
	ctr++
	c := ctr
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(c % 62)
		c /= 62
	}
	return len(b), nil
}

// Int mirrors rand.Int.
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }

// Prime mirrors rand.Prime.
func Prime(r io.Reader, bits int) (*big.Int, error) { return rand.Prime(r, bits) }

// Text mirrors rand.Text.
func Text() string { return rand.Text() }
