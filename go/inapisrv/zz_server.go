//go:build go1.21

package api

import (
	"reflect"

	"github.com/Vivino/rankdb"
)

// ZZReset brings everything to the state of a new process.
func ZZReset() {
	reflect.ValueOf(&config).Elem().SetZero()
	db, cache, lazySaver, updateBucket, bgCtx = nil, nil, nil, nil, nil
	listening = make(chan struct{})
	shutdownStarted = make(chan struct{})
	enableJWT, enableJWTCreation = false, false
}

// ZZDB returns the lists of the server.
func ZZDB() *rankdb.Manager { return db }
