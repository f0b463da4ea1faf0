//go:build go1.21

package api

import (
	"context"

	"github.com/Vivino/rankdb"
)

// ZZConfig sets the server configuration.
func ZZConfig(jwtPath string, create bool, listen string) {
	config.JwtKeyPath = jwtPath
	config.ListenAddress = listen
	enableJWTCreation = create
	config.LogInfo = false
}

// ZZServe resets the state of the services.
func ZZServe(ctx context.Context, m *rankdb.Manager, c rankdb.Cache, b rankdb.Bucket) {
	bgCtx = ctx
	db = m
	cache = c
	updateBucket = b
	lazySaver = nil
}

// ZZListening resets the listening flag.
func ZZListening() { listening = make(chan struct{}) }
