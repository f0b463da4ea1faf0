//go:build go1.21

// Command vhapi runs the checks of the HTTP API on the instrumented server.
package main

import (
	"time"

	"github.com/Vivino/rankdb/zz_verif/h"
)

var specs = map[string]h.Spec{
	"C23": {Rule: "every endpoint request times every token, scope set, list and element restriction; answer, effect and refusal compared with a server without token security", Run: c23, Budget: 90 * time.Second},
	"C24": {Rule: "every request sequence up to the depth, every read after every state; every concurrent program under all schedules up to the deviation bound, compared with all sequential orders", Run: c24, Budget: 90 * time.Second},
	"C25": {Rule: "every multi-list endpoint times every selection by ID, metadata and sets, over healthy and unreadable lists; compared with the single-list operation", Run: c25, Budget: 90 * time.Second},
	"C31": {Rule: "every route of a backup from one server to another (destination, source, prefix, suffix, keep, selection), alone and in pairs; truncation at every position, unusable destinations and sources; server to server under all schedules up to the deviation bound", Run: c31, Budget: 90 * time.Second},
}

func main() { h.Main(specs) }
