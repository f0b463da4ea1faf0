//go:build go1.21

package main

import (
	"time"

	"github.com/Vivino/rankdb/zz_verif/h"
)

const seqRule = "all operation sequences up to the depth from each initial list, states merged on (ranked content, segment ranges); every transition is checked against the reference"

var specs = map[string]h.Spec{
	"C01": {Rule: seqRule, Run: c01, Budget: 60 * time.Second},
	"C02": readCheck(4, 6, checkRanks),
	"C03": readCheck(4, 6, checkWindows),
	"C04": readCheck(4, 6, checkScores),
	"C05": readCheck(4, 6, checkPercentiles),
	"C07": {Rule: seqRule, Run: c07, Budget: 60 * time.Second},
	"C28": {Rule: "every program of the grid (services, clients, passing time, shutdown) under all schedules up to the deviation bound; every stored version of the directory is loaded and compared", Run: c28, Budget: 130 * time.Second},
	"C29": {Rule: "every single damage (of a systematic list) of the stored data of every state up to the depth; verification must report it unless the list still behaves like a list, and a repair must keep every readable element", Run: c29, Budget: 120 * time.Second},
	"C12": {Rule: "every program of the grid under all schedules up to the deviation bound; results compared with all sequential orders of the updates", Run: c12, Budget: 140 * time.Second},
	"C13": {Rule: "every program of the grid (maintenance next to use) under all schedules up to the deviation bound; results compared with all sequential orders of the updates", Run: c13, Budget: 140 * time.Second},
	"C21": {Rule: "every float32 value and a grid of float64 values", Run: c21, Budget: 60 * time.Second},
	"C22": {Rule: "every small collection (and the listed large families) times every operation, compared with the naive definition", Run: c22, Budget: 60 * time.Second},
	"C08": {Rule: "all operation sequences (including saving and restarting) up to the depth, reloading compared after each; every cut of the stored directory; all schedules of a save next to other operations up to the deviation bound", Run: c08, Budget: 90 * time.Second},
	"C09": {Rule: "all operation sequences including backup and restore up to the depth; every subset, renaming and destination of a database backup; every proper prefix of a backup", Run: c09, Budget: 90 * time.Second},
	"C18": {Rule: "in every state up to the depth, every operation, every n-th storage call failing (once or from then on, by kind); checked live, after a reload and after a repair", Run: c18, Budget: 200 * time.Second},
	"C19": {Rule: "every prefix of the recorded storage writes of every operation, of directory operations and of concurrent operations; each booted, repaired (directly, after reads, after writes) and checked", Run: c19, Budget: 150 * time.Second},
	"C27": {Rule: "every job of the grid under every fault of the destination and the storage and all schedules up to the deviation bound", Run: c27, Budget: 90 * time.Second},
	"C10": {Rule: "all operation sequences on a list and its clones up to the depth; all schedules of cloning next to other operations up to the deviation bound", Run: c10, Budget: 90 * time.Second},
	"C11": {Rule: "every directory within the bounds in every iteration order, every cursor, page size and query, compared with the naive definition", Run: c11, Budget: 60 * time.Second},
	"C14": {Rule: "every program of the grid under all schedules and timer firings up to the deviation bound; compared with a map at every read and after shutdown", Run: c14, Budget: 90 * time.Second},
	"C15": {Rule: "all operation sequences up to the depth, all sizes, a fault at every store call, all schedules up to the deviation bound; compared with an unlimited store", Run: c15, Budget: 90 * time.Second},
	"C16": {Rule: "every pattern of attempt outcomes up to the length times every configuration, every cancellation point; compared with the documented attempt count and error", Run: c16, Budget: 90 * time.Second},
	"C17": {Rule: "every pair of names, every boundary size, all operation sequences with every pattern of reopening, every fill level of the write queue, all schedules up to the deviation bound; compared with a map", Run: c17, Budget: 120 * time.Second},
	"C20": {Rule: "every listed value of every type through every codec, every truncation, every version byte", Run: c20, Budget: 60 * time.Second},
	"C26": {Rule: "all schedules with at most the stated number of deviations", Run: c26, Budget: 60 * time.Second},
	"C32": {Rule: "all operation sequences up to the depth, statistics compared with content and with the lookups the cache has seen in every state; all sequences of calls on a write cache up to the depth, statistics compared with what was called and what reached the storage", Run: c32, Budget: 60 * time.Second},
	"C06": {Rule: seqRule, Run: c06, Budget: 60 * time.Second},
}

func main() { h.Main(specs) }
