// Command stores has the check of the storage back ends by themselves.
package main

import (
	_ "verifsim/bdgr"
	"verifsim/check"
	_ "verifsim/pg"
)

var real = []string{
	"storage/memory", "storage/bolt with bbolt", "storage/badger with badger", "storage/postgres with the pgx driver and its pool",
}
var stub = []string{
	"goroutine scheduling, mutexes, select order, timers and wall clock (simulator)",
	"the disk under bbolt and badger: page cache, sync, power loss, errors (simulator)",
	"the PostgreSQL server and the connections to it (simulator)",
	"badger's default sizes (tables of 256 KiB or 32 KiB instead of 64 MiB, value log files of 256 KiB or 4 KiB instead of 1 GiB)",
}

func main() {
	check.Main(&check.Prop{
		ID: "P15", Quick: 12000, Thorough: 150000, Real: real, Stub: stub,
		Kinds: []string{"txn-read", "txn-dirty", "txn-lost", "txn-failed", "txn-stale", "txn-error", "txn-swallowed", "stuck", "panic", "hang"},
		Rule:  "One run = one seed: it draws the back end, namespaces, keys, clients, each transaction's reads, writes and outcome, every scheduling decision and every fault (crash, power loss, orderly close, disk and database errors, broken connections, cancelled requests), executes the real back end and judges every read and the final content against the serial history that the transactions themselves record.",
		Scenarios: []check.Scenario{
			check.Txns("memory", 1, "mem"), check.Txns("bolt", 3, "bolt"), check.Txns("badger", 3, "badger"), check.Txns("postgres", 3, "pg"),
		},
	})
}
