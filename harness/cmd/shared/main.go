// Command shared has the check of several servers that share a PostgreSQL database.
package main

import (
	"verifsim/check"
	_ "verifsim/pg"
	"verifsim/sim"
)

var real = []string{
	"verifiable (service)", "merkle", "mutator/instant", "mutator/batch", "storage/postgres", "the pgx driver and its pool", "oracle/policy", "pb",
}
var stub = []string{
	"goroutine scheduling, mutexes, select order, timers and wall clock (simulator)",
	"the PostgreSQL server: wire protocol, transactions, isolation levels, table, row and advisory locks and deadlock detection (simulator)",
	"network (simulated)", "continusec/objecthash (not available offline; own implementation of its documented algorithm)",
}

func main() {
	check.Main(&check.Prop{
		ID: "P24", Quick: 6000, Thorough: 100000, Real: real, Stub: stub,
		Kinds:     []string{"ack-lost", "ack-hash", "dup-entry", "phantom-entry", "entry-data", "head-size", "head-ahead", "head-root", "fetch-range", "fetch-data", "incl-refuse", "incl-proof", "cons-refuse", "cons-proof", "get-size", "get-value", "get-proof", "mhead-size", "mhead-root", "lin", "lockstep", "treehead-entry", "treehead-root", "mut-entry", "mut-content", "final-read", "nil-response", "spurious-error", "panic", "stuck", "hang"},
		Rule:      "One run = one seed: it draws how many servers share the database, their mutator, the clients and their operations, the fault rates, every scheduling decision (each message between a server and the database is a scheduling point) and every fault, executes the real service, storage and driver against the simulated database and judges the recorded history and final content against an executable reference model.",
		Scenarios: []check.Scenario{check.World("shared database", 1, sim.Profiles["P24"])},
	})
}
