// Command core has the checks decided in the common world of servers, storage, network and clients.
package main

import (
	_ "verifsim/bdgr"
	"verifsim/check"
	_ "verifsim/pg"
	"verifsim/sim"
)

var real = []string{
	"verifiable (service and clients)", "merkle", "mutator/instant", "mutator/batch", "storage/memory", "storage/bolt and the bbolt engine (bbolt's file access goes to the simulated disk)",
	"server/httprest client and handler (in runs with REST clients)", "server/grpc client and server with grpc-go and TLS underneath (in runs with gRPC clients)", "oracle/policy", "pb",
}
var stub = []string{
	"goroutine scheduling, mutexes, select order, timers and wall clock (simulator)", "disk (simulated, with write cache, torn and lost writes)",
	"network (simulated)", "versioned in-memory transactional storage 'kv' in runs that say so (simulator)", "continusec/objecthash (not available offline; own implementation of its documented algorithm)",
}

const rule = "One run = one seed: it draws a configuration (storage back end, mutator, number of servers and clients, transports, objects, key and value alphabets, fault rates), each client's operations, every scheduling decision and every fault, executes the real code under the simulator and judges the recorded history and final content against an executable reference model."

func world(id string, quick, thorough int, kinds ...string) *check.Prop {
	return &check.Prop{
		ID: id, Kinds: kinds, Quick: quick, Thorough: thorough, Rule: rule, Real: real, Stub: stub,
		Scenarios: []check.Scenario{check.World("world", 1, sim.Profiles[id])},
	}
}

// on adds runs of the property's world with another storage, share in 20 of them.
func on(p *check.Prop, share map[string]int) *check.Prop {
	rest := 20
	for _, st := range []string{"badger", "pg"} {
		if n := share[st]; n > 0 {
			rest -= n
			p.Scenarios = append(p.Scenarios, check.World(st, n, sim.On(st, sim.Profiles[p.ID])))
		}
	}
	p.Scenarios[0].Weight = rest
	p.Real = append(append([]string{}, p.Real...), "storage/badger and the Badger engine on the simulated disk (runs of scenario badger)", "storage/postgres with pgx and its pool (runs of scenario pg)")
	p.Stub = append(append([]string{}, p.Stub...), "the PostgreSQL server (simulated, speaking its wire protocol)", "Badger's table and value log sizes (reduced)")
	return p
}

func main() {
	check.Main(
		on(world("P01", 20000, 250000, "head-size", "head-ahead", "head-root", "fetch-range", "fetch-data", "final-read", "lin", "nil-response", "spurious-error", "cons-proof", "treehead-entry"), map[string]int{"badger": 1, "pg": 1}),
		on(world("P02", 20000, 250000, "dup-entry", "phantom-entry", "entry-data", "ack-lost", "ack-hash", "final-read", "wait-result"), map[string]int{"badger": 1, "pg": 1}),
		on(world("P03", 16000, 250000, "ack-lost", "ack-hash", "lin", "head-size", "head-ahead", "head-root", "fetch-range", "fetch-data", "final-read", "get-size", "get-value", "get-proof", "mhead-size", "mhead-root", "incl-refuse", "incl-proof", "cons-refuse", "cons-proof", "phantom-entry", "entry-data", "mut-entry", "mut-content", "lockstep", "treehead-entry", "treehead-root", "spurious-error", "dup-entry", "nil-response", "fifo"), map[string]int{"badger": 2, "pg": 2}),
		on(world("P04", 10000, 250000, "ack-lost", "ack-hash", "dup-entry", "phantom-entry", "fifo", "mut-content", "mut-entry", "entry-data", "stuck", "hang", "panic", "final-read"), map[string]int{"badger": 1, "pg": 1}),
		world("P05", 20000, 250000, "held", "stuck", "hang", "panic"),
		on(world("P06", 10000, 250000, "incl-refuse", "incl-proof", "cons-refuse", "cons-proof", "spurious-error", "nil-response", "lin", "panic", "vincl", "vincl-accept", "head-root"), map[string]int{"badger": 1, "pg": 1}),
		on(world("P09", 10000, 250000, "get-size", "get-value", "get-extra", "get-proof", "mhead-size", "mhead-root", "treehead-root", "spurious-error", "nil-response", "panic", "lin"), map[string]int{"badger": 1, "pg": 1}),
		on(world("P10", 6000, 150000, "treehead-root", "get-value", "mhead-root", "mut-content", "mut-entry", "trans-request", "phantom-entry"), map[string]int{"badger": 1, "pg": 1}),
		on(world("P11", 10000, 250000, "lockstep", "treehead-entry", "treehead-root", "mhead-root", "mhead-size", "get-size", "get-proof", "get-value", "head-root", "head-ahead", "lin", "mut-entry", "final-read", "spurious-error", "nil-response"), map[string]int{"badger": 2, "pg": 2}),
		on(world("P12", 16000, 250000, "ack-lost", "ack-hash", "phantom-entry", "entry-data", "dup-entry", "nil-response", "fault-notfound", "get-size", "get-value", "get-proof", "head-size", "head-ahead", "head-root", "fetch-range", "fetch-data", "incl-refuse", "incl-proof", "cons-refuse", "cons-proof", "mhead-size", "mhead-root", "panic-fault", "panic", "client-panic", "lin", "spurious-error", "final-read", "stuck", "lockstep", "treehead-entry", "treehead-root", "mut-entry", "mut-content", "wait-result", "follow-result", "audit-calls", "maudit-calls", "vget-result", "vincl-accept"), map[string]int{"badger": 2, "pg": 2}),
		on(world("P13", 10000, 250000, "phantom-entry", "ack-lost", "fetch-range", "fetch-data", "get-size", "get-value", "get-proof", "head-root", "head-ahead", "mhead-root", "treehead-root", "final-read", "spurious-error", "entry-data", "dup-entry", "lin", "nil-response", "trans-request", "mut-content", "lockstep"), map[string]int{"badger": 2, "pg": 2}),
		on(world("P14", 14000, 250000, "lin", "fifo", "spurious-error", "nil-response", "get-size", "get-value", "get-proof", "head-size", "head-ahead", "head-root", "fetch-range", "fetch-data", "incl-refuse", "incl-proof", "cons-refuse", "cons-proof", "mhead-size", "mhead-root", "ack-lost", "treehead-root"), map[string]int{"badger": 2, "pg": 2}),
		world("P16", 10000, 250000, "access-granted", "access-leak", "access-refused", "readonly-write", "phantom-entry", "panic", "trans-kind"),
		world("P17", 10000, 250000, "redaction", "fetch-data", "get-value", "get-proof", "panic", "spurious-error", "nil-response", "entry-data"),
		world("P18", 8000, 200000, "trans-request", "trans-success", "trans-refused", "trans-error", "trans-kind", "trans-twice", "raw-request", "raw-response", "raw-refused", "panic", "client-panic", "stuck", "hang"),
		world("P19", 8000, 150000, "trans-request", "trans-success", "trans-refused", "trans-error", "trans-kind", "trans-twice", "trans-impostor", "panic", "client-panic", "stuck", "hang"),
		world("P20", 9000, 200000, "audit", "audit-calls", "maudit", "maudit-calls", "client-panic", "panic", "hang", "stuck"),
		world("P21", 14000, 200000, "follow", "follow-result", "vincl", "vincl-accept", "vget", "vget-result", "client-panic", "hang"),
		on(world("P23", 8000, 200000, "malformed-accepted", "raw-accepted", "panic", "client-panic", "stuck", "hang", "phantom-entry", "mut-entry", "mut-content", "entry-data", "ack-lost", "readonly-write", "nil-response", "spurious-error", "lockstep", "final-read", "head-size", "head-root", "fetch-range", "incl-refuse", "cons-refuse", "get-size", "get-value", "mhead-size", "mhead-root", "lin"), map[string]int{"badger": 1, "pg": 1}),
		on(world("P22", 10000, 250000, "stuck", "wait", "wait-result", "hang", "panic", "client-panic", "follow-result"), map[string]int{"badger": 1, "pg": 2}),
	)
}
