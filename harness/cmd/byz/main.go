// Command byz has the checks decided by real client code that talks to a lying server.
package main

import (
	"verifsim/check"
)

var real = []string{"verifiable (client side: Log, Map, audits, proof checks)", "merkle", "server/httprest client, and handler in runs with REST clients", "pb"}
var stub = []string{
	"the server: an adversary that holds several versions of every log and map and lies by seeded choice (simulator)",
	"goroutine scheduling, timers and network (simulator)", "continusec/objecthash (not available offline; own implementation of its documented algorithm)",
}

const rule = "One run = one seed: it draws several contradicting versions of a log and a map (forks, missing, repeated and exchanged entries, maps that apply a mutation wrongly), the clients' operations, the schedule, and for every answer whether and how the server lies (another version, rollback, stale or similar answer, tampered or crafted message, damaged HTTP). Everything a client accepts is judged by what the hashes it trusts commit to; what it refuses of an honest answer too."

func prop(id string, maps bool, quick int) *check.Prop {
	return &check.Prop{
		ID: id, Kinds: []string{"byz-head", "byz-inclusion", "byz-consistency", "byz-audit", "byz-state", "byz-value", "byz-refused", "byz-stuck", "client-panic", "hang"}, Quick: quick, Thorough: 30 * quick, Rule: rule, Real: real, Stub: stub,
		Scenarios: []check.Scenario{check.Byz("liar", 1, maps)},
	}
}

func main() {
	check.Main(prop("P07", false, 16000), prop("P08", true, 16000))
}
