#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept next to the statements so that they are easy to edit)."""
import json, os
V='verifiable/'
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TESTS="The only tests that run are four bit-path unit tests; the integration tests drive one client, one namespace and a few fixed sizes with no faults."
p("P01","A log is one append-only sequence: every tree head ever served commits to it",
 "For every log (user log, map mutation log, map tree-head log) there is one sequence of entries that only ever grows at the end: an entry once served at an index is served there for ever, unchanged. Every tree head ever served for size n is the RFC 6962 Merkle tree hash of exactly the first n entries of that sequence, so any two heads served at any time to any client are consistent.",
 ["histories","schedules","inputs"],"every history of adds, map mutations and reads by concurrent clients, every log size, every storage back end and both mutators",
 TESTS+" Heads at every size of every history, and heads served while writers are active, are not reachable by a sample.",
 [V+"insertion_log.go",V+"service_log_tree_hash.go",V+"service_log_fetch_entries.go",V+"util_service_data.go"],
 [("root hash per size is computed from stored subtree hashes","verifiable/insertion_log.go addEntryToLog/writeOutLogTreeNodes"),("size and root read in one read transaction","verifiable/util_service_data.go lookupLogTreeHead")],
 ["log tree head responses","log entry fetch responses"],
 [("object size","number of sequenced entries","verifiable/util_service_data.go objSizeKey")])
p("P02","Resubmitted log entries are sequenced exactly once; distinct ones never merged",
 "However often, however concurrently and through however many retries, duplicated messages, batches or restarts the same entry is submitted to a log, it occupies exactly one index; and every distinct entry that was accepted occupies its own index with the data that was submitted for it. Nothing that no client submitted ever appears in a log.",
 ["histories","schedules","fault_sequences"],"every history of submissions with duplicates, message duplication, lost responses, retries, crashes and restarts, in every batching configuration",
 TESTS+" Duplicates inside one batch, across batches, across a crash or racing each other are never exercised.",
 [V+"insertion_log.go","mutator/batch/mutator_batch.go","mutator/instant/mutator_instant.go"],
 [("leaf-hash index lookup compared with the current size","verifiable/insertion_log.go addEntryToLog"),("batch overlay reads see writes of the same batch","mutator/batch/mutator_batch.go mapNoLockDB")],
 ["entries of the final log","inclusion proofs by leaf hash"])
p("P03","With the synchronous mutator, acknowledged writes survive any crash",
 "When the server uses the synchronous mutator on durable storage, every log entry and map mutation that was acknowledged to a client is present, at the position it was first visible at, after any later process crash, power loss or restart. A write that was in progress at the crash is either entirely present or entirely absent, and every tree head served before the crash is still served and still proves afterwards.",
 ["crash_points","histories","fault_sequences"],"every crash point inside and between storage operations, every subset of un-synced disk writes surviving (including torn ones), every workload, repeated crashes",
 TESTS+" No test restarts a server, and none can lose un-synced disk writes.",
 ["mutator/instant/mutator_instant.go","storage/bolt/storage_bolt.go",V+"insertion_log.go",V+"insertion_map.go"],
 [("mutation applied in one storage transaction before the reply","mutator/instant/mutator_instant.go QueueMutation"),("bolt transaction with fsync","storage/bolt/storage_bolt.go ExecuteUpdate")],
 ["all read operations after restart"],hook="block device under the bolt file (simulated disk in an instrumented copy of bbolt built by the check)")
p("P04","The batching mutator sequences every accepted mutation exactly once, in order",
 "When the server uses the batching mutator, every mutation it accepted is eventually sequenced exactly once in the log or map it was submitted to and in no other, whatever the batch size, buffer size, timeout and mixture of target logs and maps, as long as the server keeps running. Mutations accepted one after the other for the same log or map are sequenced in that order.",
 ["schedules","configurations","histories"],"every interleaving of submissions to any number of logs and maps by concurrent clients with the background writer and its timer, and every batch size, buffer size and timeout",
 TESTS+" The batching mutator is driven by no test at all with more than one namespace.",
 ["mutator/batch/mutator_batch.go"],
 [("single consumer goroutine over a channel","mutator/batch/mutator_batch.go consume/handleBatch"),("carry-over of the first item of the next namespace","mutator/batch/mutator_batch.go handleBatch")],
 ["entries of the final log","map values"])
p("P05","Batched mutations become visible within the configured holding time",
 "The batching mutator holds an accepted mutation no longer than the configured timeout once it has started a batch with it (or until the batch is full, whichever is first) before writing it out, however much other traffic arrives in the meantime. After that, as soon as storage answers, the mutation is visible to every reader.",
 ["schedules","configurations","histories"],"every arrival pattern, including steady traffic with gaps just below the timeout, and every batch size, buffer size and timeout",
 TESTS+" No test controls time or sends steady traffic.",
 ["mutator/batch/mutator_batch.go"],
 [("timer in the batch loop","mutator/batch/mutator_batch.go handleBatch")],
 ["simulated time between accept and visibility"])
p("P06","Every valid proof request is answered with a proof that verifies, at any time",
 "For every log type, every tree size n up to the current size, every leaf below n (by index or by hash) and every pair of sizes m < n, the server returns an inclusion or consistency proof that verifies against the tree heads for those sizes, also while writers are adding entries. A request outside these ranges is refused and never answered with a proof.",
 ["inputs","schedules","histories"],"every size, index and pair of sizes of every log reached by any history, asked at any point of any interleaving with writers",
 TESTS+" They sample some sizes of a quiescent log.",
 [V+"service_log_inclusion_proof.go",V+"service_log_consistency_proof.go",V+"util_fetch_proofs.go","merkle/util_merkle.go"],
 [("proof ranges from RFC 6962 PATH and SUBPROOF","merkle/util_merkle.go Path/SubProof"),("recomputation of partial subtrees","verifiable/util_fetch_proofs.go calcSubTreeHash")],
 ["inclusion proof responses","consistency proof responses"])
p("P07","A log client never accepts anything a misbehaving server made up",
 "A client that verifies (inclusion, consistency, latest head, supplied proof, full entry audit) against a server that lies, forks, rolls back, truncates, reorders or corrupts its answers never accepts an entry, an entry list or a newer head that contradicts a head it trusts, and never gets a verified result of a smaller or different tree than the one it asked for. Every such attempt ends in an error, never in a crash of the client.",
 ["inputs","histories","fault_sequences"],"every sequence of answers of a Byzantine server: tampered, stale, forked, mixed, malformed or truncated, for every tree size and every trusted starting point",
 TESTS+" Tests only ever talk to an honest server over a faultless transport.",
 [V+"api_highlevel_log.go",V+"service_log_inclusion_proof.go",V+"service_log_consistency_proof.go"],
 [("proof verification","verifiable/service_log_inclusion_proof.go VerifyLogInclusionProof, verifiable/service_log_consistency_proof.go VerifyLogConsistencyProof"),("running Merkle stack over fetched entries","verifiable/api_highlevel_log.go VerifyEntries")],
 ["results of the verifying client calls"])
p("P08","A map client never accepts a value, state or history the map does not have",
 "A client that verifies map reads, map states or a whole map against a lying, forking, rolling back or corrupting server never accepts a value (or absence) other than the one the trusted map root commits to, never accepts a map state inconsistent with its previous one, and never passes an audit of a map whose published roots differ from replaying its mutations. Every such attempt ends in an error, never in a crash of the client.",
 ["inputs","histories","fault_sequences"],"every sequence of answers of a Byzantine map server, including one whose logs are perfectly consistent but whose map applies some mutation wrongly at some point",
 TESTS+" Tests only ever talk to an honest server.",
 [V+"api_highlevel_map.go",V+"util_map_audit.go",V+"service_map_get_value.go"],
 [("map proof verification","verifiable/service_map_get_value.go VerifyMapInclusionProof"),("in-memory replay of mutations","verifiable/util_map_audit.go")],
 ["results of verified get, verified map state, map audit"])
p("P09","A map at size n is the replay of its first n mutations, for ever",
 "For every n up to the current size, the value returned for any key at size n is the one obtained by applying the first n entries of the mutation log (set, delete, conditional update) in order to an empty map; the root hash at n is the root of the sparse Merkle tree over exactly those values; and the returned (non-)inclusion proof verifies against that root. States of earlier sizes never change as later mutations are applied.",
 ["histories","inputs","schedules"],"every history of mutations over any keys (including keys sharing long hash prefixes, re-created keys, empty values, no-op mutations), every size and key read at any later time",
 TESTS+" One scripted set of keys, read back once.",
 [V+"insertion_map.go",V+"service_map_get_value.go",V+"service_map_tree_hash.go",V+"util_fetch_proofs.go",V+"util_path.go"],
 [("copy-on-write sparse tree keyed by mutation number","verifiable/insertion_map.go setMapValue/writeAncestors"),("proof construction along the path","verifiable/service_map_get_value.go")],
 ["map get responses","map tree head responses"])
p("P10","Conditional updates are compare-and-swap against the state they are sequenced on",
 "A conditional update changes the key if and only if the stated previous value is the key's value in the state produced by all mutations sequenced before it, whatever races, duplicates, retries, batches and transports were involved; otherwise it changes nothing. In particular of several updates naming the same previous value at most one takes effect, and no update is ever turned into an unconditional write.",
 ["schedules","histories","fault_sequences"],"every interleaving of racing conditional updates, sets and deletes of the same keys by several clients, with duplicated and retried requests, over every transport",
 TESTS+" Updates are only issued by one client with no race.",
 [V+"insertion_map.go","server/httprest/server_http_handler.go","server/httprest/client_http_rest.go"],
 [("previous value compared at the time the mutation is applied","verifiable/insertion_map.go mutationLeafHash"),("previous hash carried in a header","server/httprest/server_http_handler.go setMapEntry")],
 ["map values after the race","mutation log"])
p("P11","A map, its mutation log and its tree-head log always advance together",
 "At every moment, in every state any reader or a restarted server can observe, the mutation log, the tree-head log and the map have the same size n, and the i-th entry of the tree-head log states exactly the map root and the mutation log head for size i+1. No crash, storage error or concurrent reader ever sees one of the three ahead of the others.",
 ["crash_points","schedules","fault_sequences"],"every interleaving of readers with mutations and every storage error or crash point inside a mutation",
 TESTS+" Nothing is injected between the three writes.",
 [V+"insertion_log.go",V+"insertion_map.go","mutator/batch/mutator_batch.go"],
 [("one size counter written once at the end of the transaction","mutator/instant/mutator_instant.go, mutator/batch/mutator_batch.go"),("order of the three steps","verifiable/insertion_log.go applyLogAddEntry")],
 ["tree heads of the three structures","entries of the tree-head log"])
p("P12","Storage failures surface as errors and never as success or fabricated data",
 "If storage fails during an operation, the operation reports an error; it never reports success for a write that was not committed, never returns an empty, partial or default answer in place of the data it could not read, and never treats an unreadable record as a missing one. What was committed before the failure stays intact and the server keeps serving correctly once storage works again (the background batch writer, which has nobody to report to, may stop the server instead).",
 ["fault_sequences","inputs","histories"],"every placement of a failing read, write, begin or commit (before or after taking effect) in any operation of any history",
 TESTS+" No test makes storage fail.",
 [V+"service_map_tree_hash.go",V+"util_fetch_proofs.go",V+"util_service_data.go","storage/badger/storage_badger.go","storage/postgres/storage-postgres.go"],
 [("error propagation out of transactions","all service operations"),("missing key distinguished from failure","storage adapters Get")],
 ["results of every operation while storage fails and after"])
p("P13","Logs and maps are isolated from one another",
 "What is done to one log or map, identified by account, kind and name, never changes or becomes visible in another: equal names in different accounts, a log and a map of the same name, and names that look alike when concatenated are all distinct objects. An object that was never written reads as empty.",
 ["histories","inputs","schedules"],"every interleaved history over any set of objects with equal, similar or adversarial names on one server, in every batching configuration and storage back end",
 TESTS+" Tests use one or two objects at a time.",
 [V+"util_service_data.go","mutator/batch/mutator_batch.go","storage/postgres/storage-postgres.go","storage/bolt/storage_bolt.go"],
 [("namespace is a hash over account, name and type","verifiable/util_service_data.go logBucket/mapBucket"),("one file or table per namespace","storage adapters")],
 ["all read operations on every object"])
p("P14","With the synchronous mutator every operation is linearizable",
 "With the synchronous mutator each operation appears to take effect atomically at one instant between its invocation and its response: a client that was told its write succeeded, and everyone it tells, sees the write in every later read, sizes never go backwards, and each response reflects one single committed state. With the batching mutator the same holds for reads among themselves.",
 ["schedules","histories"],"every interleaving of concurrent reads and writes of several clients at the granularity of storage and lock operations",
 TESTS+" All tests are sequential.",
 ["mutator/instant/mutator_instant.go",V+"util_service_data.go","storage/memory/storage_memory.go","storage/bolt/storage_bolt.go"],
 [("one read transaction per read","verifiable service operations"),("single-writer transactions","storage adapters")],
 ["recorded concurrent history"])
p("P15","Every storage back end gives atomic, isolated, durable transactions",
 "Each storage back end runs update transactions one at a time per namespace, shows readers a single committed snapshot, makes all writes of a successful transaction visible and durable and (except for the back end documented as not doing so) none of a failed one, and reports a key as missing only when it is. Opening a namespace concurrently, closing and reopening it, or using many namespaces does not change this.",
 ["schedules","crash_points","fault_sequences"],"every interleaving of transactions over several namespaces, every failing transaction, crash and reopen",
 TESTS+" Back ends are only exercised indirectly and sequentially.",
 ["storage/memory/storage_memory.go","storage/bolt/storage_bolt.go","storage/badger/storage_badger.go","storage/postgres/storage-postgres.go"],
 [("native transactions of the underlying store","storage/*"),("double-checked creation of the per-namespace database","storage/bolt, storage/badger getOrCreateDB")],
 ["reads and writes through the storage interface"])
p("P16","Access policy is enforced on every operation, object and transport",
 "An operation for which the configured policy does not grant the presented key the needed permission on the named object is refused, whatever transport carried it, has no effect on any state and reveals nothing but the refusal; reading mutation entries, tree heads and values are separate permissions. An operation that is granted is never refused.",
 ["inputs","histories","configurations"],"every policy, every key, object and operation, interleaved with the operations of other users, over each transport (keys are tokens without white space)",
 TESTS+" They check a handful of fixed combinations on a quiescent server.",
 [V+"util_permissions.go","oracle/policy/authorization_static.go","server/httprest/server_http_handler.go"],
 [("permission table per log type and operation","verifiable/util_permissions.go"),("first-match policy","oracle/policy/authorization_static.go"),("API key from header","server/httprest/server_http_handler.go apiKeyFromRequest")],
 ["results and effects of all operations by restricted users"])
p("P17","Field-restricted readers never see hidden fields, yet what they read verifies",
 "A reader whose access is limited to some fields receives log entries, map values and mutation entries in which every other field is redacted, for every way of reading them and whatever else happens on the server, and what it receives still hashes to the leaf that is in the tree. Readers with access to all fields receive exactly what was stored.",
 ["inputs","histories","configurations"],"every stored JSON entry, every field restriction, every read path (entries, values, mutation entries including deletions) and interleaving with unrestricted readers",
 TESTS+" One fixed document and filter is read.",
 [V+"util_permissions.go",V+"util_json.go",V+"service_log_fetch_entries.go",V+"service_map_get_value.go"],
 [("filter applied on the read path","verifiable/util_permissions.go filterLeafData")],
 ["entries and values returned to restricted readers"])
p("P18","The REST transport neither changes the meaning nor the outcome of any operation",
 "Every operation issued through the REST client against the REST server has the same effect on the stored state and returns the same data, or the same kind of failure, as the same operation made directly on the service, for every legal name, key, value, size and conditional update, in each of the formats of the interface. No write is executed more often than it was sent, and a lost, truncated, non-JSON or error response is always reported as an error, never as success or different data.",
 ["inputs","fault_sequences","histories"],"every operation and argument expressible over REST, and every loss, duplication, truncation or corruption of requests and responses",
 TESTS+" One transport run of a scripted scenario with no faults.",
 ["server/httprest/server_http_handler.go","server/httprest/client_http_rest.go"],
 [("URL, header and JSON encoding of operations","server/httprest"),("status code mapping","server/httprest writeResponseHeader / makeRequest")],
 ["client results, server-side requests and final state"])
p("P19","The gRPC transport neither changes the meaning nor the outcome of any operation",
 "Every operation issued through the gRPC client against the gRPC server has the same effect on the stored state and returns the same data, or the same kind of failure, as the same operation made directly on the service, whatever bytes the names, keys and values consist of (within gRPC's message size limit). No map update is executed more often than it was sent. A broken connection or lost response is always reported as an error and never as a success or as different data. A client that was given a certificate talks to no server that presents a different one.",
 ["inputs","fault_sequences","histories"],"every operation and argument, concurrent clients, and connections broken at any point of a request or response",
 TESTS+" One scripted scenario with no faults.",
 ["server/grpc/server_grpc.go","server/grpc/client_grpc.go"],
 [("thin wrapper over generated stubs","server/grpc/client_grpc.go"),("server registration","server/grpc/server_grpc.go")],
 ["client results, server-side requests and final state"],hook="listener and dialer of the gRPC server and client (replaced at build time through an overlay)")
p("P20","Audits of an honest server succeed, see each entry once, report each change",
 "Auditing an honest log or map between any two of its states succeeds, also while other clients keep writing, and hands every entry in the range to the auditor's callback exactly once, in order and with its index. A map audit calls the change callback exactly for the mutations that changed the map, with the key and value of each, and for no others.",
 ["histories","schedules","inputs"],"every history of mutations (including no-ops, reverted values and deletions), every pair of audited states, every log size relative to the fetch batch size, with concurrent writers",
 TESTS+" One audit of one small quiescent map.",
 [V+"api_highlevel_log.go",V+"api_highlevel_map.go",V+"util_map_audit.go"],
 [("batched entry fetch","verifiable/api_highlevel_wrapper.go Entries"),("incremental map replay","verifiable/util_map_audit.go ProcessUntilAtLeast")],
 ["audit results and callbacks"])
p("P21","A verifying client's view only ever moves forward, even across lagging servers",
 "A client that follows a log or map by repeatedly asking for the latest verified head, from servers that may lag behind one another, have restarted or answer out of order, from the first non-empty one on obtains heads that never move backwards and are pairwise consistent. While the servers are honest it succeeds whenever the server it asks has caught up with what it saw before; otherwise it may get an error, its view unchanged. What it verified against an older head is still verifiable against a newer one.",
 ["schedules","histories","fault_sequences"],"every sequence of answers from honest replicas at arbitrary, changing lags, restarts, and any interleaving with writers",
 TESTS+" There is one server and one head in tests.",
 [V+"api_highlevel_log.go",V+"api_highlevel_map.go"],
 [("older heads are checked for consistency and ignored","verifiable/api_highlevel_log.go VerifiedLatestTreeHead, verifiable/api_highlevel_map.go VerifiedLatestMapState")],
 ["heads and map states returned to clients"])
p("P22","Once faults stop every pending operation and promise completes",
 "After faults stop, every operation completes within a bounded time, concurrent readers, writers, first uses of a namespace and the batch writer never block one another for ever, and waiting for an accepted addition returns a head that provably includes it. Every head or map state returned by such a wait verifies.",
 ["schedules","fault_sequences","configurations"],"every interleaving at lock, channel, timer and storage operations, every fault sequence that ends, every batching configuration",
 TESTS+" Deadlocks and lost wake-ups need schedules tests do not control.",
 ["mutator/batch/mutator_batch.go","storage/memory/storage_memory.go","storage/bolt/storage_bolt.go",V+"api_highlevel_log.go",V+"api_highlevel_map.go"],
 [("channel hand-off and timer in the batch loop","mutator/batch/mutator_batch.go"),("polling with back-off","verifiable/api_highlevel_log.go BlockUntilPresent")],
 ["completion of every operation in simulated time"])
p("P23","Malformed requests are refused and disturb nobody",
 "Any request a client can send, however malformed (missing parts, unknown kinds of action or log, out-of-range numbers, undecodable bodies or headers), is answered with an error, never with success, and neither stops the server nor the background writer nor changes any state. Requests of other clients in flight at the time are unaffected.",
 ["inputs","histories","schedules"],"every structurally possible request over every transport, in every server state and configuration, interleaved with other clients",
 TESTS+" Tests send well-formed requests.",
 [V+"service_map_set_value.go",V+"service_log_add_entry.go",V+"insertion_map.go","mutator/batch/mutator_batch.go","server/httprest/server_http_handler.go"],
 [("argument checks of the service operations","verifiable/service_*.go")],
 ["responses to malformed requests, liveness and state afterwards"])
p("P24","Several servers sharing one database behave as one server",
 "Any number of server processes, with either mutator, sharing one relational database produce, for each log and map, a single append-only sequence in which every acknowledged addition of every server appears exactly once (an addition that a batching server has queued and not yet written may be lost when that server dies), and each server's answers are consistent with it. This holds under concurrent first use of a name, failed statements, dropped database connections and crashes of any server.",
 ["schedules","fault_sequences","crash_points"],"every interleaving of statements of concurrent transactions from several servers, with statement errors, connection loss and server crashes at any statement",
 TESTS+" No test touches the relational back end.",
 ["storage/postgres/storage-postgres.go"],
 [("explicit table lock per update transaction","storage/postgres/storage-postgres.go ExecuteUpdate"),("one table per namespace","storage/postgres/storage-postgres.go getOrCreateNS")],
 ["all operations through every server"])
p("P25","Binary key-path arithmetic is exact for every length up to 256 bits",
 "Slicing, joining and indexing of binary paths agree with the same operations on lists of bits for every path up to 256 bits.",
 ["inputs"],"every pair of paths and every index range",
 "The existing unit tests sample a few lengths.",
 [V+"util_path.go"],[("bit-wise copy","verifiable/util_path.go")],["return values"])
p("P26","Object hashes of JSON documents are canonical and survive redaction",
 "Two JSON documents that are equal as values have the same object hash, unequal ones have different hashes, and replacing any redactable field by its redacted form leaves the hash unchanged.",
 ["inputs"],"every pair of JSON documents and every set of redacted fields",
 "The existing tests hash a few documents.",
 [V+"util_json.go"],[("external object hash library","verifiable/util_json.go")],["return values"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
