#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = "verifiable/"
NOTEST = "The only tests that run here cover four path helpers; "

prop("C01", "Log root hash equals the RFC 6962 tree hash at every size",
 "For any sequence of entries sequenced into a log, the root hash reported for every tree size from 1 to the current head equals the RFC 6962 Merkle Tree Hash (SHA-256) of the first that-many leaf inputs in order, and asking for size 0 reports the current size and its root. This also holds for a map's mutation log and tree head log, and once reported the root for a size never changes.",
 ["inputs", "histories"], "All sequences of leaf inputs (any length and content, duplicates included) and all tree sizes up to the head, on user, mutation and tree head logs.",
 NOTEST + "the repository's own log tests sample a few fixed entries, while errors in incremental subtree hashing show only at particular sizes.",
 [V+"insertion_log.go", V+"service_log_tree_hash.go", V+"util_service_data.go", "merkle/util_merkle.go"],
 [("incremental hash stack and subtree node writes", V+"insertion_log.go addEntryToLog/writeOutLogTreeNodes"), ("root hash by size", V+"util_service_data.go")],
 ["LogTreeHash responses"])

prop("C02", "Logs are append-only, de-duplicated, and read back exactly",
 "Adding a leaf input that is not yet in the log appends exactly one entry at the end, adding one that is already there changes nothing, and every accepted add is acknowledged with the RFC 6962 leaf hash of its leaf input. Fetching any range inside the log - by single entry, by range, to head, or streamed - returns exactly the entries at those positions, in order, with the leaf input, extra data and format first submitted for them, and no entry ever changes, moves or disappears afterwards. A stream ends when its context does.",
 ["inputs", "histories"], "All histories of adds (distinct, repeated, same leaf input with different extra data, any size of data) interleaved with all ranges read, including streams longer than one fetch batch.",
 NOTEST + "an append-only promise quantifies over every later history and every range, not the few entries a test re-reads.",
 [V+"insertion_log.go", V+"service_log_add_entry.go", V+"service_log_fetch_entries.go", V+"api_highlevel_wrapper.go"],
 [("duplicate look-up by leaf hash", V+"insertion_log.go addEntryToLog"), ("range read", V+"service_log_fetch_entries.go"), ("batched streaming", V+"api_highlevel_wrapper.go Entries")],
 ["LogAddEntry", "LogFetchEntries", "Log.Entry", "Log.Entries"])

prop("C03", "Every log entry has a verifying inclusion proof at every covering size",
 "For every entry of a log and every tree size that covers it, the inclusion proof requested by leaf hash or by index names the right index and tree size, carries exactly the RFC 6962 audit path, and verifies against the root hash for that size; size 0 means the current head. A proof for a leaf hash that is not in the log is answered with not found.",
 ["inputs", "histories"], "All logs (sizes around and between powers of two), all (index, tree size) pairs, by hash and by index, on all three log types.",
 NOTEST + "missing or mis-ordered subtree nodes appear only for particular (index, size) combinations.",
 [V+"service_log_inclusion_proof.go", V+"util_fetch_proofs.go", "merkle/util_merkle.go", V+"api_highlevel_log.go"],
 [("path computation", "merkle/util_merkle.go Path"), ("stored and recomputed subtree hashes", V+"util_fetch_proofs.go"), ("client verification", V+"service_log_inclusion_proof.go VerifyLogInclusionProof")],
 ["LogInclusionProof", "Log.VerifyInclusion"])

prop("C04", "Any two sizes of a log are connected by a verifying consistency proof",
 "For every pair of sizes 0 < m < n within a log, the consistency proof returned names those sizes, carries exactly the RFC 6962 consistency path, and verifies against the two root hashes; n = 0 means the current head. The client's consistency check accepts any two honest tree heads of one log in either order, and equal ones.",
 ["inputs", "histories"], "All pairs of sizes over logs of any length, all log types.",
 NOTEST + "which stored nodes a consistency proof needs depends on both sizes, so a sample of pairs cannot cover it.",
 [V+"service_log_consistency_proof.go", V+"util_fetch_proofs.go", "merkle/util_merkle.go", V+"api_highlevel_log.go"],
 [("subproof computation", "merkle/util_merkle.go SubProof"), ("client verification", V+"service_log_consistency_proof.go VerifyLogConsistencyProof")],
 ["LogConsistencyProof", "Log.VerifyConsistency"])

prop("C05", "Log proof verification accepts exactly the proofs RFC 9162 accepts",
 "Verifying a log inclusion or consistency proof succeeds exactly when the RFC 9162 verification algorithm succeeds on the same proof, sizes, index and hashes (which have 32 bytes: a proof with any other is rejected), so a proof that is altered, truncated, extended or applied to another leaf, index, size or root is rejected. Verification of any proof and tree head, however malformed, returns rather than crashing or hanging.",
 ["inputs"], "All proofs, tree heads and leaf hashes: genuine, mutated genuine, and arbitrary (negative and huge sizes, empty and odd-length hashes).",
 NOTEST + "soundness quantifies over all forged proofs; no test supplies a forged one.",
 [V+"service_log_inclusion_proof.go", V+"service_log_consistency_proof.go", "merkle/util_merkle.go"],
 [("inclusion verification", V+"service_log_inclusion_proof.go VerifyLogInclusionProof"), ("consistency verification", V+"service_log_consistency_proof.go VerifyLogConsistencyProof")],
 ["VerifyLogInclusionProof", "VerifyLogConsistencyProof"])

prop("C06", "A map read at any size equals replaying its mutations to that size",
 "Reading a key at tree size n returns the value (the leaf input, with the extra data and format first stored with that leaf input in this map) produced by replaying the first n mutations in order: set stores, delete or setting an empty leaf input clears, and a conditional update stores only if the leaf hash of the key's current value equals the previous leaf hash supplied (an absent key having the hash of the empty leaf). Reads at old sizes keep giving the same answer whatever happens later; size 0 reads the current head and names its size.",
 ["inputs", "histories"], "All mutation histories over any keys and values (keys with long common hash prefixes included) and all (key, size) reads, past and present.",
 NOTEST + "the stored tree is a versioned compressed trie whose split, collapse and stub cases depend on key-hash prefixes and history.",
 [V+"insertion_map.go", V+"service_map_get_value.go", V+"service_map_set_value.go", V+"util_service_data.go"],
 [("descend, split, write ancestors", V+"insertion_map.go setMapValue"), ("versioned node look-up", V+"util_service_data.go lookupMapHash")],
 ["MapGetValue", "Map.Get"])

prop("C07", "Map root hash is the sparse Merkle root of its current contents",
 "At every tree size the map root hash equals the root of the 256-level sparse Merkle tree (keys placed by SHA-256 of the key, empty positions holding the hash of the empty leaf) over exactly the key/value pairs present after that many mutations, so it does not depend on the order or history that led there. The map head also carries that size and the mutation log root for that size; an empty map reports size 0 with the empty-tree root.",
 ["inputs", "histories"], "All mutation histories and all sizes, with keys sharing long hash prefixes, deletes, re-sets and no-op mutations.",
 NOTEST + "a table of fixed insertions cannot cover deletes, conditional updates and deep prefix splits at every version.",
 [V+"insertion_map.go", V+"util_fetch_proofs.go", V+"service_map_tree_hash.go", "merkle/util_merkle.go"],
 [("node hashing with defaults", V+"util_fetch_proofs.go calcNodeHash"), ("ancestor rewrite", V+"insertion_map.go writeAncestors")],
 ["MapTreeHash", "Map.TreeHead"])

prop("C08", "Every map read carries a proof that verifies, for presence or absence",
 "For every key - present, deleted, or never set - and every tree size from 1 to the head, the audit path returned with the value proves that value (or its absence) against the map root hash for that size, both by an independent 256-level verifier and by the library's own verification. A verified read of an honest server therefore always succeeds and returns the replayed value.",
 ["inputs", "histories"], "All mutation histories, all sizes, and all queried keys including ones sharing long hash prefixes with stored keys.",
 NOTEST + "non-inclusion proofs next to compressed leaves depend on the exact fork depth between two key hashes.",
 [V+"service_map_get_value.go", V+"util_fetch_proofs.go", V+"api_highlevel_map.go"],
 [("audit path construction", V+"service_map_get_value.go MapGetValue"), ("verification", V+"service_map_get_value.go VerifyMapInclusionProof")],
 ["MapGetValue", "Map.VerifiedGet", "VerifyMapInclusionProof"])

prop("C09", "Map proof verification accepts only true values and never crashes",
 "Verifying a map value proof succeeds exactly when the 256-level sparse Merkle path from the value's leaf hash at the key's position, with missing or empty path elements standing for the known defaults, yields the given map root and the tree sizes match. So no other value, key, path, size or root is accepted with it, and any response or head, however malformed or truncated, is answered without a crash.",
 ["inputs"], "All responses, keys and map heads: genuine, mutated genuine, shortened paths, missing parts, arbitrary bytes.",
 NOTEST + "soundness quantifies over forged responses; tests only verify honest ones.",
 [V+"service_map_get_value.go", "merkle/util_merkle.go"],
 [("path recomputation", V+"service_map_get_value.go VerifyMapInclusionProof")],
 ["VerifyMapInclusionProof"])

prop("C10", "Mutation log and tree head log record exactly what the map did",
 "Entry i of a map's mutation log is the i-th sequenced mutation - action, key, value, previous leaf hash and a server timestamp in RFC 3339 form - its acknowledgement was that entry's leaf hash, and its leaf input is the object hash a reader can recompute from it. Entry i of the tree head log is the map head (root hash, mutation log size and root) for size i+1, and no later activity, including storing values that coincide with log entries, alters any entry of either log.",
 ["inputs", "histories"], "All mutation histories (any keys and values, including values copied from the map's own logs) and all entries of both logs at all later times.",
 NOTEST + "agreement between three structures must hold after every mutation of every history.",
 [V+"insertion_log.go", V+"service_map_set_value.go", V+"util_json.go", V+"util_service_data.go"],
 [("mutation entry creation", V+"util_json.go CreateJSONLeafDataFromMutation"), ("tree head log append", V+"insertion_log.go applyLogAddEntry"), ("entry data keyed by leaf hash", V+"util_service_data.go")],
 ["LogFetchEntries on mutation and tree head logs"])

prop("C11", "Auditing an honest log or map succeeds and sees every change once",
 "Auditing an honest log between any two of its heads succeeds and calls the audit function exactly once per entry, in order, with the right index and entry. Auditing an honest map from the beginning to any of its verified states succeeds, calls the map audit function exactly for the mutations that changed the map root (index, key and value, in order), calls the leaf audit function for each mutation's value, and stops with the audit function's error when it returns one.",
 ["inputs", "histories"], "All honest histories (deletes, no-op sets, failed updates, changes that return to an earlier root) and all pairs of heads.",
 NOTEST + "an auditor that skips a change or fails on an honest history shows only on particular histories.",
 [V+"api_highlevel_log.go", V+"api_highlevel_map.go", V+"util_map_audit.go"],
 [("entry replay with hash stack", V+"api_highlevel_log.go VerifyEntries"), ("in-memory map replay", V+"util_map_audit.go")],
 ["Log.VerifyEntries", "Map.VerifyMap"])

prop("C12", "A verifying client never accepts data a tampering server changed",
 "If a server alters what it answers - entries, extra data of mutations, proofs, tree heads, map values, or splits its view - then every verifying client operation (inclusion, consistency, verified heads and map states, verified gets, log and map audits) either returns an error or returns only data consistent with the roots the client already trusts. A map state or log head obtained through verification is never inconsistent with the previous one supplied, and no answer crashes the client.",
 ["inputs", "histories", "fault_sequences"], "All honest histories combined with all alterations of one or more server answers, at any point of a client session.",
 NOTEST + "the guarantee quantifies over adversarial servers; no test has one.",
 [V+"api_highlevel_log.go", V+"api_highlevel_map.go", V+"util_map_audit.go", V+"service_log_inclusion_proof.go", V+"service_log_consistency_proof.go", V+"service_map_get_value.go"],
 [("client-side verification", V+"api_highlevel_log.go, "+V+"api_highlevel_map.go"), ("auditor replay", V+"util_map_audit.go")],
 ["Log.Verify*", "Map.Verified*", "Map.VerifyMap"])

prop("C13", "An operation is allowed exactly when the access policy grants it",
 "Under a static policy a request is served exactly when some rule of the addressed account matches the object's name (glob), the API key ('*' matching any key, an empty rule key matching none) and lists the permission that operation needs or all permissions; otherwise it fails with permission denied, reveals nothing and changes nothing. Which permission each operation needs is fixed: raw add, read entry, read hash and prove inclusion for logs, set and get for maps, and separate mutation-entry and mutation-hash permissions for a map's own logs, which can never be appended to directly.",
 ["inputs", "configurations"], "All policies (accounts, keys, globs, permission sets, rule order) and all requests of all operations on all object kinds.",
 NOTEST + "access control quantifies over policies and requests; a sampled matrix misses combinations.",
 ["oracle/policy/authorization_static.go", V+"util_permissions.go", V+"service_log_add_entry.go", V+"service_map_set_value.go", V+"service_map_get_value.go"],
 [("rule matching", "oracle/policy/authorization_static.go VerifyAllowed"), ("operation to permission mapping", V+"util_permissions.go")],
 ["every service operation"])

prop("C14", "Field-restricted readers see only allowed fields, still verifiable",
 "A reader whose matching rule allows only some fields gets JSON extra data in which every other top-level field is replaced by a redaction marker carrying its object hash - in log entries, map values and the values inside mutation log entries - so disallowed contents never appear, nor any data that is not a JSON object with fields to choose from, while allowed fields are intact and the leaf input still equals the object hash of the redacted data. A rule allowing all fields returns data unmodified, and absent map keys or deletes read by a restricted reader work as for anyone.",
 ["inputs", "configurations"], "All JSON objects (nested, redactable or plain), all allowed-field sets, all three ways of reading.",
 NOTEST + "leakage quantifies over documents and field sets.",
 [V+"util_permissions.go", V+"service_log_fetch_entries.go", V+"service_map_get_value.go", "oracle/policy/authorization_static.go"],
 [("filtering", V+"util_permissions.go filterLeafData"), ("field filter choice", "oracle/policy/authorization_static.go")],
 ["LogFetchEntries", "MapGetValue"])

prop("C15", "Distinct accounts, logs and maps never affect each other",
 "Each (account, name) log and each (account, name) map is an independent object: operations on one never change anything observable on another, even when names coincide between logs and maps or account and name strings are chosen to be confusable. The API key used does not select a different object.",
 ["inputs", "histories"], "All interleavings of operations over many objects with arbitrary and confusable account/name strings.",
 NOTEST + "isolation must hold for all name pairs and interleavings.",
 [V+"util_service_data.go", V+"service_log_add_entry.go", V+"service_map_set_value.go", "storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go"],
 [("namespace derivation", V+"util_service_data.go logBucket/mapBucket"), ("per-namespace storage", "storage/*")],
 ["all reads on all objects"])

prop("C16", "All embedded storage backends behave as one transactional key store",
 "The memory, Bolt and Badger backends give the same results for the same sequence of transactions: a read sees the latest committed write (and the transaction's own writes), a nil value deletes, an absent key reports no-such-key, and namespaces are separate. For Bolt and Badger an update whose function returns an error leaves no trace, and the error is returned; concurrent updates to one namespace are applied one after another without being lost or refused.",
 ["inputs", "histories", "schedules"], "All sequences of read and update transactions over arbitrary binary namespaces, keys and values, including failing and concurrent ones.",
 NOTEST + "equivalence to a model holds over all transaction sequences.",
 ["storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", V+"storage_headers.go"],
 [("transactions", "storage/*/ExecuteUpdate, ExecuteReadOnly")],
 ["StorageReader/StorageWriter interface"])

prop("C17", "Acknowledged data is durable and updates are all-or-nothing",
 "With the synchronous mutator on Bolt or Badger, everything acknowledged before a close, reopen or abrupt process kill is there afterwards with identical roots and entries, and what follows continues the same log or map. A storage failure at any point of an update is reported as an error and leaves the log or map exactly as before, fully usable; nothing is ever half applied. A storage failure during a read gives an error, never another answer.",
 ["crash_points", "fault_sequences", "histories"], "All histories with close/reopen points, a kill at any moment, and an injected storage error at any read or write of any update.",
 NOTEST + "no test injects faults or crashes.",
 ["mutator/instant/mutator_instant.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go", V+"insertion_log.go", V+"insertion_map.go"],
 [("one storage transaction per mutation", "mutator/instant/mutator_instant.go QueueMutation")],
 ["reads after reopen"])

prop("C18", "Batching applies every accepted mutation once, in order, per object",
 "With the batch mutator, whatever the batch size, timeout, buffer size and mix of logs and maps being written, every accepted mutation is eventually applied exactly once, and mutations accepted one after another for the same object are applied in that order, giving the same entries, roots and map contents as applying them one at a time. What is sequenced is the data as it was when accepted, even if the caller reuses its buffers. When storage fails, the service ends, or refuses what follows, rather than go on without mutations it accepted; what is stored is then, for each object, what was accepted first, whole and usable.",
 ["inputs", "configurations", "schedules", "fault_sequences"], "All batching configurations, all interleavings of mutations over several objects, and a storage failure at any point.",
 NOTEST + "loss or reordering depends on where batch boundaries fall between objects.",
 ["mutator/batch/mutator_batch.go", V+"service_log_add_entry.go", V+"service_map_set_value.go"],
 [("batch loop and hand-over between namespaces", "mutator/batch/mutator_batch.go handleBatch/consume"), ("overlay database", "mutator/batch/mutator_batch.go mapNoLockDB")],
 ["reads after the queue drained"])

prop("C19", "REST and gRPC clients see exactly what the in-process service returns",
 "Any sequence of requests gives the same responses and the same classes of error (permission denied, invalid argument, not found) whether issued in process, through the REST client and server, or through the gRPC client and server, including API keys, binary keys and values, map audit paths, conditional updates and extra data. Proofs and heads obtained over either transport therefore verify identically.",
 ["inputs", "histories"], "All request sequences over valid REST names, all log types, arbitrary binary content, valid and invalid sizes.",
 NOTEST + "transport fidelity must hold for all field contents, not fixed samples.",
 ["server/httprest/client_http_rest.go", "server/httprest/server_http_handler.go", "server/grpc/client_grpc.go", "server/grpc/server_grpc.go"],
 [("REST encode/decode", "server/httprest/*"), ("gRPC wrapper", "server/grpc/*")],
 ["service interface of each client"])

prop("C20", "JSON leaf data helpers are deterministic, verifiable and redactable",
 "Leaf data created from any JSON text, object, message or mutation has as leaf input the object hash of that JSON - independent of key order and whitespace - keeps the JSON as extra data, and passes validation, while leaf data whose JSON differs in value fails it and invalid JSON is refused. Redactable leaf data validates before and after any fields are redacted, and shedding redacted fields restores exactly the original values of the fields that remain.",
 ["inputs"], "All JSON documents, all objects and mutations, all subsets of redacted fields.",
 NOTEST + "round trips must hold for every document.",
 [V+"util_json.go"],
 [("creation", V+"util_json.go CreateJSONLeafData*"), ("validation", V+"util_json.go ValidateJSONLeafData*"), ("redaction", V+"util_json.go ShedRedactedJSONFields")],
 ["CreateJSONLeafData*", "ValidateJSONLeafData*", "ShedRedactedJSONFields"])

prop("C21", "No request can crash the service or damage stored data",
 "Any request - with missing messages, unknown actions or log types, negative or huge sizes, empty or huge keys, arbitrary HTTP methods, paths, headers and bodies - gets a response or an error, never a crash or a hang of the service. A request answered with an error changes nothing, and every log and map keeps answering and verifying as before.",
 ["inputs", "histories"], "All protobuf requests to all operations (in process and over gRPC) and all HTTP requests, interleaved with normal traffic, on synchronous and batching mutators.",
 NOTEST + "robustness quantifies over all inputs; no test sends malformed ones.",
 [V+"service.go", V+"service_log_add_entry.go", V+"service_map_set_value.go", "server/httprest/server_http_handler.go", "server/grpc/server_grpc.go"],
 [("request validation", V+"service_*.go"), ("HTTP decoding", "server/httprest/server_http_handler.go")],
 ["every service operation and HTTP route"])

prop("C22", "Merkle and binary-path helpers obey their defining equations",
 "Leaf and node hashes are the RFC 6962 domain-separated SHA-256 hashes, the inclusion and consistency index ranges equal the recursive RFC 6962 definitions for every size representable in 64 bits, power-of-two helpers agree with their arithmetic meaning, and map key paths and default hashes equal their definitions. Slicing, joining, indexing and measuring binary paths behave as the same operations on bit strings of up to 256 bits.",
 ["inputs"], "All sizes, indices, ranges, keys and bit strings up to 256 bits.",
 "The four runnable tests check a handful of fixed paths; the equations must hold for all lengths, offsets and 64-bit sizes.",
 ["merkle/util_merkle.go", V+"util_path.go"],
 [("merkle helpers", "merkle/util_merkle.go"), ("BPath", V+"util_path.go")],
 ["merkle package functions", "BPath functions"])

prop("C23", "Concurrent clients lose nothing and always see a consistent history",
 "When many clients add, mutate and read at the same time, every acknowledged log entry ends up in its log exactly once, every acknowledged mutation appears exactly once in its mutation log, and the final contents equal a one-at-a-time application of that recorded order, in which an update acknowledged before another was submitted comes first. At every moment readers see heads that never go backwards, belong to one append-only history, and whose entries, proofs and map values verify.",
 ["schedules", "histories"], "All interleavings of concurrent writers and readers over shared logs and maps on every backend and both mutators.",
 NOTEST + "no test runs concurrent clients.",
 ["mutator/instant/mutator_instant.go", "mutator/batch/mutator_batch.go", "storage/memory/storage_memory.go", "storage/bolt/storage_bolt.go", "storage/badger/storage_badger.go"],
 [("serialised updates", "storage/*/ExecuteUpdate"), ("single consumer", "mutator/batch/mutator_batch.go consume")],
 ["all operations under concurrency"])

prop("C24", "Out-of-range and unknown reads fail cleanly and reads change nothing",
 "Tree sizes, indices and ranges outside what a log or map holds are refused with invalid argument (an unknown leaf hash or index beyond the head with not found) and never answered with data or an empty success, whatever the object's size, including empty and never-created objects. Reads, refused or not, change nothing that any later operation can observe.",
 ["inputs", "histories"], "All sizes, indices and ranges around and far beyond the boundaries, for all read operations on all object kinds.",
 NOTEST + "boundary conditions depend on both the request and the object's history.",
 [V+"service_log_tree_hash.go", V+"service_log_fetch_entries.go", V+"service_log_inclusion_proof.go", V+"service_log_consistency_proof.go", V+"service_map_get_value.go", V+"service_map_tree_hash.go"],
 [("range checks", V+"service_*.go")],
 ["error codes of read operations"])

prop("C25", "The documented REST endpoints do what their documentation says",
 "Each documented REST route (raw, JSON, redactable and extra formats; string and hex keys; head and numeric sizes; conditional PUT; DELETE; entries, tree heads, proofs by hash, string and index) has exactly the effect and result documented for it, mapped to the corresponding service operation, with status 200, 400, 401, 404 as appropriate. Map reads expose the verified tree size and the non-default audit path elements in headers from which the value verifies. The pages that are served alongside are the files they are made from; asking for them has no effect on any object.",
 ["inputs", "histories"], "All documented routes with arbitrary bodies, keys, sizes and authorisation headers over arbitrary histories.",
 NOTEST + "each route has its own decoding; correctness is over all bodies and parameters.",
 ["server/httprest/server_http_handler.go", "doc/REST-API.md"],
 [("routing and decoding", "server/httprest/server_http_handler.go")],
 ["HTTP responses"])

prop("C26", "Following heads and waiting on updates works against an honest server",
 "A client that repeatedly asks for the latest verified log head or map state, passing the previous one, always succeeds on an honest server, never moves backwards, and gets heads whose size is at least what had been acknowledged synchronously; asking for an older or newer specific size, or supplying a proof made for another size, also succeeds and returns that size. Waiting on an accepted update, or for a map size, returns a head that includes that update or reaches that size; a wait whose context ends returns an error.",
 ["histories", "configurations"], "All honest histories interleaved with head-following, specific-size and waiting calls, over both mutators.",
 NOTEST + "following must work between every pair of sizes, including empty objects and no-op mutations.",
 [V+"api_highlevel_log.go", V+"api_highlevel_map.go", V+"api_highlevel_wrapper.go"],
 [("verified heads", V+"api_highlevel_log.go, "+V+"api_highlevel_map.go"), ("promises", V+"api_highlevel_wrapper.go")],
 ["VerifiedLatestTreeHead", "VerifiedLatestMapState", "VerifiedMapState", "Wait", "BlockUntilSize"])

prop("C27", "Servers and clients speak exactly as configured",
 "A server started from a configuration serves exactly the endpoints it names (REST, gRPC over TCP or Unix sockets) under exactly the configured access policy: unless configured as insecure it answers over TLS with the configured certificate only, and serves nobody when the certificate or key is missing, unreadable or mismatched. A client reaches it only with matching security (plain with plain, TLS with a certificate it trusts, given to the gRPC client as DER); no other contact reads or writes anything. What it acknowledged is there after any stop and restart on the same database, under whatever configuration it then runs.",
 ["configurations", "histories"], "All combinations of server configuration, certificate material and client configuration, over histories of requests, kills and restarts.",
 NOTEST + "no test starts a server from a configuration or uses TLS.",
 ["cmd/vdbserver/vdbserver-main.go", "server/grpc/server_grpc.go", "server/grpc/client_grpc.go", "server/httprest/server_http_rest.go"],
 [("server start", "server/grpc/server_grpc.go StartServer, server/httprest/server_http_rest.go StartServer"), ("client dial", "server/grpc/client_grpc.go Dial"), ("program", "cmd/vdbserver/vdbserver-main.go realMode")],
 ["cmd/vdbserver", "grpc.Client", "httprest.Client", "ServerConfig"])

prop("C28", "The Postgres backend is a transactional key store like the others",
 "Against a database with PostgreSQL's semantics the Postgres backend gives the results of the embedded ones: a read sees the latest committed write (and the transaction's own writes), a nil value deletes, an absent key reports no-such-key, and namespaces are separate. An update whose function, statements or connection fail returns an error and leaves no trace, a failed read is an error and never a wrong answer, and later transactions work again. Concurrent updates of a namespace, by one or several processes, are applied one after another, and all that a read-only transaction sees is of one moment.",
 ["inputs", "histories", "schedules", "fault_sequences"], "All sequences and interleavings of transactions over arbitrary binary namespaces, keys and values, with any statement failing or connection dropping.",
 NOTEST + "no test runs the Postgres backend at all.",
 ["storage/postgres/storage-postgres.go", V+"storage_headers.go"],
 [("transactions", "storage/postgres/storage-postgres.go ExecuteUpdate, ExecuteReadOnly"), ("keys", "storage/postgres/storage-postgres.go txWriter"), ("namespaces", "storage/postgres/storage-postgres.go getOrCreateNS")],
 ["StorageReader/StorageWriter interface of postgres.Storage"])

prop("C29", "The JavaScript client does with the REST API what it documents",
 "The JavaScript client that the server hands out (continusec.js), used on logs and maps of an honest server, stores exactly the bytes or JSON it is given and returns exactly what was stored, at the sizes, indices and ranges asked for, with the leaf hashes of the stored entries. On an honest server all of its heads, proofs, verified reads, audits, followed heads and map states, and waits succeed, from empty objects on, and equal those of the log or map; a refused or failed request is reported with the documented reason; every operation calls back exactly once. Its hashes of entries, JSON documents (redacted ones too) and map heads equal the service's.",
 ["inputs", "histories"], "All histories of logs and maps, all bytes and JSON texts (in Unicode normal form C), keys, sizes and previous heads or states, pages of the same and of another origin.",
 "No test runs the JavaScript client at all.",
 ["assets/static/continusec.js", "server/httprest/server_http_handler.go"],
 [("client operations", "assets/static/continusec.js VerifiableLog, VerifiableMap"), ("hashing", "assets/static/continusec.js objectHashWithRedaction")],
 ["continusec.js API"])

prop("C30", "The JavaScript client never accepts what a tampering server changed",
 "The JavaScript client's verification of log inclusion and consistency proofs succeeds exactly when the RFC 9162 verification algorithm does, for all sizes up to 2^53. If a server alters, truncates, replaces or splits its answers in any way, then whatever the client's verifying operations (inclusion, consistency, verified and followed log heads and map states, supplied proofs, verified map values, audits of a log) report as a success is consistent with the heads and states supplied to them and of the size asked for, and they terminate. A document shown by the client hashes like another one only if it is that one with members or elements redacted.",
 ["inputs", "histories", "fault_sequences"], "All proofs and heads, and all honest histories combined with all alterations of one or more answers, in content and at the HTTP level, at any point of a session.",
 "No test runs the JavaScript client at all, and none has a hostile server.",
 ["assets/static/continusec.js"],
 [("proof verification", "assets/static/continusec.js LogInclusionProof, LogConsistencyProof, MapEntryResponse verify"), ("client operations", "assets/static/continusec.js getVerified*, verify*")],
 ["continusec.js API"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
