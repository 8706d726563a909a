"""What run.py and tools/gen_manifest.py know about each check."""
CHECKS = {}
PBT = "property-based testing (rapid): "


def c(id, technique, rule, note, assumptions=(), level="exploration", **kw):
    CHECKS[id] = dict(technique=PBT + technique, rule=rule, level_note=note, assumptions=list(assumptions), level=level, **kw)


OBJ = ("github.com/continusec/objecthash cannot be fetched here; /verif/objecthash is a stand-in written from its documentation and "
       "checked against the published test vectors and the worked examples of doc/REST-API.md")
SHA = "SHA-256 from the Go standard library is correct"
BASE = [SHA, OBJ]

LOGGEN = ("A case is one generated log (user, mutation or tree head log; memory, Bolt or Badger) built by a generated history of runs, "
          "single adds and repeats up to 2049 entries")

c("C01", "generated histories against an RFC 6962 reference tree",
  LOGGEN + "; after each step and at the end every (or up to 150) tree size is asked for and compared with the reference, also after growth. "
  "Non-trivial: more than one entry or a duplicate; distinct by history.",
  "Every reported root is compared with an independent RFC 6962 implementation; sampled histories, no proof of absence.", BASE)
c("C02", "generated histories against a list model",
  LOGGEN + "; ranges, single entries, to-head reads and streams (beyond the 500-entry batch, cancelled, from the middle) are compared with the model, "
  "again after growth and reopening. Non-trivial: more than one entry or a duplicate.",
  "Exact comparison of entries with the list model; sampled histories and ranges.", BASE)
c("C03", "generated logs against RFC 6962 audit paths",
  LOGGEN + "; all (index,size) pairs up to 12 entries, sampled pairs beyond, by hash and by index, size 0, client verification, unknown hashes. "
  "Non-trivial: more than one entry.",
  "Exact audit paths and verification by the library and by an independent verifier.", BASE)
c("C04", "generated logs against RFC 6962 consistency paths",
  LOGGEN + "; all size pairs up to 14 entries, sampled pairs beyond, size 0, client verification in both orders. Non-trivial: more than one entry.",
  "Exact consistency paths and verification by the library and by an independent verifier.", BASE)

MAPGEN = ("A case is one generated map history (memory, Bolt or Badger): 1 to 110 sets, deletes and conditional updates over a pool of keys that includes "
          "pairs and clusters sharing up to 54 leading bits of their hash, never-set keys and odd keys")
c("C06", "generated map histories against a replay model",
  MAPGEN + "; pool and unused keys are read at up to 30 sizes, and again after further mutations and a reopen. Non-trivial: more than one mutation, or a "
  "mutation of a special kind (delete, overwrite, no-op, matching or failing conditional update); distinct by history.",
  "Exact comparison with a replay model; sampled histories.", BASE)
c("C07", "generated map histories against a plain 256-level sparse Merkle tree",
  MAPGEN + "; the root and head are compared at every size (up to 150), the contents re-inserted in another order, and the empty map's head read. "
  "Non-trivial as for C06.",
  "Exact roots against two independent reference formulations.", BASE)
c("C08", "generated map histories, proofs checked by an independent verifier",
  MAPGEN + "; every value read is verified by an independent 256-level verifier and by the library, and through VerifiedMapState/VerifiedGet. "
  "Non-trivial as for C06.",
  "Proofs for present, deleted and absent keys at sampled sizes.", BASE)
c("C10", "generated map histories against a model of both map logs",
  MAPGEN + "; every mutation log and tree head log entry is decoded and compared with the mutation or head it must record, its leaf input recomputed, "
  "again after later activity that includes values coinciding with log entries. Non-trivial as for C06.",
  "Exact comparison of both logs with the model.", BASE)

c("C05", "generated proofs, differential against the RFC 9162 verification algorithms",
  "A case is a log inclusion or consistency proof - built from the RFC 6962 recursion for a tree of up to 2^63-1 leaves, then left alone, altered in one or more "
  "places (nodes, lengths, order, index, sizes, roots, leaf) or wholly arbitrary - and the verdict of the library is compared with an independent RFC 9162 verifier. "
  "Non-trivial: the proof is genuine with a non-empty path or is an alteration of one; distinct by contents.",
  "Accept/reject must equal the independent verifier; crash or hang on malformed input is a violation. Sampled.", [SHA])
c("C09", "generated map proofs, differential against an independent 256-level verifier",
  "A case is a map read with its head - genuine from a generated map, altered (value, key, path elements, path length, sizes, root, nil parts) or arbitrary - given to the "
  "library's verification and to an independent verifier. Non-trivial: genuine with non-default path elements, or an alteration of one; distinct by contents.",
  "Accept/reject must equal the independent verifier, malformed input must not crash. Sampled.", BASE)
c("C11", "generated honest histories, expected audit call sequences computed by a model",
  "A case is a generated log or map and a pair of its heads, audited with recording or failing audit functions, also through a server whose heads lag. "
  "Non-trivial: at least one entry or mutation between the heads; distinct by history.",
  "The exact sequence of audit calls must equal the model's.", BASE)
c("C12", "client sessions against generated tampering servers",
  "A case is a client session (inclusion, consistency, following heads or map states, verified gets, log and map audits) over a server that alters up to three answers "
  "(fields, JSON inside extra data with recomputed hashes, nil entries, reshaped paths, HTTP responses) or answers from a forked history. Non-trivial: an answer was altered or "
  "came from the fork; distinct by history and alteration.",
  "Everything the client accepts is compared with the histories that exist; a crash or hang is a violation. Sampled.", BASE)
c("C13", "generated policies and requests against an independent policy evaluator",
  "A case is a generated static policy (names with globs, wildcard and empty keys, several accounts and rules) and a generated request to it, or a request to an oracle that records "
  "which permission it was asked for and grants or refuses it. Allowed exactly when the independent evaluator allows; refused requests must change no stored byte. "
  "Non-trivial: the policy has a rule for the account (static), every case (oracle); distinct by policy and request.",
  "Exact allow/deny equality over sampled policies and requests.", BASE)
c("C14", "generated documents and field filters against an independent redactor",
  "A case is 1 to 5 generated JSON documents (plain or redactable) in a log and a map, read by a restricted and by an unrestricted reader through entries, values and mutations. "
  "Every field is compared with its exact redaction, disallowed contents searched for in the whole response, and readers run full audits. Non-trivial: some field is redacted or a "
  "delete occurs; distinct by documents and filter.",
  "Exact comparison with the expected redaction; sampled documents.", BASE)
c("C15", "generated operations on many objects with confusable names, one model per object",
  "A case is 2 to 8 logs and maps whose account and object names coincide, are swapped, shifted, redactions of one another or odd, written in turn under random API keys with data that is "
  "partly the same in several of them (including entries of maps' own logs); after each step another object, and finally every object and one never written, is compared with its model in "
  "full (heads, entries, values, proofs, both map logs). Non-trivial: two objects are related by name; distinct by history.",
  "Exact comparison with one model per object; sampled names and histories.", BASE)
c("C16", "generated transactions against a key-value model, on the three backends",
  "A case is a sequence of read-only and update transactions (gets, sets, deletes, failing functions, reopening) over related keys and namespaces, or many goroutines that update counters "
  "(some giving up) while readers look for half-applied updates. Non-trivial: an update commits or rolls back; distinct by transactions.",
  "Exact comparison with a model; concurrent schedules are those the Go scheduler produced.", [SHA])
c("C17", "fault injection at every storage operation, process kills and reopens, against models",
  "A case is a history on Bolt, Badger or a reference store in which updates are attempted with each storage operation (begin, every read, every write, commit) failing in turn, and each kind "
  "of read likewise; or a child process killed by SIGKILL after a drawn number of acknowledgements and microseconds, up to twice, then opened, compared in full and continued; or a child whose files cannot grow for a while; or reopens. "
  "Non-trivial: a fault fired, a kill or a reopen; distinct by history.",
  "Enumerates every fault point of each generated update; kill moments and histories are sampled. A kill loses no data the operating system has; power loss is not simulated.",
  BASE, level="fault_enumeration")

c("C18", "generated batching configurations and mutation sequences over several objects against models applied one at a time",
  "A case is a batch mutator (batch size 0 = unbounded to 100, timeout 0 to 5 ms or an hour, buffer 0 to 1000) on memory, Bolt or Badger and 1 to 260 mutations of up to 5 logs and maps, "
  "in one sequence or one goroutine per object; request buffers are overwritten as soon as a call returns and heads are read meanwhile; "
  "or a child process whose storage (Bolt) fails at one drawn operation under a batch mutator, then opened, compared with what it had accepted and continued. "
  "Non-trivial: several mutations of an object in a batch, a switch of object, a duplicate, or a map mutation of a special kind; distinct by history.",
  "Full comparison with models after an end marker was applied; sampled configurations, histories and schedules. A storage failure ends the process by design of the batch mutator: what is stored is then judged per object.", BASE)

c("C19", "differential testing of the in-process service, the REST client and server and the gRPC client and server",
  "A case is a service on memory or Bolt (no policy, or a generated policy with API keys and field filters) reached in process, over REST (HTTP wire form, a tenth also over real sockets) and over gRPC "
  "(a real server on a unix socket); up to 26 generated adds, mutations and reads of all kinds are issued to all of them and responses and classes of error compared, and half of the cases end in a full comparison "
  "with models through every channel; or logs with responses over the 4 MB default limits. Non-trivial: any request compared; distinct by history.",
  "Exact comparison of responses and error classes. Over REST names are those the routes allow, keys and API keys are not empty or with spaces, sizes are not negative.", BASE)

c("C20", "generated JSON documents, rewritings and redactions against an independent object hash",
  "A case is a generated JSON value (depth up to 4; odd strings, numbers over the whole range) written in drawn styles (order, white space, escapes, number forms) and one that differs in one place, damaged texts, "
  "redactable forms with drawn fields redacted at any depth, or a map mutation or message. Non-trivial: a document of more than two bytes, a rewriting, a difference, a redaction or a mutation with a value; distinct by document.",
  "Leaf inputs compared with an object hash written apart from the stand-in for the library; documents that contain the redaction marker at the start of a string are not generated.", BASE)

c("C21", "generated malformed requests (protobuf messages and raw HTTP) mixed with normal traffic, against models and state comparison",
  "A case is a service with the instant or a batch mutator, several watched logs and maps, and up to 20 requests to any operation with missing messages, unknown types and actions, sizes over the whole 64-bit range, odd strings and bytes "
  "(in process, over gRPC, through the REST client), or up to 12 raw HTTP requests with drawn methods, paths (documented routes edited or segments at random), headers, bodies and framing. "
  "Non-trivial: any request the service answered or refused; distinct by history.",
  "Each call must return; a request answered with an error leaves the stored bytes unchanged; afterwards all objects are compared with models (or audited, after unmodelled accepted mutations) and take normal traffic. Requests net/http itself refuses are not sent.", BASE)

c("C22", "generated sizes, ranges, bytes and bit strings against recursive definitions in big integers and a bit-string model",
  "A case is a size over the whole 63-bit range (small, near powers of two, sparse and dense patterns, the top) with an offset, an index and a from-size; a number for the power helpers; byte strings to hash; "
  "or up to 16 slices and joins over a pool of binary paths of up to 256 bits. Non-trivial: a size over 2, a number over 40, bytes that are not empty, an unaligned slice or join, a join to 256 bits; distinct by its values.",
  "Range lists compared exactly with RFC 6962's recursion in big integers and checked to tile the tree; paths compared bit by bit and as bytes, and again after later operations. Indices out of range, joins over 256 bits and CalcK below 2 are undefined and not called.", BASE)

c("C24", "generated boundary requests against the models' sizes, with state comparison after every read",
  "A case is up to five logs and maps (some empty, some never created) on the harness's own store, memory, Bolt or Badger with up to 45 reads of every kind (in process, over gRPC or REST) whose sizes, indices and ranges are drawn "
  "at, around and far beyond the boundaries (negative, the next power of two, sizes of other objects, sizes equal modulo 2^32, the 64-bit limits, hashes one bit or byte off), interleaved with writes; "
  "or the client's verification methods on such sizes. Non-trivial: a read that was refused; distinct by history.",
  "Exact error class when there is one thing wrong with a request, invalid argument or not found when there are several. After each read stored bytes are compared, and at the end all objects with models.", BASE)

c("C25", "generated raw HTTP sessions against an executable model of the documented routes",
  "A case is a service with the instant mutator on the harness's own store and up to 43 raw HTTP requests to every documented route (plain, JSON, redactable and extra formats; string and hex keys; head and numeric sizes; "
  "conditional PUT; DELETE; entries, tree heads, proofs by hash, string and index; the maps' own logs) with generated bodies, keys and sizes, right and wrong authorisation, and malformed variants. "
  "Non-trivial: an accepted write, a read that returned data or an unauthorised request; distinct by session.",
  "Status, headers and body compared with a model written from doc/REST-API.md; map values are verified from the headers alone; pages are compared with the files, and requests for them and OPTIONS requests must have no effect.", BASE)

c("C26", "generated histories followed by clients holding arbitrary earlier heads and states, against models",
  "A case is a log and a map on memory, Bolt or Badger with the instant or a batch mutator (in process, over REST or gRPC, sometimes answering with heads that are behind) that grow while latest and specific heads and states, "
  "supplied proofs, verified values and waits are asked for, each with a drawn earlier head or state (or none) as previous; or 60 waits at once that have to sleep, for updates that come late. "
  "Non-trivial: a head that grew or an older one, a supplied proof, a wait; distinct by history.",
  "Every call must succeed, with sizes between what is known to be applied and what was accepted and roots equal to the model's. A wait for what never comes must end with an error once its context does.", BASE)

c("C23", "concurrent writers and readers over generated plans, with pauses inside transactions, against models replayed in the recorded order",
  "A case is 2 to 8 writers with up to 16 drawn updates each and up to 4 readers, over 1 to 4 logs and maps, through one to three services (also REST or gRPC) on memory, Bolt or Badger with the instant or a batch mutator, "
  "with pauses injected into storage transactions; 2 of the 8 shards run under the race detector. Non-trivial: some object is written to by several writers; distinct by plan.",
  "Each acknowledged update is found exactly once, in an order compatible with real time; contents equal a model replayed in that order; every head, state and value a reader saw is compared with that history. "
  "Schedules are those the Go scheduler and the injected pauses produced.", BASE, race=2, race_scale=25)

c("C27", "generated server and client configurations run for real, against a table of which contacts must work and models of the contents",
  "A case is 1 to 3 runs of the server program built from cmd/vdbserver (stopped by SIGKILL or SIGTERM in between) with a drawn configuration (insecure or not, certificate files good, missing, garbage, mismatched or unset, "
  "REST and gRPC on or off, TCP or Unix socket, a generated policy), contacted in up to ten ways (REST or gRPC, plain or TLS, trusting the right certificate, another, both, or what the system trusts; DER or PEM) with writes, then requests under the policy. "
  "Non-trivial: a contact that was served or refused; distinct by history.",
  "Each contact must work exactly when configuration and client match, each request exactly when the policy allows; after each run and finally in the database itself the contents are compared with models. Signals other than these, and the demo mode without a configuration, are not covered.", BASE, program=True)

c("C28", "generated transactions, concurrent clients and faults against models, over a stand-in for the PostgreSQL server",
  "A case is a sequence of transactions through 1 to 3 storage objects over one database, with statements failing and connections dropping before or after a statement; or goroutines updating counters while readers look for "
  "half-applied updates; or concurrent clients of services as in C23; or a history of a log and a map whose updates are attempted with each statement failing in turn, and each kind of read likewise. "
  "Non-trivial: an update commits or rolls back, a fault fires, or an object is shared by writers; distinct by history.",
  "Exact comparison with models. The server is a stand-in that speaks the wire protocol and keeps PostgreSQL's rules on visibility, locks, failed transactions and deadlocks for the SQL in use (DESIGN.md); SQL it does not know makes the check inconclusive (it says so). "
  "Real PostgreSQL is not available here.", BASE)

c("C29", "generated sessions of the served JavaScript client, run by node against the real REST handler, compared with models",
  "A case is a session of up to 34 steps on one or two logs and maps, written through the client and in process: adds, sets (raw, JSON, redactable), deletes, then any read or verifying operation with drawn sizes, keys, formats and previous heads; "
  "or a document, key, map head or byte string hashed without a server; or one step on a large object (thousands of entries, or entries of hundreds of kB); or a wait on an object that grows while the client sleeps or between its requests; or any operation with a wrong key or no connection. "
  "Non-trivial: an operation on an object that is not empty, a hash of something, a wait that had to sleep, a refusal; distinct by session.",
  "The client runs in node, with a stand-in for XMLHttpRequest that applies the browser's rules for other origins, and for timers. Every result is compared with the models. "
  "Keys are not empty; text is in normal form C; numbers are below 2^53. The page that uses the client (index.html, log.js) is not covered.", BASE)

c("C30", "generated proofs against RFC 9162's algorithm, and sessions of the JavaScript client with a tampering server against models",
  "A case is a proof (genuine or with up to two alterations: elements flipped, dropped, added, swapped, re-divided, other sizes, index, leaf, roots, roots refitted to it) given to the client's verification; "
  "or one operation or a chain of followed heads or states against a server that knows two diverging histories and alters its answers, or whose HTTP answers are altered on the way; or an audit from an audit path of another shape; or a document with redacted values that are not hashes, or numbers that are not finite. "
  "Non-trivial: a proof accepted or rejected, or an altered answer; distinct by case.",
  "Exact comparison of verdicts with the RFC's algorithm; any success of the client is compared with both histories. After a malformed answer the client may fail without calling back. Numbers are below 2^53.", BASE)
