#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from flavours import LEVELS  # noqa: E402

D = "internal/domain/"
I = "internal/infra/"
A = "internal/api/shard/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
        "_technique": technique, "_note": note,
    })


SVC = D + "namespaceservice.go"
NS = D + "likenamespace.go"
EP = A + "endpoints/namespaceendpoint.go"

prop("C01", "The set of namespaces survives a restart exactly",
     "After any sequence of accepted and refused creations, updates and deletions of namespaces, a service started anew over "
     "the same data directory has exactly the same namespaces, with the same names, types, similar-profile limits and dislike "
     "factors, as the one before had. Names stay unique throughout; creating or renaming to a taken name and changing or "
     "deleting a missing namespace fail and change nothing. A creation without a limit (0) gets the default of 1000 and an "
     "update without a limit keeps the one in force.",
     ["histories", "inputs"],
     "for all sequences of management operations and restarts, over all valid names and settings (extreme limits and factors included)",
     "no existing test covers the service at all; round trips over arbitrary histories need a model and a restart after every step",
     [SVC, NS], [("saving the whole registry after each change and loading it at the start", SVC + ": saveNamespaces, LoadNamespaces")],
     [("namespaces", "the registered namespaces", SVC), ("namespaces.json", "their persisted form", SVC)],
     ["return values and getters of the service", "namespaces.json", "a second service over the same directory"],
     "runtime monitor: reference model against the real service, restarted throughout random histories",
     "Held on the random histories run (seeded; counts in the evidence). Trusts the reference model in the harness.")

prop("C02", "A registry change is all or nothing under I/O faults and crashes",
     "If a creation, update or deletion of a namespace reports a failure because a file operation failed, then it is visible "
     "neither in the running service nor after a restart, and later changes work normally. If the process dies at any moment of "
     "a change, the next start finds a readable registry that is either exactly the one before or exactly the one after the change. "
     "A change that reported success is found by every later start.",
     ["crash_points", "fault_sequences", "histories"],
     "for every file operation of every change as the one that fails (writes after any number of bytes) or the last one before the process dies",
     "tests cannot enumerate the failing operation or the crash point; none of the existing ones injects faults in the service",
     [SVC], [("writing a temporary file and renaming it over the registry; undoing the change in memory if that fails", SVC + ": saveNamespaces, CreateNamespace, UpdateNamespace, DeleteNamespace")],
     [("namespaces.json", "the persisted registry; replaced as a whole", SVC)],
     ["os-level operations", "the service's answers", "a restarted service"],
     "runtime monitor with fault injection: instrumented os package, crash and fault enumeration against a model",
     "Enumerates every mutating file operation of the sampled changes. Crash model: process crash (completed system calls persist in order, the interrupted write may be torn).")

prop("C03", "Concurrent namespace management is linearizable and race free",
     "Creations, updates, deletions, lookups and listings made by any number of concurrent clients, directly or by REST requests, "
     "give results that some sequential order of them respecting real time explains; in particular exactly one of several "
     "concurrent creations of a name succeeds. No data race occurs, and when the clients are done, the persisted registry equals "
     "the one in memory.",
     ["schedules", "histories"], "for all interleavings of concurrent management operations",
     "the outcome depends on the schedule; existing tests are single-threaded and do not touch the service",
     [SVC, NS, EP], [("the service's lock held across check, change and save", SVC + ": mutex"), ("the settings lock of a namespace", NS + ": settingsMutex")],
     [("namespaces", "shared list", SVC), ("name, maxSimilarProfiles, dislikeFactor", "shared settings", NS)],
     ["call and return events at the clients", "race detector reports", "namespaces.json"],
     "runtime monitor: linearizability checking of recorded histories, Go race detector, delays injected at file operations",
     "Held on the histories recorded; interleavings are sampled (with random delays at the file operations), not enumerated.")

prop("C04", "The REST interface answers every request as its sequential meaning says",
     "Every request to the namespace routes gets exactly one response. POST creates (201), PUT changes (200), GET shows one (200) or "
     "lists all (200), with bodies that show the namespace's name, type and limit as they are then in force; invalid bodies, "
     "invalid or missing names and conflicts get a 4xx response (404 for a GET or PUT of a namespace that doesn't exist) and change nothing. "
     "What was acknowledged is visible to all the requests that follow, also after a restart.",
     ["inputs", "histories"], "for all sequences of requests with valid, boundary, invalid and malformed paths and bodies, with restarts in between",
     "no existing test makes a request; arbitrary request sequences need a model to compare with",
     [EP, A + "application.go", A + "endpoints/helpers.go", A + "dto/namespacecreaterequest.go", A + "dto/namespaceupdaterequest.go", A + "dto/namespaceresponse.go", SVC],
     [("binding and validation of requests, then one service operation each", EP)], [],
     ["HTTP responses", "namespaces.json"],
     "runtime monitor: sequential REST model against the real routed handlers and the real program",
     "Held on the request sequences run (counts in the evidence).")

prop("C05", "Names are validated and files stay in the data directory",
     "A namespace name in a path or a registry file is valid exactly if it is an ASCII letter followed by ASCII letters, digits, underscores and hyphens only, "
     "and one in a request body exactly if it also has only lowercase letters and digits; a registry file with an invalid name, type or form is refused as a whole. "
     "Whatever requests say, files are made or changed only inside the configured data directory, and different namespaces never share a file.",
     ["inputs", "configurations"], "for all strings as names, all registry files and data directories with or without a trailing separator",
     "the set of hostile strings is unbounded, and containment is about what the process touches, which no test observes",
     [D + "valueobjects/namespacename.go", D + "valueobjects/namespacetype.go", SVC, NS, EP],
     [("parsing names with one anchored expression at every entrance", D + "valueobjects/namespacename.go"), ("file paths made of the base path and the name", NS)],
     [], ["all file operations of the process", "acceptance of names"],
     "runtime monitor: every file operation of the process recorded and confined under hostile names",
     "Held on the strings tried (near misses of the grammar systematically, others at random).")

prop("C06", "The server shuts down gracefully and restarts with its data",
     "On SIGTERM or SIGINT the server stops accepting, finishes the requests in progress, and exits with status 0, while clients that never finish their "
     "requests delay its end by a bounded time only (the exit may then report a failure); it exits with a failure if it can't listen. Whatever the way it ended, a killed "
     "process included, every acknowledged registry change is there after the restart, and a registry file that can't be read or decoded is never replaced. "
     "It listens where and stores what the environment configures, or the .env file where the environment says nothing.",
     ["schedules", "crash_points", "configurations"],
     "for all moments of a signal relative to startup, requests in flight and registry changes, and all configurations",
     "needs the real process, signals and restarts; existing tests never run it",
     ["main.go", A + "application.go", A + "config.go", SVC],
     [("signal context and graceful shutdown with a timeout", A + "application.go: Run"), ("configuration from the environment", A + "config.go: NewConfigFromEnv")],
     [], ["exit status and output of the process", "responses over the loopback network", "namespaces.json"],
     "runtime monitor: the real program (race-detector build) under signals, kills and restarts",
     "Held on the scenarios run; the moments of signals are sampled.")

prop("C07", "Every call to a namespace is answered exactly once, with its own result",
     "Each like, dislike, item deletion, profile deletion, profile query, similarity query or recommendation made to a namespace returns "
     "exactly once, with the answer to that very call, no matter how many clients there are and when the namespace is stopped or its context is "
     "cancelled. It succeeds if and only if it was handed to the storage, which happens at most once and in the order the client made its calls; "
     "otherwise it gets an error, and so does any call before the start or after the stop.",
     ["schedules", "histories"], "for all interleavings of client calls, batching, stop and cancellation, with more clients than the queue holds",
     "a lost or doubled answer needs a particular interleaving with stopping; no existing test runs a namespace",
     [NS, D + "actions.go"], [("one queue, one worker, an answer channel per action; draining the queue on stop", NS + ": enqueue, Start, sendStoppedLikeNamespaceErrorToActionWaiters")],
     [("action", "the queue of calls", NS), ("running, stopped", "life cycle", NS)],
     ["call and return at the clients", "batches given to the storage", "race detector reports"],
     "runtime monitor: exactly-once checking of uniquely identified calls over a recording storage, race detector",
     "Held on the interleavings sampled; the like storage is replaced by a recording one, since the real one is a stub.")

prop("C08", "Stopping a namespace closes its files once, in order, with the data saved",
     "However a namespace ends - stopped once or many times, deleted, cancelled, several at once, or its start having failed halfway - each storage it opened is closed "
     "exactly once, the one of likes before the operation log and the index it depends on, and nothing is processed afterwards. "
     "Then the files are unlocked and contain all that was processed, and a namespace of the same name can be started over them; a failed start "
     "can be retried, while a running or stopped namespace refuses another start. Deleting or stopping never blocks or panics, running or not.",
     ["schedules", "fault_sequences", "histories"], "for all moments of stopping, cancelling or a failing start relative to the calls in progress",
     "needs interleavings and failing opens that no existing test makes",
     [NS, SVC], [("deferred closing in the worker; closing on failed starts", NS + ": Start"), ("life cycle flags under a lock", NS + ": Stop")],
     [("running, stopped", "life cycle", NS)],
     ["open, process and close events of the storages", "the files left"],
     "runtime monitor: event-order checking (open/process/close) of recorded storages and independent decoding of the files",
     "Held on the interleavings sampled.")

prop("C09", "The calls waiting for a namespace are processed together, in order",
     "Calls that came in while a batch was being processed are handed over next as one batch holding everything in the queue, "
     "in the order they came in, and none is left for later as long as it fits in the queue.",
     ["schedules", "histories"], "for all numbers of waiting clients (below, at and above the capacity of the queue) and kinds of calls",
     "batches depend on what arrived meanwhile; no existing test runs a namespace",
     [NS], [("taking the whole backlog out of the queue at once", NS + ": Start")], [("action", "the queue", NS)],
     ["batches given to the storage"],
     "runtime monitor: batch contents compared with the observed order of arrival",
     "Held on the backlogs made; arrival is ordered by observing each client blocked before the next begins.")

prop("C10", "A namespace starts from whatever a crash or a failed operation left",
     "If the process dies or a file operation fails at any moment of the start, the work or the stop of a namespace, the namespace can be "
     "started again, and its operation log has every operation that was saved successfully before and none that was never made. Its index is then exactly "
     "what a completed stop saved, or empty. An index file that is still marked as locked or was cut short is replaced by an empty one instead of preventing the start.",
     ["crash_points", "fault_sequences", "histories"], "for every file operation of a namespace's life as the failing one or the last one",
     "needs enumeration of crash points over the combination of both storages and the namespace",
     [NS, I + "delta/storagefactory.go", I + "index/storagefactory.go", I + "index/storage.go"],
     [("recovery of the log and reset of the index when opening", NS + ": openMaybeRecoverDeltaStorage, openMaybeResetIndexStorage")],
     [], ["os-level operations", "contents of the restarted storages"],
     "runtime monitor with fault injection: instrumented os package, crash and fault enumeration of a namespace's life",
     "Enumerates the mutating file operations of sampled lives. Crash model: process crash with torn writes.")

prop("C11", "The operation log returns the last operation of every pair, across reopenings",
     "After any history of additions, flushes, closings and reopenings the log returns for a user and an item exactly the last operation added for them, "
     "flushed or not, and says that there is none if none was added. Its counts of users and items and the reported file size agree with this content.",
     ["histories", "inputs"], "for all histories and all 64-bit users and items",
     "existing tests use a few fixed entries; histories that mix flushed and unflushed operations are unbounded",
     [I + "delta/storage.go", I + "delta/storagefactory.go", I + "delta/protocol.go"],
     [("entries in memory, split into saved and unsaved, rewritten on flush", I + "delta/storage.go")],
     [("entries", "operations by user and item", I + "delta/storage.go")],
     ["return values of the log", "the file"],
     "runtime monitor: last-writer-wins model against the real storage",
     "Held on the random histories run.")

prop("C12", "The operation log never loses or invents an operation in a crash",
     "Whatever the moment of a crash - between any two file operations or inside any write - the log can be opened afterwards with recovery "
     "and has, for every pair, the last operation flushed before the crash or the one of the flush that it interrupted, and nothing else. "
     "Crashes during the recovery itself change nothing about this.",
     ["crash_points", "histories"], "for every crash point of every history, and of the recoveries that follow",
     "tests recover a few fixed images; crash points of arbitrary histories, nested ones above all, are beyond them",
     [I + "delta/storage.go", I + "delta/storagefactory.go", I + "delta/protocol.go"],
     [("lock flag, append-only flush and recovery", I + "delta/storagefactory.go: Recover, OpenMaybeRecover")],
     [("locked", "the file wasn't closed", I + "delta/protocol.go")],
     ["images of the file at every operation", "contents after recovery"],
     "runtime monitor: crash-point enumeration on a recording file, contents checked against the flushed history",
     "Every crash point of the sampled histories; crash model: process crash, operations persist in order, writes may be torn.")

prop("C13", "Damage to an operation log costs only the damaged entries",
     "When a log that wasn't closed properly is opened with recovery and some of its bytes are damaged or missing, every undamaged entry before and after the damage "
     "is kept, in order, and every entry whose checksum is wrong or whose operation is unknown is dropped. The recovered log is valid: it opens again without recovery with the same contents.",
     ["inputs", "fault_sequences"], "for all positions, kinds and amounts of damage (changed bytes, zeroed or foreign blocks, cut or garbage tails, wrong counts)",
     "tests damage one fixed file",
     [I + "delta/protocol.go", I + "delta/storagefactory.go"],
     [("fixed-size entries with checksums copied one by one", I + "delta/protocol.go: RecoverTo")], [],
     ["contents after recovery"],
     "runtime monitor: damage injection with an independent decoder deciding which entries survive",
     "Held on the damaged files made. Entries are fixed-size and byte damage keeps them aligned; a damage that keeps a checksum valid is undetectable and counts as undamaged.")

prop("C14", "A failed file operation never makes the operation log lie",
     "If a file operation fails while the log is opened, recovered, flushed or closed, the caller gets an error, the operations stay "
     "readable in memory, and a later flush or close that reports success has saved all of them. Operations saved before the failure are "
     "found by the next opening, whatever happened since.",
     ["fault_sequences", "histories"], "for every file operation of every history as the failing one (writes after any number of bytes), with retries",
     "no existing test makes a file operation of the log fail",
     [I + "delta/storage.go", I + "delta/storagefactory.go", I + "delta/protocol.go"],
     [("error propagation; unsaved entries kept until saved", I + "delta/storage.go: Flush, flushEntries, flushHeader")], [],
     ["errors returned", "contents in memory and after reopening"],
     "runtime monitor with fault injection: every file operation fails in turn, retries and reopening checked against a model",
     "Every fault position of the sampled histories, one fault each (plus those of recovery).")

prop("C15", "A file is marked clean only when it is complete, and used by one owner",
     "While an operation log or an index is in use, or its last use was interrupted, its file is marked as locked, and opening a locked file (or iterating over a locked database) without recovery is refused without "
     "changing it. The mark is removed only after everything else has been written, by a closing or a recovery, so a file marked clean is always complete. Reading or changing the mark leaves the rest of the file, "
     "of any of the three kinds, and the position in it alone.",
     ["crash_points", "histories"], "for every moment (file operation) of every session on each of the three kinds of files",
     "tests look at the mark after whole operations only",
     [I + "delta/protocol.go", I + "delta/storagefactory.go", I + "delta/storage.go", I + "index/storage.go", I + "index/protocol.go", I + "recdb/protocol.go"],
     [("lock flag in the header written first and removed last", I + "delta/storagefactory.go: Open; " + I + "index/storage.go: Close")],
     [("locked", "in use", "headers of the three formats")],
     ["image of the file after every file operation"],
     "runtime monitor: invariant checked on the file image after every file operation",
     "Every file operation of the sampled sessions.")

prop("C16", "The index is an exact map across reopenings",
     "After any history of puts, removals, closings and reopenings, looking up an identifier in the index gives exactly the value last put for it, "
     "or nothing if it was never put or was removed since.",
     ["histories", "inputs"], "for all histories, sizes and 64-bit identifiers and values",
     "existing tests use a few fixed entries",
     [I + "index/storage.go", I + "index/storagefactory.go", I + "index/protocol.go"],
     [("a map loaded at the start and saved on closing", I + "index/storage.go: load, saveEntries")], [("entries", "the map", I + "index/storage.go")],
     ["lookups", "the file"],
     "runtime monitor: map model against the real storage",
     "Held on the random histories run.")

prop("C17", "The index is exact or reported as corrupted after a crash or fault",
     "Whatever file operation of an index session is the last one before a crash or fails, the file afterwards opens as exactly the map of the last completed session, or "
     "exactly the one of the interrupted session, or is reported as corrupted - never as anything else. A closing that reported success has saved the map.",
     ["crash_points", "fault_sequences", "histories"], "for every file operation (writes torn anywhere) of every session",
     "tests neither crash nor fail file operations",
     [I + "index/storage.go", I + "index/storagefactory.go", I + "index/protocol.go"],
     [("lock flag set while the file may differ from the map", I + "index/storage.go: create, load, Close")], [],
     ["result of opening every image", "errors"],
     "runtime monitor: crash-point and fault enumeration on a recording file",
     "Every crash point and single fault of the sampled sessions.")

prop("C18", "Database entries read back as written",
     "Whatever lists of likes and dislikes an entry has and whatever capacity it is given, writing it and reading it back yields the same user, capacity and lists, consumes exactly the bytes written, and "
     "leaves the neighbouring entries unaffected; an entry that doesn't fit in its capacity is refused before anything is written. Predicted sizes equal the written ones, "
     "and failing readers and writers yield errors, not wrong entries.",
     ["inputs", "fault_sequences"], "for all entries, capacities and numbers of entries, and readers and writers that work in pieces or fail",
     "tests use a few small entries and no padding",
     [I + "recdb/protocol.go", I + "recdb/likeprotocol.go", I + "recdb/iterator.go", "internal/helpers/io.go"],
     [("entry header with the capacity, data, zero padding", I + "recdb/protocol.go: WriteEntry, ReadEntry")], [],
     ["bytes written", "entries read", "counts and errors returned"],
     "runtime monitor: round trips compared with an independent encoder",
     "Held on the entries generated.")

prop("C19", "Rewriting entries while iterating changes exactly those entries",
     "Iterating over a database returns every entry once, in file order, from the beginning again after rewinding. Replacing the entry just returned changes exactly that entry and the iteration goes on "
     "with the one after it; a replacement that doesn't fit in the place is refused, as is one without a current entry, and nothing in the file changes. An operation that failed because of the file can be tried again and then does what it would have done.",
     ["histories", "inputs", "fault_sequences"], "for all databases and all interleavings of advancing, rewriting and rewinding",
     "tests rewrite single entries of fixed files",
     [I + "recdb/iterator.go", I + "recdb/protocol.go"],
     [("the position of the entry returned last", I + "recdb/iterator.go: Next, SetPrevious, Rewind")], [],
     ["entries returned", "bytes of the file after each step"],
     "runtime monitor: byte-exact model file against the real iterator",
     "Held on the interleavings generated.")

prop("C20", "Malformed files never crash, hang or exhaust the service",
     "Whatever bytes a log, index, database or registry file consists of, opening, recovering and reading it ends with a result or an error: it never panics, never runs "
     "forever, and never allocates memory out of proportion to the size of the file.",
     ["inputs"], "for all byte strings as files of each kind",
     "the space of malformed files is unbounded; the tests try very few",
     [I + "delta/protocol.go", I + "delta/storagefactory.go", I + "index/storage.go", I + "index/protocol.go", I + "recdb/protocol.go", I + "recdb/likeprotocol.go", I + "recdb/iterator.go", SVC],
     [("prefix, count, capacity and checksum checks while reading", "the Read functions of the formats")], [],
     ["panics", "allocated bytes", "number of entries returned and CPU time"],
     "runtime monitor: mutated files under panic, allocation and termination monitors",
     "Held on the files generated; the bound is 4 MB plus 400 times the size of the input.")

prop("C21", "A profile is a pair of disjoint sets",
     "After any sequence of likes, dislikes and their removals, a profile's liked and disliked items are exactly those last put there and not removed or moved since; the two lists "
     "are sorted, have no duplicates and no common items, and asking about an item tells its side.",
     ["histories", "inputs"], "for all sequences and all 64-bit items",
     "tests use short fixed sequences",
     [D + "profile.go", "internal/helpers/arrays.go"], [("sorted arrays with binary search", D + "profile.go")], [],
     ["lists of the profile"],
     "runtime monitor: set model against the real profile",
     "Held on the sequences generated.")

prop("C22", "Profile similarity follows its definition",
     "The similarity of two profiles with a dislike factor f from 0 to 1 is the number of likes and f times that of dislikes they have in common relative to all the different ones "
     "they have, in percent, up to rounding; it is always a number from 0 to 100, symmetric, 100 for a profile with likes and itself, and 0 for profiles without anything in common. Computing it leaves the profiles alone.",
     ["inputs"], "for all pairs of profiles, empty ones included, and all factors from 0 to 1",
     "tests compute two or three examples",
     [D + "profile.go"], [("merging of sorted lists", D + "profile.go: computeSimilarityBetweenSets, ComputeSimilarity")], [],
     ["the value returned"],
     "runtime monitor: exact rational oracle and metamorphic relations",
     "Held on the pairs generated, with a tolerance for float32 rounding.")

prop("C23", "The sorted-array helpers keep order and contents",
     "On a sorted array, searching finds an equal element if and only if there is one, and the closest one is at the least distance; inserting adds one value, "
     "putting adds it only if it's missing, and removing takes out exactly the element at the position. The result is sorted and has no other changes. "
     "This holds for all numeric types, even where a distance exceeds the range of the type.",
     ["inputs"], "for all sorted arrays (duplicates, extremes of the types), values, positions and numeric types",
     "tests use a few small arrays",
     ["internal/helpers/arrays.go"], [("binary search", "internal/helpers/arrays.go")], [],
     ["returned arrays and positions"],
     "runtime monitor: linear-scan oracles over random arrays",
     "Held on the arrays generated. The order-free removal is checked as such (contents only).")

prop("C24", "The in-memory file behaves like a file",
     "Any sequence of reads, writes, seeks and truncations of the in-memory file gives the results and the contents that a byte sequence with a position gives, "
     "the same as a real file does wherever both define the operation; a refused operation changes nothing.",
     ["histories", "inputs"], "for all sequences of operations with all offsets and sizes",
     "other tests rely on it but do not test it",
     ["internal/helpers/file_buffer.go"], [("a slice and a position", "internal/helpers/file_buffer.go")], [],
     ["results, contents and position"],
     "runtime monitor: byte-slice model and an operating-system file side by side",
     "Held on the sequences generated.")

prop("C25", "Independent files and profiles can be used from different threads",
     "Storages, iterators and profiles that were made by the same factories and formats but are different can be used from different threads at once without data races, each one behaving as if it were alone.",
     ["schedules", "histories"], "for all interleavings of the operations on independent objects",
     "hidden shared state shows only in concurrent use, and no existing test is concurrent",
     ["internal/helpers/io.go", I + "delta/storagefactory.go", I + "index/storagefactory.go", I + "recdb/protocol.go", I + "recdb/likeprotocol.go"],
     [("stateless factories, formats and helpers", "internal/infra, internal/helpers")], [],
     ["race detector reports", "results against each one's own model"],
     "runtime monitor: race detector and per-object models under concurrent use",
     "Held on the schedules run.")

prop("C26", "The file formats don't change",
     "Files of operation logs, indexes and like databases written by this version have exactly the documented layout (magic, version, header, entries, checksums, byte order), "
     "and files of that layout written by anything else are read with the same meaning. So files written before an upgrade remain readable. A database opened or created by its path is read from its beginning and is left as it was.",
     ["inputs", "histories"], "for all contents of files",
     "a round trip through the same code cannot notice that both directions changed; tests pin few fields",
     [I + "delta/protocol.go", I + "index/protocol.go", I + "recdb/protocol.go", I + "recdb/likeprotocol.go"],
     [("fixed-size binary structures", "the protocols")], [],
     ["bytes written", "contents read from independently encoded files"],
     "runtime monitor: independent encoder and decoder of the three formats",
     "Held on the contents generated. The layout is pinned as of the base commit.")

prop("C27", "Acknowledged likes are visible to profiles and recommendations",
     "A like or dislike that was acknowledged is reflected in all later profile queries, similarity queries and recommendations, also after a restart.",
     ["histories", "schedules"], "for all histories of likes, dislikes and queries",
     "needs the like storage, which is a stub",
     [I + "recdb/likestorage.go", NS], [("processing of actions", I + "recdb/likestorage.go: ProcessActions (not implemented)")])

prop("C28", "The namespaces of a service run independently of each other",
     "Starting the service starts every namespace whose storages can be opened; those that can't be opened don't keep the others from running. A call to a "
     "namespace is processed by that namespace and no other one, and running namespaces go on answering without any failure or loss while namespaces are created, "
     "changed, deleted or stopped around them. A change of a running namespace, its deletion included, that fails because the registry can't be saved "
     "leaves it running and registered, while one that was deleted stops, saves its data and answers no call any more.",
     ["schedules", "histories", "fault_sequences"], "for all sets of namespaces, some of which can't be opened, and all interleavings of calls and registry changes",
     "no existing test runs a namespace of a service, let alone several of them while the registry changes",
     [SVC, NS], [("starting each namespace, logging failures", SVC + ": Start"), ("stopping a namespace once its deletion was saved", SVC + ": DeleteNamespace")],
     [("namespaces", "the registered namespaces, running or not", SVC), ("running, stopped", "life cycle", NS)],
     ["open, process and close events of recorded storages put into the namespaces", "answers of calls", "files left", "a restarted service"],
     "runtime monitor: exactly-once and event-order checking over recorded storages of several namespaces, under the race detector with delays at locks",
     "Held on the schedules sampled. The storages are put into the namespaces by the types of their fields, since the program has no like storage yet.")

prop("C29", "What ended leaves no file open and nothing running",
     "A namespace that was stopped, deleted or cancelled, a start that failed or was refused, a change, save or load of the registry that succeeded or failed, "
     "a request that was answered, and an index or recdb file that couldn't be opened or created or was closed leave no file of theirs open and no goroutine waiting or running, "
     "however often they happen and whichever file operation fails (a namespace whose data couldn't be saved in the end may keep that file). "
     "The calls a running namespace has answered leave neither behind.",
     ["fault_sequences", "schedules", "histories"], "for all ways and moments of ending, and all file operations failing or finding damaged or obstructed files",
     "leftovers are invisible to assertions on results; no existing test looks at open files or goroutines, or lets an operation of a real file fail",
     [NS, SVC, I + "index/storagefactory.go"], [("closing on failed starts, deferred closing", NS + ": Start"), ("closing on failed loads", I + "index/storagefactory.go: Open")],
     [("running, stopped", "life cycle", NS)],
     ["descriptors of the process", "stacks of all goroutines", "file operations in an instrumented package os"],
     "runtime monitor: descriptors and goroutines counted at quiescence in virtual time, under injected faults of each file operation, with delays at locks",
     "Held on the executions and faults sampled.")

prop("C30", "What operations read, write, print and allocate stays in proportion",
     "A flush of the operation log writes its header and the operations added since the last one, however much the log holds; lookups and additions in opened storages touch no file; "
     "opening, recovering, iterating, rewriting and closing read and write at most a few times the size of the file, and the registry is written about once per change and neither written nor reread by requests that only read. "
     "The memory allocated stays in proportion to the data likewise, and what is printed or logged doesn't grow with the data stored.",
     ["inputs", "histories"], "for all sizes and contents of files and registries, and sequences of operations on them",
     "costs are invisible to assertions on results; the existing tests neither measure them nor use data large enough to matter",
     [I + "delta/storage.go", I + "index/storage.go", I + "recdb/iterator.go", SVC], [("what is flushed", I + "delta/storage.go: flushEntries"), ("what is loaded", I + "index/storagefactory.go")],
     [("opened, flushed, closed", "sizes and costs of files", I + "delta/storage.go")],
     ["operations and bytes of files", "bytes printed and logged", "bytes allocated"],
     "runtime monitor: file operations, bytes, output and allocations metered per operation and compared with generous linear budgets, for small operations on large data",
     "Held on the executions sampled; the budgets are several times what the operations need.")

prop("C31", "Nobody waits longer than for the work at hand",
     "A call to a running namespace whose queue has room is handed to the storages within a second of being made or of the end of the batch that is being collected or processed, "
     "and it returns within a second of its processing. Whatever time a storage or a client sending a request takes, other namespaces, the registry, requests, the settings, refused starts, stops and "
     "deletions take no more than a second. Calls that wait when their namespace is stopped, deleted or cancelled are answered, and its storages begin to be closed, within a second of the end of the batches in progress; "
     "the calls don't wait for the closing.",
     ["schedules", "histories"], "for all durations of batches, closings and requests, and all interleavings of calls, requests, stops, deletions and cancellations",
     "the existing tests run no namespace and no two things at once; tests with real storages would take hours, and show single schedules",
     [NS, SVC, I + "api/shard/endpoints/namespace.go"], [("waiting for more calls, processing", NS + ": Start"), ("waiting for room in the queue", NS + ": enqueue"), ("the lock of the registry", SVC)],
     [("action", "queue of calls", NS), ("actionMutex, settingsMutex, mutex", "locks held by one that waits", NS + ", " + SVC)],
     ["virtual times of calls, batches, closings, requests and operations of the registry"],
     "runtime monitor: deadlines checked over events timed in virtual time, while slow storages, slow clients and full queues hold things up",
     "Held on the schedules sampled. A second stands for no time; real durations of computations aren't judged.")

prop("C32", "A refused request is told what was wrong with it",
     "A request whose body has the right types but invalid values is answered with 400 and a list of errors that names each field at fault (by its JSON name, whatever the case of its letters) once and no other one, "
     "and says of a missing field that it is required, of the factor which bound it exceeds, of the type which one there is, and never just that something is unknown; "
     "a name wrong only in beginning with a digit may be left out while other fields are wrong. Every other refusal carries a non-empty message, which says of a name that it is taken and of a namespace that it is not found. "
     "The answer is about that request alone, however many are being answered at once.",
     ["inputs", "schedules"], "for all requests to create and change namespaces",
     "no existing test sends a request",
     [I + "api/shard/endpoints/helpers.go", I + "api/shard/dto/validationerror.go"], [("errors of bindings", I + "api/shard/endpoints/helpers.go: AbortWithBindingErrors"), ("errors of names and types", I + "api/shard/dto/namespacecreaterequest.go: ToDomain")],
     [("fields", "the errors found in a request", I + "api/shard/dto/validationerror.go")],
     ["status and body of each answer"],
     "runtime monitor: answers of the real handlers compared with the flaws planted into the generated requests, also under the race detector with concurrent clients",
     "Held on the requests sampled.")


NOT_APPLICABLE = {"C27": "the storage that should process likes and queries is an empty stub at this commit and nothing in the program can start a namespace with it, "
                         "so there are no executions to observe"}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in P:
        if p["id"] in NOT_APPLICABLE:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 ./check.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 ./check.py %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["_technique"],
            "level": LEVELS[p["id"]],
            "level_note": p["_note"],
        })
    json.dump({
        "version": 1,
        "setup_cmd": "python3 ./check.py --setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
        "notes": "No hooks in /repo: the instrumentation (harness package, patched os package) goes in through a build overlay.",
    }, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
