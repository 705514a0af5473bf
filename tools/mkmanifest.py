#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "Trusted: the reference model (harness/src/model.rs, about 400 lines, an abstract graph with a naive query evaluator). Exploration of generated cases, not proof."
C = {
 "C01": ("stateful model-based property testing: random histories and query trees against an executable graph model, shrinking", "exploration", "Every generated query's whole output list is compared with a naive evaluation over an abstract graph, on both datastores. " + MODEL),
 "C02": ("model-based and metamorphic property testing of limits, paging and counts", "exploration", "Limited results are compared with the unlimited ones, paging with the full range, counts with the size of the counted result, besides the model. " + MODEL),
 "C03": ("stateful model-based property testing with whole-content comparison after every operation", "exploration", "After every operation all content is read back through queries and through the transaction interface and compared with the model; histories are biased to deletion and re-creation. " + MODEL),
 "C04": ("stateful model-based property testing biased to index maintenance", "exploration", "Presence and value queries for every mentioned name and value are compared with the model after every operation. " + MODEL),
 "C05": ("stateful model-based property testing with whole-content comparison after every write", "exploration", "The result and the complete effect of each write are compared with the model. " + MODEL),
 "C06": ("differential property testing of the two datastores in lockstep", "exploration", "Both datastores execute the same generated history, including invalid requests and dangling bulk items; outcomes and query results are compared as multisets where order is free. Trusted: the normalisation of orders."),
 "C07": ("property testing with invalid and boundary requests, in release and debug-assertion builds", "exploration", "Panics are caught, refusals are compared with the documented error, the content must be unchanged and the database usable afterwards. " + MODEL),
 "C08": ("differential property testing: one bulk insertion against the same items one by one", "exploration", "Twin databases are compared through all queries, and with the model. " + MODEL),
 "C09": ("stateful model-based property testing with reopen, repair, sync and option changes as operations", "exploration", "After every reopen all content, index settings and index answers are compared with the model. " + MODEL),
 "C10": ("crash and fault injection over generated histories: log cut at generated bytes, process killed at its n-th file call, failing log writes; oracle: the states after the history's prefixes", "fault_enumeration", "The state after every fault is compared, by reading everything back, with the model state after each admissible prefix. A killed process loses nothing it gave to the kernel; a machine crash is modelled as losing the tail of the newest log. " + MODEL),
 "C11": ("stateful model-based property testing with sync and reload as operations", "exploration", "The reloaded database is compared with the model as of the sync and evolves further in lockstep with it. " + MODEL),
 "C12": ("fault injection into generated syncs (every file call may fail, be short, or end the process), concurrent watching of the image, and mutation fuzzing of images", "fault_enumeration", "The image is compared byte for byte with the old one or by content with the new one. Faults are those of the C library's file calls. " + MODEL),
 "C13": ("property testing: algebraic laws of comparison and hashing over generated values, and round trips through every datastore", "exploration", "Values are compared with an independent canonical form that tells every number apart; every written value is read back, and found by exactly its own value query. Trusted: that canonical form."),
 "C14": ("property testing of the name rule against an independent predicate, of the key encoding, and of storage under confusable keys", "exploration", "The rule is restated independently from Unicode tables of the Rust standard library; every combination of confusable ids, types and names gets its own value, all are read back. Trusted: char::is_alphanumeric."),
 "C15": ("property testing of id generation from concurrent threads and of id successors against 128-bit arithmetic", "exploration", "All ids of a case, from up to 16 threads, are collected in one set; schedules are those the operating system produces."),
 "C16": ("property testing of the protobuf conversions against an independently written encoder and decoder, and of mutated messages and byte strings", "exploration", "Messages are produced and read by an encoder and decoder written from the .proto file, not generated by prost; each defect placed in a message must be refused. Trusted: harness/src/wire.rs."),
 "C17": ("differential and fault-seeding property testing of an in-process gRPC server: the same generated history through a client and on an embedded database, and messages with defects", "exploration", "Every answer of the client is compared with the embedded database's and with the model; raw messages are written by an independent encoder. Transport: HTTP/2 over loopback. " + MODEL),
 "C18": ("property testing of concurrent histories under schedule noise: search for a sequential order of each generated history (linearizability) against the model; on RocksDB per-element linearizability, group atomicity and invariants after the race", "exploration", "Schedules are those of the operating system disturbed by random pauses at allocations, lock releases and log writes; they are sampled, not enumerated. " + MODEL),
 "C19": ("property testing of the vertex map over generated graphs, thread counts, failing calls and read errors, and model-based testing of plugins loaded into the real server binary", "exploration", "Maps are judged by the multiset of calls; a plugin of the checks' own executes generated transaction steps inside the server process and its answers are compared with the model. Plugins that panic are out of scope. " + MODEL),
 "C20": ("stateful model-based property testing of the real server and client binaries, with restarts, repairs and kills at generated times as operations", "exploration", "Outputs are compared with the library's own formatting of the model's answer, content after every restart with the model. A killed process loses nothing it gave to the kernel. " + MODEL),
 "C21": ("fault injection into generated histories: every call and item of a wrapped datastore, and every file read of RocksDB tables and memory images, is made to fail in turn; oracle: the fault-free answer or an error, and the model for unchanged content", "fault_enumeration", "Each probe request is repeated with the failure at each of its storage accesses (up to 16 places), as a single or lasting failure; afterwards all content is compared with the model. File faults are EIO and flipped bits at the C library's read calls. " + MODEL),
 "C22": ("differential property testing of both stored formats against an independent writer and reader of them, over generated contents and histories", "exploration", "Contents are written to disk by an independent implementation of the two formats (column families, keys, hashes; MessagePack), read and evolved by the code under test, and what it then stored is decoded independently and compared with the model. Trusted: that implementation (harness/src/checks/formats.rs), checked against the pinned revision. " + MODEL),
 "C23": ("fault injection: generated histories in a subprocess whose file writes and fsyncs are accounted for; the power fails at a generated file call, and what is left of each file is what was forced to the disk plus a generated part of the rest; oracle: the states after the history's prefixes from the last sync on", "fault_enumeration", "The content after each failure is compared, by reading everything back, with the model state after each admissible prefix. Creating, renaming and removing files is taken to reach the disk at once. " + MODEL),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in C:
        t, lvl, note = C[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": lvl, "level_note": note})
na = [{"property": p["id"], "reason": NA.get(p["id"], "its check is not built yet")} for p in props if p["id"] not in C]
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "Checks are run by ./check, which rebuilds the harness against /repo's working tree. Known findings: KNOWN_FINDINGS.txt. The repository needs no hooks."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
