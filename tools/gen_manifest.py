#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": ("stateful model-based generation against a reference model", "exploration", "Random write/read/sync histories over all sample types and layouts; every read compared bit for bit with an in-memory model."),
 "C02": ("stateful model-based generation; differential in-session view against reopened view and model", "exploration", "Random histories, complete view compared after a fresh open of the bytes."),
 "C03": ("generated foreign files (independent encoder) x stateful append histories against a reference model", "exploration", "Trusts the independent encoder as the description of foreign files."),
 "C04": ("generated files from an independent encoder, decoded content compared with a reference model; metamorphic re-encoding", "exploration", "Trusts the independent encoder; DAQmx and unequal channel lengths in one segment are outside."),
 "C05": ("generated files x window reads, oracle is the slice of the model; guard values behind the window", "exploration", "Starts and lengths are drawn around block and chunk boundaries as well as uniformly."),
 "C06": ("generated files x joint reads, differential against independent single reads", "exploration", "All orders, unequal and empty buffers, any start."),
 "C07": ("stateful generation of property histories against a map model", "exploration", "All property types, names and objects, overwrites interleaved with data, in session and reopened."),
 "C08": ("generated name sets and histories against a reference model of the listings", "exploration", "Names are built to collide: prefixes, quotes, separators, empty, unicode."),
 "C09": ("generated strings and mutated path texts, round trip and an independent path grammar as oracle", "exploration", "The grammar in the harness decides which texts are well formed."),
 "C10": ("structured mutation fuzzing with operation budgets; exhaustive single-byte sweep of sampled small files", "exploration", "No panic, no overflow, bounded stream operations, deterministic answers; overflow checks and debug assertions on. Memory is C23."),
 "C11": ("generated histories, exhaustive cut positions of each generated file, oracle is the complete file's content", "fault_enumeration", "Every byte position of every generated file is tried as the cut."),
 "C12": ("stateful generation; emitted bytes decoded by an independent strict parser and compared with the model", "exploration", "Trusts the independent parser as the format's definition."),
 "C13": ("generated files x all pairs of stored and requested types, oracle is the table of storage types", "exploration", "Includes types that change during a history."),
 "C14": ("metamorphic: history with refused calls against the same history without them", "exploration", "Bytes and complete views must be equal."),
 "C15": ("stateful generation with snapshots of the stream at every sync, drop and read", "exploration", "The instrumented stream records every write position."),
 "C16": ("generated files, enumeration of failing stream operations, and chopped or interrupted reads, oracle is the fault-free result", "fault_enumeration", "Every read and seek of an operation is tried as the failure point, up to a stated cap."),
 "C17": ("stateful generation, enumeration of failing stream operations and torn writes, oracle is the set of admissible contents", "fault_enumeration", "Acknowledged content must survive; content of failed calls may or may not be present as a prefix."),
 "C18": ("generated values of every type against independent byte layouts; round trip; all truncations", "exploration", "The layouts are written out in the harness from the NI format description."),
 "C19": ("generated values x all target types; round trip and refusal", "exploration", "Calendar times cover 1904 to 2100."),
 "C20": ("generated files x windows on a recording stream, oracle is a byte and operation bound", "exploration", "Bounds allow fixed read-ahead; they are stated in DESIGN.md."),
 "C21": ("generated valid files with one generated structural contradiction each; open must report an error", "exploration", "The corruption kinds are those the statement lists."),
 "C22": ("differential: the same generated history on disk and in memory", "exploration", "Files live in a scratch directory that is removed."),
 "C23": ("generated files with false size claims under a limiting allocator; process death is caught by a supervisor and shrunk", "exploration", "Memory refusal is modelled by a per-thread limit of 8 MiB + 256 bytes per input byte."),
 "C24": ("stateful generation; growth of the stream against a size formula at every operation", "exploration", "The exact part covers repeats of the previous data write; other writes have an upper bound."),
 "C25": ("metamorphic: the same generated writes with and without interruptions, bytes compared", "exploration", "Syncs, reads, writers, reopening, start position and short writes are varied."),
 "C26": ("generated segment layouts on a computed stream of up to petabytes, samples computed from their position as oracle; large counts against the reference model", "exploration", "Vast content is a function of the position; only headers and appended data are stored."),
}
extra = os.path.join(root, "tools", "manifest_extra.json")
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
checks = []
for p in props:
    t, level, note = T[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}", "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
                   "technique": "property-based testing: " + t + ("" if p["id"] in ("C22", "C23", "C26") else
                                "; thorough adds coverage-guided fuzzing (libFuzzer) of the generators' choices"), "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": [],
     "notes": "One Rust harness (harness/) with a path dependency on /repo; no hooks in /repo are needed. Repaired defects are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
