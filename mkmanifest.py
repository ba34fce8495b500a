#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per implemented check."""
import json, os, sys

CRY_T = "model checking: exhaustive enumeration of the bounded input and history spaces on the real library, every result compared with an independent reference implementation"
# property -> (technique, level note)
CHECKS = {
 "C01": ("model checking: exhaustive enumeration of bounded server byte streams (tiny streams, record and message sequences, one- and two-byte changes, announced lengths) run on the real client under a guarding allocator, with bounded transport calls",
         "Complete within the stated bounds; streams outside them are not covered. Memory errors are seen through checked builds, allocation canaries and buffer-scribbling reads, not by a full memory model."),
 "C02": ("model checking: systematic exploration of all transport schedules within bounds (sizes, single and paired failures at every call and every byte offset), each compared with the undisturbed run, itself compared with the reference model",
         "Complete within the stated deviation bounds (up to two failures anywhere, failures at every byte); other schedules are not covered."),
 "C03": ("explicit enumeration of all configurations and random-source behaviours within bounds, each run on the real client and compared with an independent ClientHello encoder",
         "All configurations in the stated spaces (suite, group and signature masks, every name length, every ALPN list shape) and all random-source answers in the stated spaces; nothing is sampled. Configurations outside the bounds are not covered."),
 "C04": ("model checking: every ServerHello in the bounded mutation spaces is run on the real client and compared with an executable model of RFC 8446 client behaviour",
         "Complete enumeration of field values, extension sequences and key-share encodings within the stated bounds; the model's verdict is compared with the implementation on every trace."),
 "C05": ("model checking: every fragmentation, padding, key pair and message size in the bounded spaces is played by a reference server against the real client",
         "Complete within the stated bounds; the reference server is independent code, additionally bound to recorded OpenSSL flights."),
 "C06": ("model checking: an attacker's moves over protected records (every bit flip, drop, replay, swap, reflection, forgery, type change) enumerated completely and run on the real client next to the reference model",
         "Complete enumeration within the stated bounds; cryptographic strength itself is assumed."),
 "C07": ("model checking: all peer alerts, all classes of local error and all transport faults while signalling, enumerated and compared with the reference model",
         "Complete over alert codes, levels and handshake points, and over single failing or partial writes at every byte of the alert."),
 "C08": ("model checking: all histories of two and three connection attempts over a catalogue of server behaviours, with attempts broken off at every byte, compared with a fresh object",
         "Complete over the catalogue and break-off points; behaviours outside the catalogue and longer histories are not covered."),
 "C09": ("model checking: all bounded offers and replies (lists, lengths, encodings, repetitions, reuse histories) run on the real client and compared with the reference model",
         "Complete within the stated bounds on names, list lengths and encodings."),
 "C10": ("explicit-state exploration: every operation sequence to the depth bound is run on the real object and compared after each operation with a life-cycle model",
         "Complete for all operation sequences to the stated depth over 11 operations."),
 "C11": ("model checking: bounded mutation and generation spaces of certificates and chain framings, each refused exactly as an independent reference reader classifies it",
         "Complete within the stated spaces. Where a certificate is only loosely ill-formed in parts the client does not read, any fatal alert is accepted."),
 "C12": ("exhaustive enumeration: every constant, structure member, flag, alert code and error code of the public header, exercised by C code compiled against it and compared with the library",
         "Complete over the header's declarations and all 256 alert codes; one compiler target (x86-64 Linux)."),
 "C13": ("model checking: systematic exploration of schedules: all merges of the calls of two objects, all nestings inside callbacks and all thread interleavings up to a switch bound under a controlled scheduler, each compared with the object alone",
         "Complete within the stated bounds (16 programs, 2 or 3 objects, up to 3 (thorough 4) switches). Threads are switched at callbacks, requests for randomness and between calls, not inside straight library code."),
 "C14": ("model checking: every server behaviour cut off at every byte, every announced message size and every repetition history, with the allocator counting what the library holds",
         "Complete within the stated bounds; memory is counted at the global allocator of the harness."),
 "C15": ("explicit-state exploration: every operation sequence to the depth bound on the real object, with every query asked twice after each operation and compared with the state before",
         "Complete for all operation sequences to the stated depth over 11 operations."),
 "K01": (CRY_T, "Every message length to the bound, every split into parts, every operation sequence to the depth bound, one very long message; contents are fixed patterns per length and all one-bit messages."),
 "K02": (CRY_T, "Every combination of key, message, salt, info and output lengths to the bounds; contents are fixed patterns and all one-bit keys."),
 "K03": (CRY_T, "Every pair of message and associated-data lengths to the bound, every one-bit and one-byte key and block; other contents are fixed patterns."),
 "K04": (CRY_T, "Every pair of lengths to the bound and every combination of the carry-provoking limb patterns; other contents are fixed patterns."),
 "K05": (CRY_T, "Every one-bit change of every input and every tag change in the stated spaces, for every pair of lengths to the bound."),
 "K06": (CRY_T, "All tuples over a boundary-digit alphabet for widths 1 to 8; values outside the alphabet are not covered."),
 "K07": (CRY_T, "All tuples over a boundary-digit alphabet for widths 1 to 8, all small numbers; values outside are not covered."),
 "K08": (CRY_T, "Small prime fields completely through the same generic code; full-width primes over a boundary set."),
 "K09": (CRY_T, "Small prime-order curves completely through the same generic code; P-256 over a boundary set of points and scalings."),
 "K10": (CRY_T, "Small prime-order curves completely through the same generic code; P-256 over boundary scalars and several base points."),
 "K11": (CRY_T, "Small prime-order curves completely (keys, digests, nonce answers; public keys, digests, r, s); P-256 over boundary combinations and the RFC 6979 vectors."),
 "K12": ("model checking: the instruction trace of every documented constant-time operation, single-stepped in an optimized build, compared over all pairs of operands from a boundary set",
         "Complete over the operand sets for widths 1 to 8; control flow only: instructions whose own duration depends on data, and cache effects of addresses, are not seen."),
}
checks = []
for pid in sorted(CHECKS):
    tech, note = CHECKS[pid]
    checks.append({"property": pid, "quick_cmd": f"bash check.sh {pid}",
                   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {pid}",
                   "evidence_file": f"evidence/{pid}.json", "technique": tech,
                   "level": "model_checking", "level_note": note})
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": []}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
