#!/usr/bin/env python3
# Writes and validates /verif/MANIFEST.json. Run with python3-vt.
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T="deterministic simulation with fault injection: "
checks=[
("C01","exploration",T+"seeded delivery schedules (read sizes, EINTR runs) of a simulated stream; reference decoder as oracle",
 "sampled: about 90k seeded runs quick; both stream modes, valid and corrupted encodings of ~250 corpus types; the reference decoder is written from the documentation and trusted"),
("C02","exploration",T+"back-to-back values on one simulated stream; the stream position is checked after each decode",
 "sampled; positions compared with the reference decoder's (including its look-ahead for documented peeking)"),
("C03","exploration",T+"conversing tasks over bounded simulated channels with latency, interrupts and peer crashes on a virtual clock; liveness as no stall",
 "sampled schedules; a stall is declared only when no task can ever run again; a read issued after the value's last byte counts as a possible block"),
("C04","exploration",T+"simulated peer crash: inputs cut at drawn places for every entry point; reference decoder with end-of-input semantics",
 "sampled cuts (every cut for short encodings is likely, not guaranteed)"),
("C05","exploration",T+"stream read errors injected at drawn offsets, transient or lasting; identity of the error and the outcome checked",
 "sampled; an error is identified by kind, OS code, message and payload"),
("C06","exploration",T+"simulated sink with short writes, EINTR, zero-length accepts and failures; delivered log compared with the reference encoder",
 "sampled; hashed collections are compared as sets through the reference decoder"),
("C07","exploration",T+"simulated disk behind libc calls: open/write/close failures, disk full, short writes; file contents checked after success",
 "sampled; system calls are interposed inside the process; kernel file system behaviour is modelled by an in-memory disk"),
("C08","exploration",T+"simulated disk: crashed writers, torn blocks, mmap/read/fstat failures; outcome compared with decoding the same bytes",
 "sampled crash states, including every state between two system calls of a real write"),
("C09","exploration",T+"failing system calls and panicking user types; ledger of descriptors and mappings audited after each operation",
 "sampled; use after unmap is caught by the mapping really being gone"),
("C10","exploration",T+"corrupted deliveries and misbehaving streams against guard pages, a poisoning allocator and differing stale memory",
 "sampled; debug assertions and overflow checks on; hangs by a watchdog; bounded allocations per run"),
("C11","exploration",T+"one input delivered by every entry point (buffer, copy, streams, user reader, simulated file) and compared with each other and the reference",
 "sampled inputs, half of them corrupted"),
("C12","exploration",T+"peers that claim more than they deliver; metered allocator checked against a per-type bound",
 "sampled; the bound is factor times delivered bytes plus a constant, computed from the type"),
("C13","exploration",T+"element failures, panics, truncation and stream errors planted at drawn places; ledger of element lifetimes",
 "sampled; ~50 container types of watching elements; every drop is attributed to one creation"),
("C14","exploration",T+"random scripts of reader operations under simulated delivery, checked operation by operation against a cursor model",
 "sampled histories of up to 14 operations per script, sizes biased to buffer edges, on all readers including a minimal user-supplied one"),
("C15","exploration",T+"random scripts of writer operations, changing between passes, into guarded buffers; log model as oracle",
 "sampled; built without debug assertions so that what is checked is the shipped behaviour"),
("C16","exploration",T+"scripts and composites that change the context while being decoded or encoded under simulated delivery; ordered log of changes as model",
 "sampled; derived types with fields that use the context are not exercised for vector/buffer encodes (known finding)"),
("C17","exploration",T+"seeded scheduler over tasks, switching at stream operations and between machine instructions (single-stepping); outcomes compared with solo runs",
 "sampled schedules; sequentially consistent interleavings of one machine"),
("C18","exploration",T+"a simulated writer thread stores into atomics between drawn machine instructions of the encoder (single-stepping)",
 "sampled; x86-64, sequentially consistent; a torn value is recognised as one the atomic never held"),
("C19","exploration",T+"multi-hop exchanges between library and reference parties over drawn entry points and transports",
 "sampled; the reference party implements the documented format independently of speedy's code"),
("C20","exploration",T+"user types, readers and writers that raise errors or panics at drawn steps of their code; the error, later steps and later I/O are checked",
 "sampled: every step of user code in small values is likely reached, not guaranteed; a run without failure counts the steps"),
("C21","exploration",T+"the source of a decoded value is unmapped, overwritten or replaced, and other decodes run, at the instant the decode returns; borrowed parts are located in the caller's buffer",
 "sampled; parts which occur several times in the input may be borrowed from any place; padding of raw structs is not compared"),
("C33","exploration",T+"the machine itself is simulated (other byte order and pointer width, by an interpreter) and runs seeded cases of the other checks under simulated delivery; optimised and reduced builds run the same seeds",
 "sampled: about a thousand runs per interpreted machine, 800k of the optimised build, 400k values per feature set; a failure counts if the same tape passes on this machine; s390x and i686 stand for big endian and 32 bit"),
]
na=[
("C30","concerns one pure function across releases: no schedule, fault, time or party for a simulator to decide; a second release would be needed (the current format is held to the documentation by C19's reference party)"),
("C31","compile-time behaviour of a procedural macro: pure function of source text with no run, fault or schedule to simulate"),
]
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[{"property":i,"reason":r} for i,r in na]}
for i,l,t,n in checks:
    m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,"evidence_file":"evidence/%s.json"%i,"technique":t,"level":l,"level_note":n})
m["notes"]="Replay a violation: sim/target/<profile>/sim replay <file>; for C33: cross/run.sh replay <file>. Known findings: known_findings.txt."
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
ids={json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))}
assert ids=={c[0] for c in checks}|{x[0] for x in na}, ids
print(len(m["checks"]),len(na))
