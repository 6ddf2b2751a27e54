#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
T = "deterministic simulation with fault injection: "
M = {
 "C01": ("seeded chunk/EINTR delivery schedules against an independent encoder's model", "reader chunking, buffer capacities, interruptions, file short reads"),
 "C02": ("seeded delivery schedules, pixels and renderings compared with the encoder's model", "bitmaps, palettes, fragment splits, run-length forms"),
 "C03": ("seeded stop/restart points, resume position and items checked", "stop points, decoder choice at each life"),
 "C04": ("seeded read, fill and seek failures, prefix and error-in-place checked", "failure position, kind, permanence, delivery"),
 "C05": ("seeded crash (cut) points of the writer, surviving prefix checked", "cut points, delivery"),
 "C06": ("seeded storage faults on bytes, fields and segments, robustness and memory invariants", "bit flips, lost/repeated/swapped segments, field damage"),
 "C07": ("seeded endings, failures and growth of the stream, liveness bounds on items", "growth after the end, repeating failures"),
 "C08": ("seeded packetisation and delivery against an independent encoder's model", "packet splits, stuffing, foreign packs, short reads"),
 "C09": ("seeded packetisation and delivery, bitmap and renderings compared with the model", "run-length forms, shared fields, palettes"),
 "C10": ("seeded loss of packs, survivors and loss reports checked against the model", "lost packs"),
 "C11": ("seeded crash (cut) points of the writer, surviving prefix checked", "cut points"),
 "C12": ("seeded storage faults on bytes, framing and fields, recovery within a bound checked", "bit flips, lost/repeated/swapped ranges, field damage"),
 "C13": ("seeded delivery and read failures of index files against a line model", "chunking, interruptions, failures, malformed lines"),
 "C14": ("seeded short, interrupted, failing and stopping writers, exact-prefix oracle", "short writes, EINTR, errors, zero writes, disk full"),
 "C15": ("seeded system-call faults below the dump, folder contents checked afterwards", "ENOSPC, EIO, EMFILE, mkdir races, short writes, disk capacity"),
 "C16": ("seeded open and read faults below the file entry points, results checked against the stored bytes", "open and read errno, short reads, EINTR, wrong file types"),
 "C17": ("seeded scheduling of real threads (preemption at I/O, lock, log, allocation points and at any branch, load or store of the library), re-entrant and panicking callbacks, per-job models", "preemptions, lock waits, spurious wake-ups, faults in other jobs"),
 "C18": ("process killed at seeded system calls and restarted on what is left, outputs compared with an undisturbed run's model", "crash points, restarts, I/O errors"),
 "C22": ("seeded mixes of decodable and undecodable subtitles under seeded delivery and packetisation, each item checked in its place", "kinds of undecodability, neighbours, delivery"),
 "C23": ("seeded delivery schedules and reader failures under seeded read/skip sequences and a decoder of the harness", "amounts, chunking, interruptions, failures, buffer capacities, ends"),
 "C19": ("seeded long simulated streams under an accounting allocator, peak-heap and read-ahead invariants", "stream lengths, chunk sizes, early stops"),
}
NA = {
 "C20": "a pure function of one pixel and two thresholds: no schedule, clock, I/O, fault or history can influence it, so simulation has nothing to decide",
 "C21": "a pure function of four coordinates: no schedule, clock, I/O, fault or history can influence it, so simulation has nothing to decide",
}
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
assert set(ids) == set(M) | set(NA)
checks = [{
  "property": i,
  "quick_cmd": f"./check.sh {i} quick",
  "thorough_cmd": f"./check.sh {i} thorough",
  "evidence_file": f"evidence/{i}.json",
  "technique": T + M[i][0],
  "level": "exploration",
  "level_note": f"Holds on every seeded run explored ({M[i][1]}); inputs and schedules are sampled, not enumerated. Trusts the independent encoder/model in sim/src, the interposed seams and the compiler; the library itself runs unmodified.",
} for i in ids if i in M]
json.dump({
  "version": 1,
  "setup_cmd": "./build.sh",
  "checks": checks,
  "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
  "notes": "No hooks in /repo: every seam is an existing generic (BufRead+Seek, Write) or is interposed below std (libc symbols, global allocator, futex). See DESIGN.md.",
}, open(here + "/MANIFEST.json", "w"), indent=1)
