#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]

COMMON = ("Seeded search, not exhaustive: held on every simulated run the evidence file counts. The detector's own code, the Go "
          "standard library down to the system call, net/http's client above the transport, archive/zip, yaml, toml and errgroup run "
          "for real; disk, network, clock, randomness, map order and goroutine scheduling are simulated. Trusts the reference model "
          "(sim/zzsim) and the overlay that diverts system calls, the transport and the scheduler. ")
NOTE = {
 "C01": "Packages, advisories and answers come from generated worlds of up to some 40 packages; the large-batch cases have over 1000. Three of the eight workers run under the race detector with the simulator's own hand-offs hidden from it.",
 "C02": "Three of the eight workers run under the race detector.",
 "C06": "Kill points are file-system and network operations, not instructions; the torn-write model is POSIX page cache with fsync.",
 "C08": "Two or three whole runs as separate simulated processes in one address space, each with its own copy of the package-level state.",
 "C09": "Power loss drops any subset of writes that were not synced; rename without sync may survive without the data.",
 "C11": "Packages expected are those of generated files with a known package list per format; all parsers except mvn/pom interpolation variants are generated.",
 "C17": "Differential: the same world is run under several schedules, map orders and chunkings and compared byte for byte.",
 "C19": "Mangled bytes, tokens, JSON nodes and whole documents; the bound is a step and wall-clock budget per run.",
 "C20": "Also bounds progress: with the limit reached, answering one request must let another start.",
 "C22": "Compared with the model and with a second run of each lockfile alone.",
}
NA = {
 "C90": "A pure function of a version string and an event list: no schedule, clock, I/O or peer can change its outcome, so simulation has nothing to decide (the simulated worlds do use ranges, events and versions lists, and C16 compares the outcome with a small model, but that is sampling inputs).",
 "C91": "A pure function of a complete file's bytes; the I/O side of it (short reads, errors, chunking, damaged bytes) is C11 and C19.",
 "C92": "A pure function of two names; no nondeterminism or fault is involved.",
}
m = {
 "version": 1,
 "setup_cmd": "./check --build",
 "hooks": {
  "guard": "OSV_SIM (environment variable read by the overlay's own init code) and the go build -overlay file itself; /repo contains no hook",
  "enable": "go build -overlay .cache/overlay/overlay.json: adds a seam to copies of runtime, syscall, os, net/http and golang.org/x/sys/unix, the package zzsim, and one file to package main; nothing in /repo is changed",
  "source_commits": [],
 },
 "checks": [],
 "not_applicable": [],
 "notes": "Every check takes --seed (VERIF_SEED) and --tier (VERIF_TIER); ./check --replay FILE reproduces a reported violation exactly. See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"./check {i} --tier quick",
        "thorough_cmd": f"./check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded search over worlds, schedules and fault sequences, reference-model oracle)",
        "level": "exploration",
        "level_note": COMMON + NOTE.get(i, ""),
    })
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
