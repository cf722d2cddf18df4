#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
NA = {
 "C14": "A pure function of (layout, value, previous bits): no schedule, time, I/O or fault can influence it, so there is nothing for a simulator to decide. Its effects on stored data are judged within C01 and C04 (65 field layouts, random values).",
 "C15": "Views are pure functions over an immutable slice; no schedule, fault or history exists for the statement to depend on. The access paths are compared with each other on every archive opened in C01-C13.",
 "C16": "Vector and StructBuf are single-owner containers in memory without I/O or interleaving; only the input sequence varies, which is plain property testing. They are used to fill the simulated archives.",
 "C17": "Text formatting of values in memory; nothing nondeterministic takes part.",
}
NOTE = {
 "C01": "interleaved programs over 1-3 archives, short and interrupted writes, flush boundaries, index overflow; read back through the same storage, new storages and after process death, against a reference model",
 "C02": "every crash point (or a sample) of each recorded run: prefixes, torn writes, per-file loss of the latest writes; every resulting disk opened and read; plus opens by other storages in the middle of writing",
 "C03": "errors, full disks, descriptor limits placed on the system calls of writing calls; outcome of each call against the faults that fired in it; retries, later readers",
 "C04": "the whole disk tree against an independent encoder, under seeded schedules and chunkings",
 "C05": "seeded damages to finished archives, outcome against an independent decoder; reads confined by inaccessible pages",
 "C06": "creation repeated in every state of an archive and with failing status calls; disk tree compared before and after",
 "C07": "opens at any moment and with failing open, stat and map calls; effects on writers and on later opens through the same storage",
 "C08": "slices, views and archives held over random histories of reads, writes and drops; freed memory poisoned, unmapped pages inaccessible",
 "C09": "parts written 1-4 times with completed, failed, abandoned and crashed attempts, storages that had read earlier versions, crash points of the rewrites",
 "C10": "open writers dropped plainly, while unwinding, after failed calls, next to other writers",
 "C11": "optional parts absent, unfinished, damaged, failed while writing, unreadable while opening; several at once",
 "C12": "each program executed on disk and in memory: all outcomes and bytes compared with each other and with a map",
 "C13": "descriptors against open writers after every operation, mappings and heap balance at the end, under failures and retries",
 "C18": "heap of the library bounded after every call while gigabytes are streamed into sparse simulated files and opened; rounds of reading, failing and abandoned operations repeated with the same faults, and memory, mappings and handles compared between rounds",
}
checks = []
for c, n in NOTE.items():
    checks.append({
        "property": c,
        "quick_cmd": "./check.sh %s quick" % c,
        "thorough_cmd": "./check.sh %s thorough" % c,
        "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and crash points; reference model)",
        "level": "exploration",
        "level_note": n,
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the simulator replaces the C library calls that std and memmap make. Replay a finding with ./check.sh replay FILE.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
