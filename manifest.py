#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and the texts below."""
import json
import os

import specs

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    "C01": "online model monitor over random histories (ASan+UBSan and release build)",
    "C02": "online model monitor over random and exhaustive small histories (ASan+UBSan and release build)",
    "C03": "online model and order monitor over random histories (ASan+UBSan and release build)",
    "C04": "iteration monitor: interleaved, reused and abandoned iterators against the model",
    "C05": "structural invariant monitor after every update, comparison counting in the callback",
    "C06": "comparison and hash computation counters in the callbacks while tables grow",
    "C07": "ownership ledger fed by the free callbacks",
    "C08": "online sequence model monitor, both directions walked after each operation",
    "C09": "online sequence model monitor over random histories",
    "C10": "order and conservation monitor over sorted insertions",
    "C11": "ownership ledger fed by the free callbacks",
    "C12": "online LIFO/FIFO model monitor over random histories",
    "C13": "address, content and heap monitors over pool histories",
    "C14": "node ledger in a user-defined pool",
    "C15": "online byte-array model monitor over random histories",
    "C16": "online limit and validity monitor over random histories",
    "C17": "capacity monitor: exact-size heap blocks under ASan, canaries in the release build",
    "C18": "read() interposition and content monitor over descriptors of every kind",
    "C19": "linearizability checking of recorded histories under a controlled scheduler, exactly-once checking of stress runs",
    "C20": "controlled scheduler with exact quiescence and deadlock detection, stress runs with a progress watchdog",
    "C21": "virtual clock monitor under a controlled scheduler",
    "C22": "ThreadSanitizer stress runs and lock discipline monitor under a controlled scheduler",
    "C23": "item ledger under a controlled scheduler and in stress runs",
    "C24": "fault injection at every allocation and lock call, process-end monitor",
    "C25": "reference oracle monitor over generated strings and pointers, guard pages",
    "C26": "ThreadSanitizer over independent instances and shared readers, results against models",
    "C27": "model monitors over histories that clear all the time",
    "C28": "comparison counting in the callback, capacity monitor",
    "C29": "pair monitor: views and writes through pairs against the model",
    "C30": "AddressSanitizer, UBSan, MemorySanitizer, assertions and heap ledger over all workloads",
    "C31": "heap accounting after every call, long bounded-population histories",
    "C32": "step counters: compiler-inserted edge counting and counting memory functions, judged per kind of call while populations grow and shrink",
    "C33": "model and ledger monitors over histories whose callbacks call other containers, and over containers of containers (ASan+UBSan and release build)",
    "C34": "assertions compiled in, and monitors in place of every function that prints, over all workloads",
}
NOTE = "Held on the executions reported in the evidence file, for generated histories of the real code built from the working tree; no claim about executions that were not produced."
EXTRA = {
    "C05": " The tree is read through the fields of the public header.",
    "C18": " The library's read() is interposed at link level.",
    "C19": " Interleavings are explored by a seeded scheduler that preempts at every load, store and lock call of the library (sequentially consistent interleavings); stress runs add real threads.",
    "C20": " Quiescence is decided exactly under the controlled scheduler; the stress watchdog only fires after 20 s without any progress.",
    "C21": " Time is virtual, so there is no wall-clock tolerance beyond 1 ms.",
    "C22": " ThreadSanitizer sees the races of the executions it watched; lock misuse is decided exactly in the controlled runs.",
    "C24": " Every allocation and lock call of each scenario fails once; scenarios are generated.",
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in specs.SPECS:
            checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                           "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": specs.SPECS[p].get("level", "exploration"), "level_note": NOTE + EXTRA.get(p, "")})
        else:
            na.append({"property": p, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the library's calls to the heap, threads, clocks and read() are renamed in the object files (objcopy) and end in the monitors. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
