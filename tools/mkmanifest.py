#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
PURE = "no concurrency, time, I/O, fault or history for it to depend on: a pure function of pattern and subject, so a simulator would only be an input fuzzer around one call"
REASON = {
    "N01": PURE + " (the walks of C02-C04 do compare with a reference matcher, but only on the catalogue)",
    "N02": "decided entirely inside the compiler while it parses the pattern; nothing runs that could be scheduled or made to fail",
    "N03": "a relation between two compile-time configurations of a pure function; " + PURE,
    "N04": "one side exists only inside the compiler, where there is nothing to schedule or to inject",
    "N05": "a pure table lookup on one code point; exhaustive enumeration, not simulation, would decide it",
    "N06": "a compile-time relation between pattern text and types",
    "N07": PURE,
    "N08": "valid input only: " + PURE + " (malformed and torn UTF-8 is in C08)",
    "N09": "decided inside the compiler while the literal is decoded",
    "N10": "a relation between two source trees at release time; the tree between releases is not meant to satisfy it",
}
NOTE = {
    "C01": "every switch point is a single memory access of the real library code; oracle PCRE2 plus a lone run in a fresh process; sequentially consistent memory assumed",
    "C02": "walks against PCRE2 plus the walk rule, after random histories of copies, assignments, comparisons, abandoned and interleaved walks; bounded to the catalogue of patterns",
    "C03": "conservation and the delimiter rule against PCRE2, same histories as C02; bounded to the catalogue of patterns",
    "C04": "contiguity and the stop rule against PCRE2, same histories as C02; bounded to the catalogue of patterns",
    "C05": "budgets on accesses and steps, stack guard, permanent end; includes patterns which can match nothing in every kind of repeat",
    "C06": "originals, temporaries and siblings destroyed or overwritten at random, freed memory poisoned and checked",
    "C07": "the same text in every form and delivery must give the same outcome, stalls and early ends included",
    "C08": "every access checked against the subject's bounds on guard pages; torn, malformed and concurrently changing bytes; neighbours changed under the operation",
    "C09": "live source with delays and early end, reading ahead observed; all comparisons with the end",
    "C10": "every allocation of the library observed and failed on demand",
    "C11": "stream buffers failing, throwing and writing short at every byte",
    "C12": "throw at the n-th call into an iterator or source of every operation",
}
m = {
    "version": 1,
    "setup_cmd": "python3 -m py_compile check tools/catalogue.py && g++ --version >/dev/null && test -f /usr/lib/x86_64-linux-gnu/libpcre2-32.a",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the seams are the iterators, sources, stream buffers, allocator and threads the library already takes from its caller, and the compiler's instrumentation of memory accesses (-fsanitize=thread with a run-time of our own). See DESIGN.md.",
}
for p in P:
    if p["id"] in REASON:
        m["not_applicable"].append({"property": p["id"], "reason": REASON[p["id"]]})
    else:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "deterministic simulation with fault injection (seeded schedules and faults over the real library code)",
            "level": "exploration", "level_note": NOTE[p["id"]]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
