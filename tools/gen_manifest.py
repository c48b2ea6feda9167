#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os

MODEL = "Runtime monitoring: random histories on the real crate, an online oracle (reference model with unique value tokens, drop ledger, checking allocator) judging every operation and read"
TECH = {
    "C07": "Sanitizers: Miri (Tree Borrows), AddressSanitizer and a checking allocator over monitored random histories and low-level sequences",
    "C09": "Runtime monitoring of real 16,777,215-entity worlds against a value-computing model",
    "C10": "Runtime monitoring of real 65,534-set worlds against a model",
    "C12": "Fault enumeration at run time: every destructor invocation of monitored histories made to panic, drop ledger and model as oracle",
    "C13": "Fault enumeration at run time: every storage allocation of monitored histories made to fail, drop ledger and model as oracle",
    "C14": "Race detectors: ThreadSanitizer and Miri (many schedules) plus a value oracle on concurrent readers, slice writers and registries",
    "C15": "Runtime monitoring of descriptor operations against bit-set algebra",
    "C16": "Runtime monitoring of the entity store, records and handles against a map model",
    "C17": "Runtime monitoring of archetype storage against a vector-of-rows model, with drop ledger and checking allocator",
    "C18": "Runtime monitoring of the archetype registry against a set-to-index map, including searched identity collisions",
    "C19": "Runtime monitoring of the hash functions and identifiers against an independent reference implementation",
    "C27": "Runtime monitoring: a counting allocator and the indices of issued handles, against a budget computed from the peak population of the reference model over random histories and long lives of small populations",
    "C28": "Runtime monitoring: a counting allocator over long lives, against a budget of bytes and requests computed from the history",
    "C29": "Runtime monitoring: twin registries with equal histories, one of them disturbed, compared operation by operation (differential oracle)",
    "C30": "Runtime monitoring of executed instructions (Valgrind): the same operations in small and in large worlds, ratio judged",
    "C20": "Runtime comparison of generated derived components with hand-written ones, as event logs of a registry",
}
NOTE = {
    "C07": "Sanitizer silence on the executions observed (Miri: thousands of operations over 16 layouts; ASan: full workloads); Tree Borrows is the aliasing model; trusts Miri and ASan.",
    "C09": "Worlds are really filled to the limit in every mode (one set, several, all sets, migrated); all rows are compared at checkpoints, samples in between.",
    "C10": "Worlds really hold 65,534 sets; every set is checked at checkpoints.",
    "C12": "Every destructor invocation of each explored destruction is a panic point (forked process per point); histories are sampled.",
    "C13": "Every storage allocation of each explored operation fails once, in transient and persistent mode; histories are sampled. Growth of the crate's internal bookkeeping vectors aborts by Rust convention and is not injected.",
    "C14": "Race freedom on the schedules observed: TSan's happens-before analysis over instrumented std, and Miri seeds with preemption.",
    "C27": "The allowance is four times the bytes of the peak rows per set (at least 256 rows), 16 KiB per set and 64 bytes per entity; long lives are held to a tighter one (48 KiB + 2 KiB per set, slots below twice the peak + 64). Evidence states how much was used at most.",
    "C28": "The allowance is eight times the bytes of the largest populations of the sets, plus 256 bytes and two requests per operation; evidence states how much was used at most.",
    "C29": "Twins are compared after every operation and, in full and in order, at random intervals; twelve kinds of disturbance.",
    "C30": "Instruction counts are exact and repeatable; an operation may cost twice as much, and 2,000 instructions more, in a world some 20 to 100 times larger; linear dependence costs ten thousand or more.",
    "C20": "Definitions are sampled from a grammar of forms, generics, attributes and visibilities; raw identifiers are not judged; compiles with today's compiler.",
}
DEFAULT = "Assurance on the executions observed, which are millions of judged comparisons per run over all layouts, group orders and world shapes of the harness; the reference model is trusted, and evidence lists distinct situations seen."


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    checks = []
    for line in open(os.path.join(verif, "properties.jsonl")):
        p = json.loads(line)["id"]
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s --tier quick" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": TECH.get(p, MODEL),
            "level": "fault_enumeration" if p in ("C12", "C13") else "exploration",
            "level_note": NOTE.get(p, DEFAULT),
        })
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: the public API, including the public low-level modules, exposes everything the monitors observe. "
                  "Checks build the harness against /repo's working tree themselves; setup only builds ahead. Known findings: known-findings.txt."}
    with open(os.path.join(verif, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
