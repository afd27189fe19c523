#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "runtime monitoring: online monitors on every codec node + independent reference model over generated compositions, inputs and schedules"
T = {
    "C01": REF, "C02": REF, "C03": "runtime monitoring: round-trip oracle over generated streams, output and input schedules",
    "C04": "runtime monitoring: independent wire-format oracle, exhaustive for 8/16 bit and per byte for 24 bit, edge and random values above",
    "C05": "runtime monitoring: online protocol monitors on every decoder node with injected premature finishes",
    "C06": "runtime monitoring: recording readers and hint monitors against the reference model",
    "C07": "runtime monitoring: conservation monitors on every encoder node (claimed against produced bytes)",
    "C08": "runtime monitoring: truncation of streams and outputs at every point against the reference model",
    "C09": "runtime monitoring: recording and scripted components inside length-delimited codecs, plus reference model",
    "C10": "runtime monitoring: recording components inside byte-limited codecs, plus reference model",
    "C11": "runtime monitoring: budget accounting monitors on slices, multiplexed streams, equality with unsliced runs",
    "C12": "runtime monitoring: acceptance monitors on every encoder node with busy and invalid items injected at every point",
    "C13": "runtime monitoring: byte ledger over I/O histories with injected short operations, would-block, end and errors",
    "C14": "runtime monitoring: state oracle over recorded I/O histories, exhaustive for short scripts",
    "C15": "runtime monitoring: byte ledger, waker ledger and executor with scripted asynchronous streams",
    "C16": "runtime monitoring: hostile inputs under a counting allocator, CPU watchdog and crash supervisor",
    "C17": "runtime monitoring: reference model and call-recording closures over decoder combinators",
    "C18": "runtime monitoring: reference model and call-recording closures over encoder combinators",
    "C19": "runtime monitoring: differential oracle (serde_json, bincode) and recording user-defined monolithic codecs",
    "C20": "runtime monitoring: fault injection into every component call, online surfacing monitors on every node",
    "C21": "runtime monitoring: reused against fresh decoders, including after refused items",
    "C22": "runtime monitoring: documented-table oracle over all pairs of boundary values and random operands",
    "C23": "runtime monitoring: call-for-call comparison of wrapped and plain scripted codecs",
    "C24": "runtime monitoring: shadow copies of whole buffers around windows",
    "C25": "runtime monitoring: differential comparison of all entry points on the same items, bytes and faults",
    "C26": "runtime monitoring: byte-level oracles, exhaustive for short texts",
    "C27": "sanitizers: Miri, AddressSanitizer+LeakSanitizer and MemorySanitizer over all workloads, plus an accounting and junk-filling allocator and token accounting with injected panics",
    "C28": "runtime monitoring: position-tracking monitors that compare every hint given to a component with the true end of its stream",
    "C29": "runtime monitoring: scripted stalling, suspended and wrongly claiming codecs under every driving helper, with a call-count guard against endless loops",
    "C30": "runtime monitoring: the monitors and reference models of all other properties, run on a 32-bit and a big-endian platform interpreted by Miri",
}
NOTE = ("Holds on every observed execution of the real code, compiled from /repo's working tree with debug assertions and overflow checks; "
        "executions are generated from VERIF_SEED, so nothing is claimed about unobserved ones. Trusted: the oracle in monitor/src, "
        "rustc, std and the wrapped libraries.")
EXTRA = {
    "C20": " Every component call of the sampled compositions is hit by each error once (sampled above 40 calls).",
    "C04": " 8- and 16-bit formats are exhaustive.",
    "C27": " The sanitizers observe a sample of all properties' workloads; a tool that cannot run leaves its part undecided, which the evidence says.",
}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo are needed: the crate's codecs are observed through wrappers that implement its public traits. "
             "Defects that were repaired and those that are only recorded are listed in known_findings.txt.",
}
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    m["checks"].append({
        "property": p,
        "quick_cmd": "./check.sh " + p,
        "thorough_cmd": "./check.sh " + p + " --thorough",
        "technique": T[p],
        "level": "fault_enumeration" if p == "C20" else "exploration",
        "level_note": NOTE + EXTRA.get(p, ""),
    })
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
