#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitoring: reference-model oracle over generated histories, debug and release builds, checking allocator"
TECH = {
    "C16": "runtime monitoring: AddressSanitizer, Miri and a checking allocator over arbitrary programs of public calls",
    "C17": "runtime monitoring: allocation-balance monitor at quiescent points over generated histories and drop orders",
    "C18": "runtime monitoring: ThreadSanitizer, Miri race detector over many schedules, content and allocation-balance monitors",
    "C19": "runtime monitoring: refusal oracle and reference model over histories with misuse, debug and release builds",
    "C23": "runtime monitoring: reference oracle over generated inputs to the tutorial parsers",
}
NOTE = {
    "C16": "Held on the programs run; aliasing rules (Stacked/Tree Borrows) are not checked, red zones miss reads of reused memory beyond the quarantine.",
    "C17": "Held on the histories run; memory is what the global allocator sees; histories with panics are excluded.",
    "C18": "Held on the interleavings seen; ThreadSanitizer and Miri report races of the executed accesses independent of timing, but only of those.",
}
D = "Held on the generated trees and histories of this run, in builds with and without debug assertions, judged by an independent model of plain nested lists; trusts that model and the public accessors it compares with."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "technique": TECH.get(p["id"], MODEL),
            "level": "exploration",
            "level_note": NOTE.get(p["id"], D),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public interface, the allocator and the sanitizers. Repaired defects are listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
