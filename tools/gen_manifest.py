#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "M": "runtime monitor: reference codec as oracle over executed reads and writes, builds with and without debug checks",
    "A": "runtime monitor: executable reference model of the allocator over recorded API and runtime calls",
    "R": "runtime monitor: bitmap/word-array reference model over executed operations",
    "C": "runtime monitor: offline/online checkers over recorded multi-threaded histories, natively with injected delays and under Miri's scheduler",
    "S": "sanitizers: Miri (UB, data races, leaks) and AddressSanitizer/ThreadSanitizer builds of the workloads",
    "G": "runtime monitor: differential between the CPU build and the SPIR-V build (its cfg, compiled for the host with checked stand-ins for the GPU's intrinsics)",
    "W": "runtime monitor: differential against the CPU runtime, wgpu running on an in-memory device",
}
KIND = {"A06": "R", "A12": "R", "A13": "R", "C07": "S"}
NA = {}
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in CHECKS:
        checks.append({
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH[KIND.get(p, p[0])],
            "level": "exploration",
            "level_note": "Held on the executions of the run (counts in the evidence file); trusts the harness' reference model and says nothing about histories, inputs or interleavings the workload did not produce.",
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none: the harness uses the public API only", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Tier and seed are taken from VERIF_TIER and VERIF_SEED. Known findings and repaired defects: known-findings.txt.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
