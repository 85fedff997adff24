#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
AI = "static: trace-partitioned abstract interpretation of the SSA of /repo's Go source (bit provenance x intervals x linear inequalities)"
proof_note = "All inputs of each class, on 64- and 32-bit int; anything the domain cannot decide is reported as a violation. Assumes caller-supplied slices do not overlap and sizes below 2^46 (2^29 on 32-bit). Trusts go/types, x/tools/go/ssa, the transfer functions and a few library models."
checks = {
 "C01": (AI, "proof", proof_note), "C02": (AI, "proof", proof_note), "C03": (AI, "proof", proof_note),
 "C04": (AI, "proof", proof_note), "C05": (AI, "proof", proof_note),
 "C06": (AI + " with array identities (alias and effect obligations)", "proof", proof_note),
 "C07": (AI, "proof", proof_note + " Sequences: every operation and every pair of operations from an arbitrary fill of every constructor."),
 "C08": (AI + " over a model of sync.Pool (typestate of pooled objects)", "proof", proof_note),
 "C09": ("static: interprocedural effect analysis over SSA (memory reachable from package variables)", "proof", "Every function of both runtimes; flow-insensitive and type-based for the heap, so conservative. Trusts sync and sync/atomic; callers must not assign the exported variables themselves."),
 "C37": (AI + " (text equality of errors)", "proof", proof_note + " Texts of equal length that differ are compared byte by byte for up to 3 bytes; texts of unequal length, and equal texts, of every length."),
 "C10": (AI + ", allocation-size obligations", "proof", proof_note),
}
na = {}
try:
    import manifest_more
    checks.update(manifest_more.checks); na.update(manifest_more.na)
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash ./check.sh --build",
 "checks": [{"property": p, "quick_cmd": f"bash ./check.sh {p}", "thorough_cmd": f"bash ./check.sh {p}",
   "technique": checks[p][0], "level": checks[p][1], "level_note": checks[p][2]} for p in props if p in checks],
 "not_applicable": [{"property": p, "reason": na.get(p, "check not built yet")} for p in props if p not in checks],
 "notes": "No hooks: /repo carries only fix: commits. Every check reads /repo's current source and runs nothing of it."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
