#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: one check per property the harness implements (vpbt list)."""
import json, subprocess, os
ROOT = "/verif"
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
TECH = {
 "C01": "property-based testing: random boxes/sizes/kinds, stratification and space-filling oracles",
 "C02": "property-based testing: grid reconstruction oracle, uniformity statistics, affine metamorphic relation",
 "C03": "property-based testing: closed-form reference model, finite-difference ladder, eigenvalue oracle",
 "C04": "property-based testing: differential against an independent dense universal-kriging implementation",
 "C05": "property-based testing: interpolation/positivity invariants and batch metamorphic relations",
 "C06": "property-based testing: gradients against finite-difference ladders over random models",
 "C07": "metamorphic property-based testing: change of units, row and column permutations",
 "C08": "property-based testing over tuning requests; differential against fixed-theta models and likelihood scans",
 "C09": "property-based testing: differential against dense FITC/VFE formulas and the exact process",
 "C10": "statistical property-based testing: moments of sampled trajectories against the reference posterior",
 "C11": "property-based testing: predictions and gradients of mixtures against weighted sums of the experts' own outputs",
 "C12": "property-based testing: memberships against log-sum-exp reference model and finite differences",
 "C13": "property-based testing over mixture configurations: recomputed cross-validation errors, differential against processes trained on each cluster, replay with same seed",
 "C14": "property-based testing and fuzzing: save/load round-trip, truncated, corrupted, missing and unwritable files",
 "C15": "property-based testing: quality scores against fold-by-fold recomputation from their definitions",
 "C16": "property-based testing: round-trip, projection and reference model of variable types",
 "C17": "property-based testing: designs against the cast of the underlying design; differential against the mixture trained on encoded data",
 "C18": "property-based testing: criteria against independently computed special functions in extended range, finite differences, change of units",
 "C20": "property-based testing: best-result rule against a reference scan of generated tables and of the histories of generated optimization runs",
 "C21": "property-based testing over optimizer configurations: instrumented objective, every call checked against domain, budget and recorded history",
 "C22": "property-based testing over constrained configurations: instrumented constraints, recorded values recomputed, optimum judged by a reference rule",
 "C23": "differential property-based testing: same seed again, other thread pools, other processes; different seeds",
 "C24": "stateful property-based testing with fault injection: runs killed inside objective evaluations and checkpoint writes, then resumed, against the uninterrupted run",
 "C25": "round-trip property-based testing: saved designs and configuration against the instrumented history; warm starts",
 "C26": "differential and metamorphic property-based testing: ask-tell against the optimizer's own next evaluation, earlier asks and repeated asks",
 "C27": "property-based testing: replay of the recorded history by a reference model of the stop conditions and best-so-far bookkeeping",
 "C28": "differential property-based testing of the Python module: generated calls checked against the rules and against the Rust library",
 "C19": "property-based testing: infill objective and gradients against a reference composition of surrogate outputs and finite differences",
}
LEVEL = {}
NOTE = "Generated-input search against an explicit oracle; counts, non-trivial rule and samples in the evidence file. Holds on the inputs generated, not a proof."
done = [l.split()[0] for l in subprocess.check_output([f"{ROOT}/target/release/vpbt", "list"], text=True).splitlines()]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"env VERIF_TIER=thorough bash check.sh {i}",
                       "technique": TECH.get(i, "property-based testing"), "level": LEVEL.get(i, "exploration"), "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "bash build.sh all", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
