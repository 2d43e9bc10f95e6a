"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
TECH = {
    "C01": "property-based testing: generated layer stacks vs. a reference resolver",
    "C02": "stateful property-based testing: operation histories vs. a nested-dict model",
    "C03": "property-based testing: generated file trees and values, differential and round-trip",
    "C04": "property-based testing: save/load round trips over generated models at all life stages",
    "C05": "metamorphic property-based testing: tables vs. YAML for the same generated data",
    "C06": "property-based testing: generated definitions vs. a reference input table",
    "C07": "property-based testing: generated link sets vs. reference geometry and end nodes",
    "C08": "property-based testing: generated calendars, subsets and resolutions vs. a plain-Python reference",
    "C09": "property-based testing: generated cluster maps vs. reference weights and lookups",
    "C10": "grammar-based fuzzing of condition strings vs. a reference evaluator",
    "C11": "grammar-based fuzzing of math expressions vs. a reference evaluator",
    "C12": "property-based testing: helper calls on generated arrays vs. plain-Python definitions",
    "C13": "property-based testing: invariants of every solution of generated models",
    "C14": "differential property-based testing: generated models vs. an independent LP",
    "C15": "differential property-based testing: generated integer models vs. an independent MILP",
    "C16": "stateful property-based testing: update histories vs. rebuilding",
    "C17": "stateful property-based testing: generated window/horizon runs vs. re-solved windows",
    "C18": "stateful property-based testing: generated SPORES runs vs. reference scoring and budget",
    "C19": "model-based property-based testing: life-cycle call sequences vs. a state machine",
    "C20": "metamorphic property-based testing: generated math layer stacks",
    "C21": "fault-injecting property-based testing: generated models with one rule broken",
    "C22": "property-based testing: statistics recomputed from generated solutions",
    "C23": "metamorphic property-based testing: finite-difference marginal values",
    "C24": "grammar-based fuzzing of math: documentation parsed back and evaluated",
    "C25": "property-based testing: generated batches, scripts executed with stand-ins",
    "C26": "property-based testing: generated breakpoint tables vs. interpolation and enumeration",
    "C27": "differential property-based testing between backends and LP files",
    "C28": "metamorphic property-based testing: renamed, reordered, rescaled models",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if (ROOT / "harness" / "props" / f"{i.lower()}.py").exists():
        checks.append({
            "property": i, "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": TECH[i], "level": "exploration",
            "level_note": "Held on every generated case of the run (seeded, sharded over 8 "
            "workers, shrunk to a replay file on failure); nothing is claimed beyond the "
            "generator described in DESIGN.md. Trusts Python, the numeric stack, the solvers and "
            "the reference in harness/.",
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python harness/boot.py",
    "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo. All checks are property-based tests/fuzzers; see DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
