#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
T = "TLA+ specification checked by TLC; its behaviours replayed in the code"
NOTE = {
    "C01": "Every generated problem within the sizes of DESIGN.md: exact recurrence values from the spec against odeint and odeint_adjoint for every block size. Trusts the TLA+ definitions, the rational-arithmetic overrides (cross-checked in setup) and a 1e-8 tolerance.",
    "C02": "Exhaustive option space from Options.tla (valid and one-bad-value), sampled over the problems of Integrator.tla; trajectories and gradients against the spec. Tolerance 1e-8 / 2e-7.",
    "C05": "Exact tangents of the discrete recurrence from the spec against back-propagated gradients for every block size and both entry points; includes equilibrium starts, frozen, extra and unused parameters.",
}
NOTE.update(json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
            if os.path.exists(os.path.join(HERE, "tools", "level_notes.json")) else {})
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "harness", "checks", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick",
                       "thorough_cmd": f"./check.sh {p} thorough", "technique": T,
                       "level": "model_checking", "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": "its specification and check are not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC; see DESIGN.md. No hooks in /repo: every check observes public calls."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
