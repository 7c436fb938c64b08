"""C05: gradients are the exact derivative of the computed trajectory
(specs/Integrator.tla: tangents of the recurrence; adjoint rewind)."""
import random
import vlib
from vlib import THOROUGH, SEED, close, fmap
import odelib
from checks.c01 import spec_cases
from checks.c02 import grads_match


def scn(s):
    fails, n = [], 0
    case = s["case"]
    for o in s["runs"]:
        name = f"case {case['c']} {case['scheme']} {o}"
        r = odelib.integrate(case["prob"], case["scheme"], o["entry"], kinds=o["kinds"],
                             unused=o["unused"], y0_grad=o["y0"], block_size=o["block"],
                             direct_solve_method=o["dir"], guess_type=o["guess"], neural=o.get("neural", False),
                             layout=case["c"] + o["block"])
        n += 1 + len(o["kinds"])
        m = close(r["y"], fmap(case["y"], 3), 1e-8)
        if m:
            fails.append(("trajectory", f"{name}: {m}"))
        if case["prob"]["nt"] == 1 and not o["y0"]:
            # the output does not depend on the parameters
            for j, g in r["p"].items():
                if g is not None and float(g.abs().max()) != 0:
                    fails.append(("gradient", f"{name}: parameter {j} has gradient {g} on one time point"))
            continue
        for m in grads_match(case, r, 2e-7):
            fails.append(("gradient", f"{name}: {m}"))
        if o["y0"] and r["y0"] is None:
            fails.append(("gradient", f"{name}: no gradient of the initial condition"))
        if r.get("unused") is not None and float(r["unused"].abs().max()) != 0:
            fails.append(("unused", f"{name}: unused parameter has gradient {r['unused']}"))
        for g in r.get("frozen", []):
            if g is not None:
                fails.append(("frozen", f"{name}: frozen parameter got a gradient"))
    return fails[:3], n


def run(chk):
    rng = random.Random(SEED + 7)
    recs = spec_cases(chk, 160 if THOROUGH else 45, 2 if THOROUGH else 5, first=701, nps=(1, 2, 3, 0, 2))
    if THOROUGH:
        recs += spec_cases(chk, 30, 10**6, nts=[12, 17, 21], first=9000, nps=(1, 2))
    recs += spec_cases(chk, 24 if THOROUGH else 8, 4, nts=[2, 3, 5, 7], first=8000, nps=(1, 2), equil=True)
    scns = []
    for r in recs:
        nt, npar = r["prob"]["nt"], len(r["prob"]["par"])
        runs = []
        for entry in ("odeint", "odeint_adjoint"):
            for b in range(1, nt + 2):
                for _ in range(4 if THOROUGH else 2):
                    runs.append(dict(
                        entry=entry, block=b, dir=rng.choice(["thomas", "thomas", "pcr", "hybrid"]),
                        guess=rng.choice(["zero", "previous"]),
                        kinds=[rng.choice(["module", "module", "extra", "derived", "frozen", "twice"]) for _ in range(npar)],
                        unused=rng.random() < 0.25,
                        y0=rng.choice([False, False, True, "computed", "module", "extra"])))
                runs.append(dict(entry=entry, block=b, dir="thomas", guess="zero",
                                 kinds=["module"] * npar, unused=False, y0=True))
                runs.append(dict(entry=entry, block=b, dir="thomas", guess="zero",
                                 kinds=["extra"] * npar, unused=False, y0=False))
            b = rng.randrange(1, nt + 2)
            runs.append(dict(entry=entry, block=b, dir="thomas", guess="zero", neural=True,
                             kinds=[rng.choice(["module", "extra"]) for _ in range(npar)], unused=False, y0=True))
        scns.append({"case": r, "runs": runs})
    chk.replay(scn, scns, "gradients")
