"""C02: solver options never change the answer (specs/Options.tla, Integrator.tla)."""
import random
import torch
import vlib
from vlib import THOROUGH, SEED, close, fmap
import odelib
from pyoptmat import ode
from checks.c01 import spec_cases

TOL_Y, TOL_G = 1e-8, 2e-7


def grads_match(s, r, tol, parts=("p", "y0")):
    prob, fails = s["prob"], []
    if "p" in parts:
        for j, g in r["p"].items():
            want = fmap(s["gp"][j], 1)
            if not prob["par"][j]["batched"]:
                want = want[0]
            if g is None:
                zero = not torch.as_tensor(want).any()
                m = None if zero else f"no gradient, specification {want}"
            else:
                m = close(g, want, tol)
            if m:
                fails.append(f"gradient of parameter {j}: {m}")
    if "y0" in parts and r["y0"] is not None:
        m = close(r["y0"], fmap(s["gy"], 2), tol)
        if m:
            fails.append(f"gradient of initial condition: {m}")
    return fails


def scn(s):
    fails, n = [], 0
    case = s["case"]
    for o in s["opts"]:
        name = (f"case {case['c']} {o['entry']} {o['method']} block={o['block']} {o['lin']}/{o['dir']}"
                f"({o['min']}) guess={o['guess']}")
        r = odelib.integrate(case["prob"], case["scheme"], o["entry"], y0_grad=True,
                             block_size=o["block"], linear_solve_method=o["lin"],
                             direct_solve_method=o["dir"], direct_solve_min_size=o["min"],
                             guess_type=o["guess"], layout=case["c"] + o["block"])
        n += 3
        m = close(r["y"], fmap(case["y"], 3), TOL_Y)
        if m:
            fails.append(("trajectory", f"{name}: {m}"))
        for m in grads_match(case, r, TOL_G):
            fails.append(("gradient", f"{name}: {m}"))
    return fails[:3], n


def scn_reject(o):
    """An unknown option value must be rejected."""
    class F(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.k = torch.nn.Parameter(torch.tensor(0.5))

        def forward(self, t, y):
            return -self.k * y, -self.k * torch.ones(y.shape + (1,))
    try:
        y = getattr(ode, o["entry"])(
            F(), torch.ones(2, 1), torch.linspace(0, 1, 5).unsqueeze(-1).expand(5, 2),
            method=o["method"], block_size=o["block"], linear_solve_method=o["lin"],
            direct_solve_method=o["dir"], direct_solve_min_size=o["min"], guess_type=o["guess"])
    except Exception:
        return [], 1
    return [("not-rejected", f"{o}: returned a result of shape {tuple(y.shape)}")], 1


def run(chk):
    opts = chk.spec("Options", consts=dict(MaxBlock=12 if THOROUGH else 10,
                                           MinSizes={0, 1, 2, 3, 4, 5, 7, 8}),
                    invariants=["NoSilentDefault", "RejectsOnlyUnknown"])
    opts.sort(key=lambda o: str(sorted(o.items())))
    good = [o for o in opts if o["verdict"] == "solved"]
    chk.replay(scn_reject, [o for o in opts if o["verdict"] == "rejected"], "reject")
    recs = spec_cases(chk, 120 if THOROUGH else 36, 4 if THOROUGH else 9, first=301,
                      nts=[9, 2, 8, 5, 7, 3, 4, 6, 10])
    rng = random.Random(SEED)
    scns = []
    for r in recs:
        mine = [o for o in good if odelib.METHOD[r["scheme"]] == o["method"]
                and o["block"] <= r["prob"]["nt"] + 1]
        rng.shuffle(mine)
        k = 200 if THOROUGH else 40
        scns.append({"case": r, "opts": mine[:k]})
    chk.replay(scn, scns, "options")
    chk.extra["option_combinations"] = len(good)
