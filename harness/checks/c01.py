"""C01: time stepping equals the Euler recurrence (specs/Integrator.tla)."""
from fractions import Fraction
import vlib
from vlib import THOROUGH, SEED, close, fmap
import odelib

INV = ["RefSolved", "BlockAgrees", "NewtonEnds", "FilledOnce", "AdjAgrees"]


def spec_cases(chk, n, block_every, nts=None, nps=(0, 1, 2, 3), schemes=("be", "fe"), first=1,
               seed=SEED, equil=False):
    return chk.spec("Integrator", consts=dict(
        Seed=seed, Cases=range(first, first + n), Schemes=set(schemes), BlockEvery=block_every, Equil=equil,
        NTs=list(nts or [1, 2, 3, 4, 5, 6, 7, 8, 9]), NYs=[1, 2, 3], NBs=[1, 2, 3], NPs=list(nps)),
        invariants=INV)


def scn(s):
    prob, fails, n = s["prob"], [], 0
    want = fmap(s["y"], 3)
    blocks = list(range(1, prob["nt"] + 2)) + [prob["nt"] + 4]
    for entry in ("odeint", "odeint_adjoint"):
        for b in blocks:
            for guess in ("zero", "previous"):
                r = odelib.integrate(prob, s["scheme"], entry, grads=False, block_size=b, guess_type=guess,
                                     layout=s["c"] + 7 * b)
                m = close(r["y"], want, 1e-8)
                n += 1
                if m:
                    fails.append(("trajectory", f"case {s['c']} {s['scheme']} {entry} block_size={b} "
                                  f"guess={guess}: {m}"))
    return fails[:3], n


def run(chk):
    recs = spec_cases(chk, 160 if THOROUGH else 54, 2 if THOROUGH else 6)
    chk.replay(scn, recs, "integrate")
    if THOROUGH:
        recs = spec_cases(chk, 40, 10**6, nts=[12, 17, 24, 33], first=5000)
        chk.replay(scn, recs, "integrate-long")
