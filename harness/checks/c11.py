"""C11: analytic derivatives (specs/Laws.tla, specs/Dual.tla)."""
from lawlib import records, run_record
from vlib import THOROUGH, SEED

CL = {"derivative", "stress control"}


def run(chk):
    k = 12 if THOROUGH else 1
    for i, (focus, n) in enumerate([("iso", 80), ("kin", 120), ("flow", 500), ("damage", 100), ("model", 500)]):
        recs = records(chk, focus, 20000 * i + 1, n * k, SEED)
        chk.replay(lambda s, f=focus: run_record(s, f, CL), recs, focus, sample=1)
    if THOROUGH:
        for i, focus in enumerate(["flow", "model"]):
            recs = records(chk, focus, 20000 * i + 15001, 1500, SEED, depth=3)
            chk.replay(lambda s, f=focus: run_record(s, f, CL), recs, focus + "-deep", sample=1)
