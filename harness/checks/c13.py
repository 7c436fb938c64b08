"""C13: hardening models (specs/Laws.tla)."""
from lawlib import records, run_record
from vlib import THOROUGH, SEED

CL = {"rate", "value", "altered"}


def run(chk):
    k = 10 if THOROUGH else 1
    recs = records(chk, "iso", 1, 600 * k, SEED + 13)
    chk.replay(lambda s: run_record(s, "iso", CL), recs, "isotropic", sample=1)
    recs = records(chk, "kin", 10001, 900 * k, SEED + 13)
    chk.replay(lambda s: run_record(s, "kin", CL), recs, "kinematic", sample=2)
    if THOROUGH:
        recs = records(chk, "kin", 30001, 3000, SEED + 13, depth=3)
        chk.replay(lambda s: run_record(s, "kin", CL), recs, "kinematic-deep", sample=1)
