"""C14: damage laws and the damage-coupled model (specs/Laws.tla)."""
from lawlib import records, run_record
from vlib import THOROUGH, SEED

CL = {"rate", "value", "altered"}


def run(chk):
    k = 10 if THOROUGH else 1
    recs = records(chk, "damage", 1, 600 * k, SEED + 14)
    chk.replay(lambda s: run_record(s, "damage", CL), recs, "damage law", sample=1)
    recs = records(chk, "model", 10001, 900 * k, SEED + 14)
    chk.replay(lambda s: run_record(s, "model", CL), recs, "model", sample=2)
