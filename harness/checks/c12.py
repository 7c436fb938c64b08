"""C12: flow rules and their compositions (specs/Laws.tla)."""
import torch
import matlib
from lawlib import records, run_record
from pyoptmat import flowrules, temperature
from vlib import THOROUGH, SEED

CL = {"rate", "value", "altered"}


def conform(s):
    """Regime switches accept exactly the members with equally many internal
    variables (as counted by the specification)."""
    fails, n = [], 0
    c = lambda v: torch.tensor(v)
    for a in s["pair"]:
        for b in s["pair"]:
            for K in (flowrules.KocksMeckingRegimeFlowRule, flowrules.SoftKocksMeckingRegimeFlowRule):
                args = [matlib.flow(a["law"]), matlib.flow(b["law"]), c(0.5), temperature.ConstantParameter(c(1e4)), c(1e-6), c(1e9), c(1e-20)]
                if K is flowrules.SoftKocksMeckingRegimeFlowRule:
                    args.append(c(2.0))
                n += 1
                try:
                    got = K(*args).nhist
                    if a["nh"] != b["nh"]:
                        fails.append(("conform", f"{K.__name__} accepts members with {a['nh']} and {b['nh']} internal variables"))
                    elif got != a["nh"]:
                        fails.append(("conform", f"{K.__name__} of members with {a['nh']} internal variables has {got}"))
                except ValueError as e:
                    if a["nh"] == b["nh"]:
                        fails.append(("conform", f"{K.__name__} rejects members with {a['nh']} internal variables: {e}"))
    return fails[:3], n


def run(chk):
    recs = records(chk, "flow", 1, 12000 if THOROUGH else 1200, SEED + 11)
    chk.replay(lambda s: run_record(s, "flow", CL), recs, "flow rule", sample=2)
    pick = [{"law": r["law"], "nh": r["nh"], "pts": [], "outs": []} for r in recs[:400]]
    chk.replay(conform, [{"pair": [pick[i], pick[-1 - i]]} for i in range(60)], "members", sample=0)
    recs = records(chk, "flow", 30001, 3000 if THOROUGH else 200, SEED + 11, depth=4 if THOROUGH else 3)
    chk.replay(lambda s: run_record(s, "flow", CL), recs, "nested flow rule", sample=1)
