"""C20: calls leave inputs alone and do not interfere (specs/Sessions.tla,
specs/Calls.tla)."""
import json
import os
import random
import torch
import callfam
import lawlib
import odelib
from pyoptmat import models, ode
from vlib import THOROUGH, SEED, MachineryError, close, fmap, scratch

INV = ["OncePerForward", "OwnCache", "Consistent"]


# --------------------------------------------------------------------------
# sessions of polynomial integrations, against the specification

def sessions(s):
    fails, n = [], 0
    d = s["data"]
    nr = len(d["runs"])
    par = d["runs"][0]["prob"]["par"]
    for log in s["logs"]:
        rnd = random.Random(repr(log) + str(d["c"]))
        shared_y0 = rnd.random() < 0.3 and all(r["prob"]["y0"] == d["runs"][0]["prob"]["y0"] for r in d["runs"])
        kinds = [rnd.choice(["module", "module", "extra"]) for _ in par]
        f = odelib.PolyOde(d["runs"][0]["prob"], kinds)
        runs = []
        y_one = None
        for i, r in enumerate(d["runs"]):
            p = r["prob"]
            y0 = torch.tensor(fmap(p["y0"], 2)).requires_grad_(True)
            if shared_y0:
                y_one = y0 if y_one is None else y_one
                y0 = y_one
            runs.append(dict(
                y0=y0, t=torch.tensor(fmap(p["t"], 2)).reshape(p["nt"], p["nb"]),
                w=torch.tensor(fmap(p["w"], 3)), entry=rnd.choice(["odeint", "odeint_adjoint", "odeint_adjoint"]),
                o=dict(block_size=rnd.randrange(1, p["nt"] + 2), guess_type=rnd.choice(["zero", "previous"]),
                       direct_solve_method=rnd.choice(["thomas", "pcr", "hybrid"]),
                       method=odelib.METHOD[r["scheme"]], rtol=1e-10, atol=1e-13, miter=30)))
        keep = [(r["y0"].detach().clone(), r["t"].clone()) for r in runs]
        extra = [f.extra[j] for j in sorted(f.extra)]
        res, seen = [None] * nr, [None] * nr
        gy = [torch.zeros_like(r["y0"]) for r in runs]
        ver = 0
        what = f"case {d['c']} log {[(e['op'], e.get('run', e.get('runs'))) for e in log]} entries {[r['entry'] for r in runs]} " \
               f"blocks {[r['o']['block_size'] for r in runs]}"

        def bad(clause, msg):
            fails.append((clause, f"{what}: {msg}"))
        for e in log:
            if e["op"] == "forward":
                i = e["run"] - 1
                r = runs[i]
                res[i] = getattr(ode, r["entry"])(f, r["y0"], r["t"], extra_params=extra, **r["o"])
                seen[i] = (res[i].detach().clone(), e["ver"])
                n += 1
                m = close(res[i], fmap(d["alone"][i][e["ver"]]["y"], 3), 1e-8)
                if m:
                    bad("result", f"run {i + 1}: {m}")
            elif e["op"] in ("backward", "keep"):
                loss = sum((res[i - 1] * runs[i - 1]["w"]).sum() for i in e["runs"])
                loss.backward(retain_graph=e["op"] == "keep")
                for i in e["runs"]:
                    gy[i - 1] += torch.tensor(fmap(d["alone"][i - 1][seen[i - 1][1]]["gy"], 2))
                for j in range(len(par)):
                    want = sum(torch.tensor(fmap(d["alone"][a[0] - 1][a[1]]["gp"][j], 1)) for a in e["acc"])
                    g = f.par(j).grad
                    n += 1
                    if g is None:
                        if float(want.abs().max()) != 0:
                            bad("gradient", f"parameter {j}: no gradient after {e['op']} of {e['runs']}")
                        continue
                    m = close(g.reshape(-1), want.tolist(), 5e-7, max(1.0, float(want.abs().max()), float(g.abs().max()) * 0))
                    if m:
                        bad("gradient", f"parameter {j} after backward of {e['runs']}: {m}")
                tot = [sum(gy)] * nr if shared_y0 else gy
                for i in range(nr):
                    g = runs[i]["y0"].grad
                    n += 1
                    if g is None:
                        if float(tot[i].abs().max()) != 0:
                            bad("gradient", f"no gradient of initial condition {i + 1}")
                        continue
                    m = close(g, tot[i].tolist(), 5e-7)
                    if m:
                        bad("gradient", f"initial condition {i + 1} after backward of {e['runs']}: {m}")
            elif e["op"] == "update":
                ver += 1
                with torch.no_grad():
                    for j in range(len(par)):
                        f.par(j).add_(0.125)
            # earlier results and the inputs stay as they were
            for i in range(nr):
                n += 1
                if seen[i] is not None and not torch.equal(res[i].detach(), seen[i][0]):
                    bad("altered", f"the result of run {i + 1} changed")
                if not torch.equal(runs[i]["y0"].detach(), keep[i][0]) or not torch.equal(runs[i]["t"], keep[i][1]):
                    bad("altered", f"the inputs of run {i + 1} changed")
            if fails:
                return fails[:3], n
    return fails[:3], n


# --------------------------------------------------------------------------
# the same sessions with one material model and one integrator

class Material:
    def __init__(self, seed, nr):
        d = callfam.Draw(seed)
        rnd = random.Random(seed)
        self.m = callfam.material(d, rnd.random() < 0.5, grad=True)
        self.I = models.ModelIntegrator(self.m, use_adjoint=rnd.random() < 0.7, block_size=rnd.randrange(1, 4),
                                        throw_on_fail=True, rtol=1e-10, atol=1e-9)
        self.calls = []
        for i in range(nr):
            nb = rnd.randrange(1, 3)
            L = callfam.Loads(d, nb, rnd.randrange(2, 4))
            kind = rnd.choice(["strain", "stress", "both"])
            stress = 10 * torch.cumsum(d.u(-1, 3, *L.x.shape), 0)
            stress[0] = 0
            control = torch.tensor([(b + i) % 2 for b in range(nb)])
            w = d.u(-1, 1, *L.x.shape)
            x = torch.where(control[None] == 1, stress, L.x)
            self.calls.append((kind, L, stress, x, control, w))
        self.pars = list(self.m.parameters())

    def run(self, i):
        kind, L, stress, x, control, w = self.calls[i]
        r = (self.I.solve_strain(L.t, L.x, L.T) if kind == "strain" else self.I.solve_stress(L.t, stress, L.T)
             if kind == "stress" else self.I.solve_both(L.t, L.T, x, control))
        return r, (r[..., 0] * w).sum()

    def update(self):
        with torch.no_grad():
            for p in self.pars:
                p.mul_(1.015625)


def material(s):
    fails, n = [], 0
    nr = s["nr"]
    alone = {}
    for i in range(nr):
        for v in (0, 1):
            m = Material(s["seed"], nr)
            for _ in range(v):
                m.update()
            r, loss = m.run(i)
            loss.backward()
            alone[i, v] = (r.detach(), [p.grad if p.grad is not None else torch.zeros_like(p) for p in m.pars])
    for log in s["logs"]:
        m = Material(s["seed"], nr)
        pend = {}
        what = f"material {s['seed']} calls {[k[0] for k in m.calls]} adjoint={m.I.use_adjoint} log {[(e['op'], e.get('run', e.get('runs'))) for e in log]}"
        for e in log:
            if e["op"] == "forward":
                i = e["run"] - 1
                r, loss = m.run(i)
                pend[i] = loss
                n += 1
                x = close(r, alone[i, e["ver"]][0].tolist(), 1e-9)
                if x:
                    fails.append(("result", f"{what}: run {i + 1} {x}"))
            elif e["op"] in ("backward", "keep"):
                sum(pend[i - 1] for i in e["runs"]).backward(retain_graph=e["op"] == "keep")
                for j, p in enumerate(m.pars):
                    want = sum(alone[a[0] - 1, a[1]][1][j] for a in e["acc"])
                    g = p.grad if p.grad is not None else torch.zeros_like(p)
                    n += 1
                    x = close(g, want.tolist(), 1e-7, max(1e-6, float(want.abs().max()), *[
                        float(alone[a[0] - 1, a[1]][1][j].abs().max()) for a in e["acc"]]))
                    if x:
                        fails.append(("gradient", f"{what}: parameter {j} after backward of {e['runs']}: {x}"))
            elif e["op"] == "update":
                m.update()
            if fails:
                return fails[:3], n
    return fails[:3], n


# --------------------------------------------------------------------------
# sequences of calls

def calls(s):
    """Runs the sequences; returns the recorded traces (tokens)."""
    make = callfam.FAMILIES[s["family"]] if "rec" not in s else callfam.laws(s["rec"])
    seed = s["seed"]
    alone, names = [], []
    nops = len(make(seed)[0])
    pick = random.Random(seed).sample(range(nops), min(nops, s["nops"]))
    tokens = []                              # distinct results of each operation

    def token(o, r):
        tok = next((i for i, t in enumerate(tokens[o]) if callfam.same_result(t, r)), None)
        if tok is None:
            tok = len(tokens[o])
            tokens[o].append(r)
        return tok
    for k, o in enumerate(pick):
        tokens.append([])
        alone.append([])
        for v in range(1 + s["edits"]):
            ops, inputs = make(seed)
            for _ in range(v):
                for x in inputs:
                    callfam.edit(x)
            if v == 0:
                names.append(ops[o][0])
            alone[k].append(token(k, callfam.flat(ops[o][1]())))
    traces = []
    for seq in s["seqs"]:
        ops, inputs = make(seed)
        keep = [callfam.snap(x) for x in inputs]
        ev = []
        results = []                        # results handed out earlier
        for o in seq:
            o -= 1
            if o >= len(pick):
                continue
            if o < 0:
                for x in inputs:
                    callfam.edit(x)
                keep = [callfam.snap(x) for x in inputs]
                results = [(a, callfam.flat(a)) for a, _ in results]
                ev.append({"op": 0, "res": 0, "inputs": 0})
                continue
            out = ops[pick[o]][1]()
            r = callfam.flat(out)
            tok = token(o, r)
            ok = all(callfam.same_input(a, b) for a, b in zip(inputs, keep))
            results.append((out, r))
            held = all(callfam.same_result(callfam.flat(a), b) for a, b in results)
            ev.append({"op": o + 1, "res": tok, "inputs": 0 if ok else 1 if held else 2})
            if ok and not held:
                ev[-1]["inputs"] = 2
        traces.append({"name": f"{s['family']} seed {seed} operations {[names[e['op'] - 1] if e['op'] else 'edit' for e in ev]}",
                       "alone": alone, "inputs": 0, "events": ev})
    return [], sum(len(t["events"]) for t in traces), traces


def run(chk):
    rnd = random.Random(SEED)
    scns, mats = [], []
    plans = [(2, 1, 1, 0, range(1, 11), 40), (2, 0, 0, 2, range(51, 57), 40), (3, 0, 0, 0, range(101, 106), 40),
             (3, 1, 1, 0, range(201, 203), 60)]
    if THOROUGH:
        plans = [(2, 1, 1, 1, range(1, 60), 10**6), (3, 0, 0, 0, range(101, 140), 10**6), (3, 1, 1, 0, range(201, 209), 1500),
                 (4, 0, 0, 0, range(301, 305), 1500), (3, 0, 0, 2, range(401, 405), 1500)]
    for nr, u, re, kp, cases, limit in plans:
        recs = chk.spec("Sessions", consts=dict(Seed=SEED, Cases=cases, Runs=nr, Updates=u, Redo=re, Keeps=kp), invariants=INV)
        by = {}
        for r in recs:
            if r["k"] == "session":
                for e in r["log"]:
                    if "runs" in e:
                        e["runs"] = sorted(e["runs"])
                by.setdefault(r["c"], []).append(r["log"])
        for d in (r for r in recs if r["k"] == "data"):
            logs = sorted(by[d["c"]], key=repr)
            logs = logs if len(logs) <= limit else rnd.sample(logs, limit)
            scns += [{"data": d, "logs": logs[i:i + 10]} for i in range(0, len(logs), 10)]
        logs = sorted(next(iter(by.values())), key=repr)
        for k in range(24 if THOROUGH else 8):
            mats.append({"seed": SEED * 1000 + 10 * nr + 100 * k, "nr": nr,
                         "logs": rnd.sample(logs, min(len(logs), 40 if THOROUGH else 5))})
    chk.extra["session_schedules"] = sum(len(s["logs"]) for s in scns) + sum(len(s["logs"]) for s in mats)
    chk.replay(sessions, scns, "session", sample=1)
    chk.replay(material, mats, "material session", sample=1)

    nops, length = (5, 4) if THOROUGH else (4, 3)
    edits = 2 if THOROUGH else 1
    seqs = [r["ops"] for r in chk.spec("Calls", consts=dict(Mode="generate", N=nops, Length=length, Edits=edits, TraceFile=""))]
    # as many sequences with edits as without
    plain, edited = [q for q in seqs if 0 not in q], [q for q in seqs if 0 in q]
    fam = [{"family": k, "seed": SEED * 100 + i, "nops": nops} for k in callfam.FAMILIES
           for i in range((30 if THOROUGH else 6) if k not in ("integrators", "odes") else (8 if THOROUGH else 3))]
    for focus in ("iso", "kin", "flow", "damage", "model"):
        recs = lawlib.records(chk, focus, 1, (120 if THOROUGH else 16) * (2 if focus == "model" else 1), SEED + 20)
        for r in recs:
            r["focus"] = focus
            fam.append({"family": f"{focus} {r['law']['kind']}", "seed": r["c"], "nops": nops, "rec": r})
    work = []
    for f in fam:
        k = 64 if THOROUGH and "rec" in f else 125 if THOROUGH else 10 if "rec" in f else 64
        if f["family"] in ("integrators", "odes"):
            k = 15 if THOROUGH else 8
        q = rnd.sample(plain, min(len(plain), k)) + rnd.sample(edited, min(len(edited), k))
        f["edits"] = edits
        k = 5 if f["family"] == "integrators" else 64
        work += [{**f, "seqs": q[i:i + k]} for i in range(0, len(q), k)]
    work.sort(key=lambda f: f["family"] != "integrators")
    traces = []
    chk.replay(calls, work, "calls", sample=0, collect=lambda t, s: traces.extend(t))
    f = os.path.join(scratch(), "calls.ndjson")
    with open(f, "w") as o:
        for t in traces:
            o.write(json.dumps(t) + "\n")
    recs = chk.spec("Calls", consts=dict(Mode="validate", N=1, Length=1, Edits=0, TraceFile=f))
    if len(recs) != len(traces):
        raise MachineryError(f"{len(recs)} verdicts on {len(traces)} recorded sequences")
    chk.extra["call_sequences"] = len(traces)
    for r in recs:
        if not r["ok"]:
            t = traces[r["i"] - 1]
            e = t["events"][r["at"] - 1]
            ver = sum(x["op"] == 0 for x in t["events"][:r["at"]])
            why = "another result than on its own" if e["res"] != t["alone"][e["op"] - 1][ver] else \
                "an input was modified" if e["inputs"] == 1 else "an earlier result was modified"
            chk.fail(t, "calls", f"{t['name']}, call {r['at']}: {why}", "calls")
