"""C17: reduction of histories by experiment type (specs/Reduction.tla)."""
import random
import torch
from pyoptmat import experiments
from vlib import THOROUGH, SEED, close, fmap, lay

INV = ["Envelope", "Relative", "Unchanged", "Strengths"]


def scn(r):
    fails, n = [], 0
    rnd = random.Random(r["c"])
    ex, nt = r["exps"], r["nt"]
    val = torch.tensor([fmap(e["val"], 1) for e in ex]).T.contiguous()
    cyc = torch.tensor([e["cyc"] for e in ex]).T.contiguous()
    typ = torch.tensor([e["code"] for e in ex])
    want = torch.tensor([fmap(o, 1) for o in r["out"]]).T.contiguous()
    all_ = list(range(len(ex)))
    names = [e["type"] for e in ex]

    def bad(clause, what, msg):
        fails.append((clause, f"case {r['c']} nt={nt} {what} types {names}: {msg}"))

    def one(what, f, v, c, t, w):
        nonlocal n
        keep = [v.clone(), c.clone(), t.clone()]
        x = v.detach().requires_grad_()
        got = f(x, c, t)
        n += 1
        m = close(got, w.tolist(), 1e-12)
        if m:
            bad("value", what, m)
            return
        if not all(torch.equal(a, b) for a, b in zip(keep, (v, c, t))) or not torch.equal(keep[0], x.detach()):
            bad("altered", what, "an argument was modified")
        # derivatives, through which models are fitted
        wt = torch.tensor([[rnd.randrange(1, 9) for _ in range(v.shape[1])] for _ in range(nt)], dtype=v.dtype)
        (wt * got).sum().backward()
        n += 1
        for b in range(v.shape[1]):
            m = gradient(names_of(t)[b], c[:, b].tolist(), v[:, b].tolist(), wt[:, b].tolist(), x.grad[:, b].tolist())
            if m:
                bad("derivative", f"{what} member {b} {names_of(t)[b]}", m)

    batches = [all_, all_[::-1], rnd.sample(all_, len(all_)), [rnd.choice(all_) for _ in range(rnd.randrange(1, 8))]]
    batches += [[b] for b in all_]
    for i, sel in enumerate(batches):
        one(f"batch {sel}", lambda x, c, t: experiments.convert_results(x, c, t), lay(val[:, sel], r["c"] + i), lay(cyc[:, sel], r["c"] // 5 + i),
            lay(typ[sel], r["c"] // 2 + i),
            want[:, sel])
    for name in set(names):
        sel = [b for b in all_ if names[b] == name]
        one(f"{name} only", lambda x, c, t: experiments.exp_fns[name](c, x), lay(val[:, sel], r["c"]),
            lay(cyc[:, sel], r["c"] // 5), typ[sel].clone(), want[:, sel])
        n += 1
        if experiments.exp_map[name] != typ[sel[0]]:
            bad("code", name, "another code")
    return fails[:3], n


def names_of(t):
    inv = ["tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data"]
    return [inv[int(i)] for i in t]


def gradient(name, cyc, val, wt, g):
    """The derivative of the weighted sum of the results of one experiment
    (shared in any way between equal largest values)."""
    nt = len(val)
    want = [0.0] * nt
    groups = []                      # (indices sharing, weight)
    if name in ("tensile", "direct_data"):
        want = wt
    elif name in ("relaxation", "creep"):
        hold = [j for j in range(nt) if cyc[j] == 1]
        for j in hold:
            want[j] += wt[j]
        want[hold[0]] -= sum(wt[j] for j in hold)
    else:
        if name == "abstract_tensile":
            first = [j for j in range(nt) if cyc[j] == 1]
            for j in first:
                want[first[0]] += wt[j]
            groups = [([j for j in range(nt) if val[j] == max(val)], sum(wt[j] for j in range(nt) if cyc[j] == 2))]
        else:
            for k in set(cyc):
                idx = [j for j in range(nt) if cyc[j] == k]
                top = max(val[j] for j in idx)
                groups.append(([j for j in idx if val[j] == top], sum(wt[j] for j in idx)))
    got = [a - b for a, b in zip(g, want)]
    for idx, w in groups:
        s = sum(got[j] for j in idx)
        if abs(s - w) > 1e-9:
            return f"{s} through the largest value, expected {w}"
        for j in idx:
            got[j] = 0.0
    off = [j for j in range(nt) if not abs(got[j]) <= 1e-9]
    return f"{g} with weights {wt}, cycles {cyc}, values {val}" if off else None


def run(chk):
    recs = chk.spec("Reduction", consts=dict(Seed=SEED, Cases=range(1, 20000 if THOROUGH else 1500)), invariants=INV)
    chk.extra["types"] = sorted({e["type"] for r in recs for e in r["exps"]})
    chk.extra["mixtures"] = len({tuple(e["type"] for e in r["exps"]) for r in recs})
    chk.replay(scn, recs, "reduction", sample=1)
