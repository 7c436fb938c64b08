"""C18: loading of data sets (specs/DataSet.tla) and generated histories
(specs/Histories.tla)."""
import random
import numpy as np
import torch
import xarray as xr
from pyoptmat import experiments
from vlib import THOROUGH, SEED, close, flt, fmap


def load(r):
    fails, n = [], 0
    st = r["store"]
    rnd = random.Random(r["c"])
    want = {
        "data": torch.tensor([fmap(d, 2) for d in r["data"]]).permute(1, 2, 0),
        "results": torch.tensor([fmap(d, 1) for d in r["results"]]).T,
        "cycles": torch.tensor(r["cycles"]).T,
        "types": torch.tensor(r["types"]),
        "control": torch.tensor(r["control"]),
    }
    all_ = list(range(len(st)))
    for sel in (all_, all_[::-1], rnd.sample(all_, len(all_)), [rnd.choice(all_)]):
        ds = xr.Dataset(
            {k: (["ntime", "nexp"], np.array([fmap(st[b][k], 1) for b in sel],
                                             dtype=np.int64 if whole else np.float64).T.copy())
             for k, whole in zip(("time", "temperature", "strain", "stress"), r["whole"])}
            | {"cycle": (["ntime", "nexp"], np.array([st[b]["cycle"] for b in sel]).T.copy()),
               "type": (["nexp"], np.array([st[b]["type"] for b in sel])),
               "control": (["nexp"], np.array([st[b]["control"] for b in sel]))},
            attrs={"heat": 1})
        keep = ds.copy(deep=True)
        n += 1
        what = f"case {r['c']} nt={r['nt']} experiments {[(st[b]['type'], st[b]['control']) for b in sel]} whole={r['whole']}"
        try:
            got = experiments.load_results(ds)
        except RuntimeError as e:
            fails.append(("raised", f"{what}: {e}"))
            continue
        if len(got) != 5:
            fails.append(("tuple", f"{what}: {len(got)} results"))
            continue
        for (name, w), g in zip(want.items(), got):
            w = w[..., sel]
            n += 1
            if tuple(g.shape) != tuple(w.shape) or not torch.equal(g.to(w.dtype), w):
                fails.append((name, f"{what}: {name} {g.tolist()}, expected {w.tolist()}"))
        if not ds.identical(keep):
            fails.append(("altered", f"{what}: the data set was modified"))
    return fails[:3], n


def bad_order(t):
    return any(b < a for a, b in zip(t, t[1:]))


def make(group):
    """A batch of histories of one kind with the same numbers of steps."""
    fails, n = [], 0
    kind = group[0]["kind"]
    T = [g["test"] for g in group]
    want_t = torch.tensor([fmap(g["t"], 1) for g in group])
    want_x = torch.tensor([fmap(g["x"], 1) for g in group])
    want_c = torch.tensor([g["cyc"] for g in group])
    col = lambda k: torch.tensor([flt(w[k]) for w in T])
    what = f"{kind} cases {[g['c'] for g in group]}"
    temps = None
    if kind == "tension":
        args = (col("rate"), col("T"), col("limit"), T[0]["nsteps"])
        t, x, temps, cyc = experiments.make_tension_tests(*args)
    elif kind in ("creep", "creeplog"):
        args = (col("stress"), col("T"), col("rate"), col("end"), T[0]["nload"], T[0]["nhold"])
        t, x, temps, cyc = experiments.make_creep_tests(*args, logspace=kind == "creeplog")
        if kind == "creep":
            n += 1
            again = experiments.make_creep_tests(*args)
            if not all(torch.equal(a, b) for a, b in zip(again, (t, x, temps, cyc))):
                fails.append(("default", f"{what}: even spacing is not the default"))
    elif kind == "sample":
        ts, xs = zip(*[experiments.sample_tension(
            {"max_strain": flt(w["limit"]), "strain_rate": flt(w["rate"])}, nsteps=w["nsteps"]) for w in T])
        t, x = torch.tensor(np.array(ts)).T, torch.tensor(np.array(xs)).T
        cyc = want_c.T
    else:
        ts, xs, cs = zip(*[experiments.sample_cycle_normalized_times(
            {"max_strain": flt(w["emax"]), "R": flt(w["R"]), "strain_rate": flt(w["rate"]),
             "tension_hold": flt(w["th"]), "compression_hold": flt(w["ch"])}, w["N"],
            nload=w["nload"], nhold=w["nhold"]) for w in T])
        t, x, cyc = (torch.tensor(np.array(q)).T for q in (ts, xs, cs))
    for b in range(len(group)):
        n += 3
        for name, got, w in (("times", t, want_t), ("driving values", x, want_x), ("cycles", cyc, want_c)):
            ww = w[b].tolist()
            sc = max(1e-6, max(abs(v) for v in ww)) if name != "cycles" else 1.0
            if name == "driving values":        # follows the rounding of the times
                sc = max(sc, abs(flt(T[b]["rate"])) * float(want_t[b].max()) * 1e-3)
            m = close(got[:, b], ww, 1e-11 if name != "cycles" else 0, sc)
            if m:
                fails.append((name, f"{what} member {b} {T[b] if kind != 'cycle' else ''}: {m}"))
        got = t[:, b].tolist()
        if bad_order(got) or got[0] != 0 or float(x[0, b]) != 0:
            fails.append(("order", f"{what} member {b}: times {got}, first value {float(x[0, b])}"))
    if temps is not None:
        n += 1
        w = col("T").expand(len(want_t[0]), -1)
        if tuple(temps.shape) != tuple(w.shape) or not torch.equal(temps, w):
            fails.append(("temperature", f"{what}: {temps.tolist()}"))
    return fails[:3], n


def draws(r):
    """The random generators stay within the requested ranges, use all of
    them, and describe valid tests."""
    fails, n = [], 0
    np.random.seed(r["seed"])
    lim = r["ranges"]
    got = [experiments.generate_random_cycle(**lim) for _ in range(60)]
    keys = {"max_strain", "R", "strain_rate", "tension_hold", "compression_hold"}
    for g in got:
        n += 1
        if set(g) != keys:
            fails.append(("keys", f"{set(g)}"))
            return fails, n
    for k in keys:
        a, b = sorted(lim[k])
        v = [float(g[k]) for g in got]
        n += 1
        if min(v) < a - 1e-12 * abs(a) or max(v) > b + 1e-12 * abs(b):
            fails.append(("range", f"{k} in [{min(v)}, {max(v)}], requested {lim[k]}"))
        f = (lambda q: np.log(q)) if k == "strain_rate" else (lambda q: q)
        if b > a:
            u = [(f(q) - f(a)) / (f(b) - f(a)) for q in v]
            if not (min(u) < 0.25 and max(u) > 0.75 and 0.25 < sum(u) / len(u) < 0.75):
                fails.append(("spread", f"{k} {sum(u) / len(u)} of the range {lim[k]}: [{min(u)}, {max(u)}]"))
    for g in got[:10]:
        n += 1
        t, e, c = experiments.sample_cycle_normalized_times(g, 3, nload=4, nhold=2)
        emin, emax = g["R"] * g["max_strain"], g["max_strain"]
        if bad_order(list(t)) or t[0] != 0 or e[0] != 0 or bad_order(list(c)) or max(c) != 2:
            fails.append(("history", f"{g}"))
        for w in (emin, emax):
            if abs(e - w).min() > 1e-9:
                fails.append(("extremes", f"{g}: {w} not reached"))
        if e.max() > max(0, emin, emax) + 1e-9 or e.min() < min(0, emin, emax) - 1e-9:
            fails.append(("extremes", f"{g}: exceeded"))
    np.random.seed(r["seed"])
    ten = [experiments.generate_random_tension(strain_rate=lim["strain_rate"], max_strain=lim["max_strain"][1])
           for _ in range(60)]
    a, b = sorted(lim["strain_rate"])
    v = [float(g["strain_rate"]) for g in ten]
    n += 2
    if min(v) < a * (1 - 1e-12) or max(v) > b * (1 + 1e-12):
        fails.append(("range", f"tension rates [{min(v)}, {max(v)}], requested {lim['strain_rate']}"))
    u = [(np.log(q) - np.log(a)) / (np.log(b) - np.log(a)) for q in v]
    if not (min(u) < 0.25 and max(u) > 0.75 and 0.25 < sum(u) / len(u) < 0.75):
        fails.append(("spread", f"tension rates {sorted(u)}"))
    if any(set(g) != {"max_strain", "strain_rate"} or g["max_strain"] != lim["max_strain"][1] for g in ten):
        fails.append(("keys", f"{ten[0]}"))
    return fails[:3], n


def run(chk):
    recs = chk.spec("DataSet", consts=dict(Seed=SEED, Cases=range(1, 6000 if THOROUGH else 600)),
                    invariants=["Faithful", "Once"])
    chk.replay(load, recs, "loading", sample=1)
    recs = chk.spec("Histories", consts=dict(Seed=SEED, Cases=range(1, 20000 if THOROUGH else 2400)),
                    invariants=["FromZero", "InOrder", "AtRate", "Within", "Closed", "Reaches"])
    groups = {}
    for r in recs:
        w = r["test"]
        groups.setdefault((r["kind"], w.get("nsteps"), w.get("nload"), w.get("nhold"), w.get("N")), []).append(r)
    chk.replay(make, [g[i:i + 4] for g in groups.values() for i in range(0, len(g), 4)], "history", sample=1)
    rnd = random.Random(SEED)
    rs = []
    for i in range(400 if THOROUGH else 60):
        u = lambda a, b: [x for x in sorted((rnd.uniform(a, b), rnd.uniform(a, b)))]
        r1 = sorted((10 ** rnd.uniform(-6, -1), 10 ** rnd.uniform(-6, -1)))
        rs.append({"seed": rnd.randrange(10 ** 6), "ranges": {
            "max_strain": u(0.001, 0.05), "R": rnd.choice([u(-1, 1), [-1, -1], [0, 0]]),
            "strain_rate": r1 if rnd.random() < 0.5 else r1[::-1],
            "tension_hold": rnd.choice([u(0, 3600), [0, 0]]), "compression_hold": rnd.choice([u(0, 600), [0, 0]])}})
    chk.replay(draws, rs, "random", sample=1)
