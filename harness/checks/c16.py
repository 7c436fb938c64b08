"""C16: parameter scaling maps (specs/Scaling.tla)."""
import re
import torch
from pyoptmat import scaling, optimize
from vlib import THOROUGH, SEED, close, fmap, flt, lay as store

INV = ["InBounds", "AboveMin", "Undone", "Restarts", "Monotone", "Fraction"]
EPS = 4 * torch.finfo(torch.float64).eps


def shapes(n):
    """Ways to lay out n parameters, and walks of them."""
    yield "per parameter", (lambda v: v.clone()), (lambda w: w.clone())
    yield "walk last", (lambda v: v[:, None].clone()), (lambda w: w.T.contiguous())
    yield "batched walk", (lambda v: v[None].clone()), (lambda w: w[:, None].clone())
    if n == 4:
        yield "square", (lambda v: v.reshape(2, 2)), (lambda w: w.reshape(-1, 2, 2))


class Digits:
    """Tensors print with all their digits."""

    def __enter__(self):
        torch.set_printoptions(precision=14, sci_mode=True)

    def __exit__(self, *_):
        torch.set_printoptions(profile="default")


def make(kind, g):
    """scale, unscale for tensors of the map's constants (or floats)."""
    l, u, s, mean, factor, mn = (g[k] for k in ("l", "u", "s", "mean", "factor", "min"))
    cls = {"simple": lambda: scaling.SimpleScalingFunction(s),
           "bounded": lambda: scaling.BoundedScalingFunction(l, u),
           "open": lambda: scaling.BoundedScalingFunction(l, u, clamp=False),
           "log": lambda: scaling.LogBoundedScalingFunction(l, u),
           "logopen": lambda: scaling.LogBoundedScalingFunction(l, u, clamp=False)}
    if kind in cls:
        return cls[kind]()
    return {"factor": lambda: optimize.bound_factor(mean, factor),
            "factormin": lambda: optimize.bound_factor(mean, factor, min_bound=mn),
            "window": lambda: optimize.bounded_scale_function((l, u)),
            "windowmin": lambda: optimize.bounded_scale_function((l, u), min_bound=mn),
            "clamp": lambda: optimize.clamp_scale_function((l, u)),
            "scaleclamp": lambda: optimize.bound_and_scale(s, (l, u)),
            "logclamp": lambda: optimize.log_bound_and_scale(s, (l, u))}[kind]()


CLAMPED = {"bounded", "log", "factor", "window", "clamp", "scaleclamp", "logclamp"}


def scn(r):
    fails, n = [], 0
    kind = r["kind"]
    con = {k: torch.tensor([fmap(m[k], 0) for m in r["map"]]) for k in r["map"][0]}
    X = torch.tensor([fmap(e["x"], 1) for e in r["log"]])
    Y = torch.tensor([fmap(e["y"], 1) for e in r["log"]])
    S = [torch.tensor(fmap(e["start"], 1)) for e in r["log"] if e["start"]]
    ysc = (con["l"].abs() + con["u"].abs() + con["s"].abs())

    def bad(clause, what, msg):
        fails.append((clause, f"case {r['c']} {kind} n={r['n']} {what}: {msg}"))

    def run(what, f, g, x, y, sc):
        nonlocal n
        keep = [t.clone() for t in (x, *[v for v in g.values() if torch.is_tensor(v)])]
        scale = f.scale if isinstance(f, scaling.ScalingFunction) else f
        got = scale(x)
        n += 1
        m = close(got / torch.clamp(sc, min=1e-300), y / torch.clamp(sc, min=1e-300), 1e-12,
                  max(1.0, float((y / sc).abs().max())))
        if m:
            bad("value", what, m)
            return
        if kind in CLAMPED:
            lo, hi = torch.minimum(*lh(g)), torch.maximum(*lh(g))
            out = torch.maximum(lo - got, got - hi)
            if bool((out > EPS * torch.maximum(lo.abs(), hi.abs())).any()):
                bad("bounds", what, f"{float(out.max())} outside")
        if isinstance(f, scaling.ScalingFunction):
            n += 2
            if not torch.equal(f(x), got):
                bad("call", what, "calling the object differs from scale")
            back = f.unscale(got)
            ok = ((x >= 0) & (x <= 1)) | torch.tensor(kind in ("simple", "open", "logopen"))
            err = ((back - x).abs() / (1 + x.abs()))[ok.expand_as(x)]
            # the bounds may be close together compared to their size
            cond = float((sc / (g["u"] - g["l"] if kind != "simple" else g["s"])).abs().max())
            if err.numel() and float(err.max()) > 1e-13 * max(1.0, cond) * 8:
                bad("inverse", what, f"off by {float(err.max())}")
            inside = bool(((x >= 0) & (x <= 1)).all())
            if kind != "log" and kind != "logopen" and inside:
                n += 1
                if not torch.equal(f.scale_mean(x, 0.1 * torch.ones_like(x)), got):
                    bad("mean", what, "scale_mean differs from scale")
        for a, b in zip(keep, (x, *[v for v in g.values() if torch.is_tensor(v)])):
            if not torch.equal(a, b):
                bad("altered", what, "an argument was modified")

    def lh(g):
        if "factor" == kind:
            return g["mean"] * (1 - g["factor"]), g["mean"] * (1 + g["factor"])
        return torch.as_tensor(g["l"]), torch.as_tensor(g["u"])

    for name, lay, walk in shapes(r["n"]):
        g = {k: store(lay(v), r["c"] + i) for i, (k, v) in enumerate(con.items())}
        f = make(kind, g)
        run(name, f, g, store(walk(X), r["c"] // 5), walk(Y), lay(ysc))
        if name != "walk last":
            run(name + ", one row", f, g, walk(X)[0], walk(Y)[0], lay(ysc))
        for st in S[:2]:
            if isinstance(f, scaling.ScalingFunction) and name == "per parameter":
                n += 1
                m = close(f.scale(f.unscale(st)) / ysc, st / ysc, 1e-12)
                if m:
                    bad("inverse", name + " from a physical value", m)
    # the distribution of the physical values for normally distributed raw values
    if r["stats"]:
        n += 1
        of = torch.tensor([fmap(e["of"], 1) for e in r["stats"]])
        want = [flt(e["is"][k]) for k in ("loc", "dev", "mean") for e in r["stats"] if k in e["is"]]
        with Digits():
            msg = make(kind, con).scale_stat(of[:, 0].clone(), of[:, 1].clone())
        got = [float(v) for v in re.findall(r"[-+]?\d+\.\d*(?:e[-+]?\d+)?", msg)]
        m = close(torch.tensor(got), want, 1e-9) if len(got) == len(want) else f"{got}, expected {want}"
        if m:
            bad("statistics", "scale_stat", m)
    # scalar bounds, one parameter at a time
    for j in range(r["n"]):
        g = {k: v[j].clone() for k, v in con.items()}
        run("scalar bounds", make(kind, g), g, X[:, j].clone(), Y[:, j].clone(), ysc[j])
        run("scalar bounds and value", make(kind, g), g, X[0, j].clone(), Y[0, j].clone(), ysc[j])
        if kind in ("clamp", "scaleclamp", "logclamp", "window", "factor"):
            g = {k: float(v[j]) for k, v in con.items()}
            run("number bounds", make(kind, g), {k: torch.tensor(v) for k, v in g.items()},
                X[:, j].clone(), Y[:, j].clone(), ysc[j])
    return fails[:3], n


def run(chk):
    recs = chk.spec("Scaling", consts=dict(Seed=SEED, Cases=range(1, 4000 if THOROUGH else 600), Walk=12), invariants=INV)
    chk.extra["kinds"] = sorted({r["kind"] for r in recs})
    chk.replay(scn, recs, "scaling", sample=1)
