"""C15: temperature-dependent parameters (specs/Temperature.tla)."""
import torch
import matlib
from vlib import THOROUGH, SEED, close, fmap, flt, lay

NQ = 6


def raised(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def scn(s):
    fails, n = [], 0
    p, nb = s["par"], s["nb"]
    T, want = lay(torch.tensor(fmap(s["T"], 2)), s["c"]), torch.tensor(fmap(s["vals"], 2))
    del matlib.MADE[:]
    obj = matlib.tp(p)
    made = list(matlib.MADE)
    keep = T.clone()
    scale = max(1.0, float(want.abs().max()))

    def chk(what, got, w, bare=False):
        nonlocal n
        n += 1
        got = torch.as_tensor(got)
        # a parameter without temperature dependence broadcasts
        if tuple(got.shape) != tuple(w.shape) and got.dim() <= w.dim() and all(
                i in (1, j) for i, j in zip(got.shape[::-1], tuple(w.shape)[::-1])):
            got = torch.broadcast_to(got, w.shape)
        m = close(got, w, 1e-10, scale)
        if m:
            fails.append(("value", f"case {s['c']} {p['kind']} outer={p['outer']} nb={nb} {what}: {m}"))
        if not torch.equal(T, keep) or any(not torch.equal(a, b) for a, b in made):
            fails.append(("altered", f"case {s['c']} {p['kind']} {what}: the temperatures or the parameters were modified"))

    chk("T (nblk, nb)", obj(T), want)
    chk("again", obj(T), want)
    for q in range(NQ):
        chk("T (nb,)", obj(T[q]), want[q])
    chk("T (3, 2, nb)", obj(T.reshape(3, 2, nb)), want.reshape(3, 2, nb))
    chk("T (1, nb)", obj(T[:1]), want[:1])
    nsize = coefshape(p)
    if nsize == 1:
        chk("T scalar", obj(T[0, 0]), want[0, 0])
        chk("T (nblk,)", obj(T[:, 0]), want[:, 0])
    elif p["kind"] not in ("piecewise",):
        # one temperature for all members
        chk("T scalar, batched parameters", obj(T[0, 0]), torch.tensor(fmap(s["one"], 1)))
        chk("T (nblk, 1), batched parameters", obj(T[:1, :1]), torch.tensor(fmap(s["one"], 1))[None])
    n += 1
    exp = () if nsize == 1 else (nb,)
    if tuple(obj.shape) != exp:
        fails.append(("shape", f"case {s['c']} {p['kind']}: .shape is {tuple(obj.shape)}, parameters have {exp}"))
    if p["kind"] == "piecewise":
        lo, hi = flt(p["control"][0]), flt(p["control"][-1])
        for bad in (lo - 0.5, hi + 0.5):
            for arg in (torch.full((nb,), bad), torch.cat([torch.full((1, nb), bad), T])):
                n += 1
                if not raised(obj, arg):
                    fails.append(("range", f"case {s['c']}: temperature {bad} outside the table [{lo}, {hi}] gave a value"))
    return fails[:3], n


def coefshape(p):
    return max(len(c["v"]) for k, x in p.items()
               for c in (x if isinstance(x, list) else [x]) if isinstance(c, dict) and "v" in c)


def run(chk):
    recs = chk.spec("Temperature", consts=dict(Seed=SEED, Cases=range(1, 6000 if THOROUGH else 721), NQ=NQ, Sens=0),
                    invariants=["TableInHull", "Clipped", "TablesInRange"])
    chk.extra["kinds"] = sorted({r["par"]["kind"] for r in recs})
    chk.replay(scn, recs, "parameter", sample=2)
