"""C08: time-series interpolators (specs/Interp.tla)."""
import torch
from pyoptmat import utility
from vlib import THOROUGH, SEED, fmap, flt, lay

TOL = 1e-12


def scn(s):
    fails, n = [], 0
    T, V = lay(torch.tensor(fmap(s["T"], 2)), s["c"]), lay(torch.tensor(fmap(s["V"], 2)), s["c"] // 5)
    nt, nb = T.shape
    T0, V0 = T.clone(), V.clone()
    Q = lay(torch.tensor([[flt(x) for x in q["t"]] for q in s["q"]]), s["c"] // 3)
    want = [[[flt(x) for x in a] for a in q["allowed"]] for q in s["q"]]
    nq = Q.shape[0]

    def ok(what, got, rows, bs=None):
        """got: (len(rows), nbatch) against the allowed values."""
        nonlocal n
        for i, r in enumerate(rows):
            for j, b in enumerate(bs if bs is not None else range(nb)):
                n += 1
                g = float(got[i, j])
                if not any(abs(g - w) <= TOL * max(1.0, abs(w)) for w in want[r][b]):
                    fails.append(("value", f"case {s['c']} {s['kind']} {what}: nt={nt} nb={nb} member {b} "
                                  f"t={float(Q[r, b])!r}: got {g!r}, allowed {want[r][b]}"))
                    return

    def shape(what, got, shp):
        nonlocal n
        n += 1
        if tuple(got.shape) != tuple(shp):
            fails.append(("shape", f"case {s['c']} {s['kind']} {what}: shape {tuple(got.shape)}, query {tuple(shp)}"))
            return False
        return True

    A = utility.ArbitraryBatchTimeSeriesInterpolator(T, V)
    g = A(Q)
    if shape("arbitrary 2d", g, Q.shape):
        ok("arbitrary 2d", g, range(nq))
    for i in range(nq):
        g = A(Q[i])
        if shape("arbitrary 1d", g, Q[i].shape):
            ok("arbitrary 1d", g.reshape(1, nb), [i])
        if i % 5 == 0:
            g = A(Q[i:i + 1])
            if shape("arbitrary (1, nb)", g, (1, nb)):
                ok("arbitrary (1, nb)", g, [i])
    h = nq // 2
    g = A(Q[:2 * h].reshape(2, h, nb))
    if shape("arbitrary 3d", g, (2, h, nb)):
        ok("arbitrary 3d", g.reshape(2 * h, nb), range(2 * h))
    g = A(Q[:2 * h].reshape(2, 1, h, nb))
    if shape("arbitrary 4d", g, (2, 1, h, nb)):
        ok("arbitrary 4d", g.reshape(2 * h, nb), range(2 * h))
    g = A(Q.flip(0))
    ok("arbitrary reversed", g, list(range(nq))[::-1])
    objs = [("batch", utility.BatchTimeSeriesInterpolator(T, V)),
            ("function", lambda t: utility.timeseries_interpolate_batch_times(T, V, t))]
    if s["kind"] == "struct":
        objs.append(("cheater", utility.CheaterBatchTimeSeriesInterpolator(T, V)))
    for name, f in objs:
        for i in range(nq):
            g = f(Q[i])
            if shape(name, g, (nb,)):
                ok(name, g.reshape(1, nb), [i])
    # one grid, scalar times: member 1's grid for all data columns
    col = utility.timeseries_interpolate_single_times
    for i in range(nq):
        g = col(T[:, 0], V[:, :1], Q[i, 0])
        if shape("single", g, (1,)):
            ok("single", g.reshape(1, 1), [i], [0])
        if nb > 1:
            g2 = col(T[:, 0], V, Q[i, 0])
            n += 1
            if tuple(g2.shape) != (nb,) or abs(float(g2[0] - g[0])) > TOL * max(1, abs(float(g[0]))):
                fails.append(("single", f"case {s['c']}: columns interfere in timeseries_interpolate_single_times"))
    n += 1
    if not (torch.equal(T, T0) and torch.equal(V, V0)):
        fails.append(("input", "table modified"))
    return fails[:3], n


def run(chk):
    recs = chk.spec("Interp", consts=dict(
        Seed=SEED, Cases=range(1, 600 if THOROUGH else 81), NTs=[2, 3, 4, 5, 6] + ([9, 12] if THOROUGH else []), NBs=[1, 2, 3, 4],
        Kinds={"distinct", "repeat", "struct"}), invariants=["Defined", "SearchesAgree", "Nondecreasing"])
    chk.replay(scn, recs, "interp")
