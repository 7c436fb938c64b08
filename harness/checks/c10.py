"""C10: strain and stress control are inverse to each other.  Every history
the code returns, in either control, is validated step by step against the
relation of specs/MaterialStep.tla (specs/TraceSim.tla)."""
import random
import torch
from simlib import records, Tests, failed, within, trace, validate
from vlib import THOROUGH, SEED, MachineryError


def loads(t, rnd):
    """A stress history of its own for each test: small multiples of the
    elastic response, with holds."""
    E = torch.stack([0.25 * t.y[..., 0].abs().max(dim=0).values]) .clamp(min=1e-3)
    q = torch.tensor([[rnd.choice([0, 0, 1, 1, 2, -1]) for _ in range(t.nb)] for _ in range(t.n + 1)], dtype=torch.float64)
    q[0] = 0
    dt = torch.cat([torch.ones(1, t.nb), t.t[1:] - t.t[:-1]])
    q[dt == 0] = 0                  # no jumps
    return torch.cumsum(q, 0) * E


def scn(r):
    """Runs, and the histories for the specification to judge."""
    t = Tests(r)
    rnd = random.Random(7 * r["c"])
    fails, n, traces, heads = [], 0, [], []
    all_ = list(range(t.nb))
    free, plain = r["free"], r["law"]["kind"] == "inelastic"

    def run(f, *a):
        """Stress control of a rate-dependent flow may iterate for long without
        finding a solution."""
        with torch.no_grad():
            return failed(f, *a) if free else within(8, failed, f, *a)

    def note(kind, head, x, y):
        ok = bool(torch.isfinite(x).all()) and bool(torch.isfinite(y).all())
        if not ok and free and head["block_size"] == 1:
            fails.append(("not finite", f"{t.what} {kind} {head}"))
        # beyond the states a model is meant for
        if not ok or float(y.abs().max()) > 1e6 or (not plain and float(y[..., -1].max()) > 0.9):
            return
        for m in all_:
            traces.append(trace(t, m, x[:, m], y[:, m]))
            heads.append(f"{t.what} test {m} {kind} {head}")

    opts = [dict(block_size=1),
            dict(block_size=rnd.choice([2, 3, t.n, t.n + 2]), direct_solve_method=rnd.choice(["thomas", "pcr"]),
                 guess_type=rnd.choice(["zero", "previous"]))]
    for o in opts if free else opts[:1]:
        it = t.integrator(all_, adjoint=rnd.random() < 0.5, miter=40, **o)
        one = o["block_size"] == 1
        # strain control, and the stresses found fed back
        ys, err = run(it.solve_strain, t.t, t.x, t.T)
        n += 1
        if err:
            if one and free:
                fails.append(("no solution", f"{t.what} strain control {o}: {err}"))
        else:
            note("strain control", o, t.x, ys)
            back, err = run(it.solve_stress, t.t, ys[..., 0].clone(), t.T)
            n += 1
            if not err:
                note("stress control of its own stresses", o, back[..., 0],
                     torch.cat([ys[..., :1], back[..., 1:]], dim=-1))
                if one and free and plain and all(t.rev):
                    z = torch.cat([t.x[..., None], ys[..., 1:]], dim=-1)
                    n += 1
                    for i in range(z.shape[-1]):
                        sc = t.xscale if i == 0 else t.scale[i]
                        if bool(((back[..., i] - z[..., i]).abs() > 2e-6 * sc).any()):
                            fails.append(("round trip", f"{t.what} state {i} after strain and back {o}"))
            elif one and free and all(t.rev):
                fails.append(("no solution", f"{t.what} stress control {o}: {err}"))
        # stresses of their own, and the strains found fed back
        st = loads(t, rnd)
        zs, err = run(it.solve_stress, t.t, st, t.T)
        n += 1
        if err:
            continue
        note("stress control", o, zs[..., 0], torch.cat([st[..., None], zs[..., 1:]], dim=-1))
        back, err = run(it.solve_strain, t.t, zs[..., 0].clone(), t.T)
        n += 1
        if not err:
            note("strain control of its own strains", o, zs[..., 0], back)
    return fails, n, (traces, heads)


def run(chk):
    recs = [r for r in records(chk, 5001, 1500 if THOROUGH else 70, SEED + 10) if r["steps"] > 0]
    traces, owners, heads = [], [], []

    def take(extra, s):
        traces.extend(extra[0])
        heads.extend(extra[1])
        owners.extend([s] * len(extra[0]))

    chk.replay(scn, recs, "round trip", sample=1, collect=take)
    for s, h, k in zip(owners, heads, validate(chk, traces)):
        chk.comparisons += 1
        if k is not None:
            chk.fail(s, "history", f"{h}: step {k} is not a step of the specification", "trace")
    chk.extra["histories validated"] = len(traces)
    if len(traces) < 4 * len(recs):
        raise MachineryError(f"only {len(traces)} histories to validate")
