"""C06: nonlinear solvers (specs/Newton.tla, specs/Solvable.tla)."""
import math
import warnings
import torch
from pyoptmat import solvers, chunktime, ode
from vlib import THOROUGH, SEED, flt

ATOLE, RTOLE = -10, -4
ZERO, INF, NAN, LOST = 1000, 2000, 3000, 99


def size(e):
    return 0.0 if e == ZERO else math.inf if e == INF else math.nan if e == NAN else 2.0 ** e


class Path:
    """The environment of Newton.tla as a residual function of position.

    Member m at position x (along the first unit vector) has residual size
    res[m][x] and a Jacobian whose full Newton step is +1; between integer
    positions (line searches) the size is that of the position below."""

    def __init__(self, res, dim, shape, turn=False):
        self.res, self.dim, self.shape = res, dim, shape
        self.n, self.log = 0, []
        # residual space of each member, turned and sheared (without rounding)
        q = torch.eye(dim).repeat(len(res), 1, 1)
        if turn and dim == 2:
            q = torch.tensor([[[0.0, -1.0], [1.0, 0.5]], [[0.0, 2.0], [-1.0, 0.25]]])[torch.arange(len(res)) % 2]
        self.q = q

    def sizes(self, x):
        p = x.reshape(-1, self.dim)[:, 0]
        out = []
        for m, row in enumerate(self.res):
            q = float(p[m])
            if not math.isfinite(q):
                out.append(math.nan)
            else:
                k = max(0, math.floor(q + 1e-6))
                out.append(size(row[min(k, len(row) - 1)]))
        return out

    def __call__(self, x):
        s = self.sizes(x.detach())
        self.n += 1
        self.log.append(s)
        r = torch.zeros(len(s), self.dim)
        for m, v in enumerate(s):
            i = int(self.q[m, :, 0].abs().argmax())
            r[m, i] = v * float(self.q[m, i, 0])
        d = torch.tensor([-v if (math.isfinite(v) and v != 0) else -1.0 for v in s])
        J = self.q * d[:, None, None]
        return r.reshape(self.shape + (self.dim,)), J.reshape(self.shape + (self.dim, self.dim))


class DiagContext:
    def solve(self, J, R):
        return R / torch.diagonal(J, dim1=-2, dim2=-1)


class FullContext:
    def solve(self, J, R):
        return torch.linalg.solve(J, R.unsqueeze(-1)).squeeze(-1)


class PathOde(torch.nn.Module):
    """An equation whose one implicit step from 0 to 1 has the residuals of a Path."""

    def __init__(self, path):
        super().__init__()
        self.path = path

    def forward(self, t, y):
        R, J = self.path(y[-1])
        z = torch.zeros_like(J)
        return torch.stack([torch.zeros_like(R), y[-1] - R]), torch.stack([z, torch.eye(y.shape[-1]) - J])


def acceptable(s, s0):
    fin = all(math.isfinite(v) for v in s)
    if fin and all(v <= 2.0 ** ATOLE for v in s):
        return True
    return fin and all(math.isfinite(v) for v in s0) and all(
        v <= 2.0 ** RTOLE * v0 for v, v0 in zip(s, s0))


def call(name, fn, x0, miter, dim, turn):
    kw = dict(rtol=2.0 ** RTOLE, atol=2.0 ** ATOLE, miter=miter)
    J = None
    if name == "chunk":
        x = chunktime.newton_raphson_chunk(fn, x0, FullContext() if turn else DiagContext(), **kw)
    elif name == "chunk-throw":
        x = chunktime.newton_raphson_chunk(fn, x0, FullContext() if turn else DiagContext(), throw_on_fail=True, **kw)
    elif name.startswith("odeint"):
        entry, lin, throw = name.split("/")
        t = torch.tensor([[0.0], [1.0]]).repeat(1, x0.shape[0])
        x = getattr(ode, entry)(PathOde(fn), x0, t, method="backward-euler", block_size=2, linear_solve_method=lin,
                                throw_on_fail=throw == "throw", **kw)[-1]
    elif name == "reuse":
        x, J = solvers.PreconditionerReuseNonlinearSolver().solve(fn, x0, **kw)
    else:
        f, lin = name.split("/")
        x, J = getattr(solvers, f)(fn, x0, linsolver=lin, **kw)
    return x, J


def scn(s):
    fails, n = [], 0
    M = len(s["res"])
    runs = []
    for dim in (1, 2):
        for name in ("newton_raphson/lu", "newton_raphson/diag", "newton_raphson_bt/lu", "newton_raphson_bt/diag", "chunk",
                     "chunk-throw", "reuse"):
            runs.append((name, dim, (M,), False))
    runs += [(k, 2, (M,), True) for k in ("newton_raphson/lu", "newton_raphson_bt/lu", "chunk", "chunk-throw", "reuse")]
    if M == 2:
        runs += [("chunk", 2, (2, 1), True), ("chunk-throw", 1, (1, 2), False)]
    k = s["c"] + sum(map(sum, s["res"])) + s["miter"]
    # several batch dimensions
    for i, f in enumerate(("newton_raphson", "newton_raphson_bt")):
        shp = ((1, M), (M, 1), (1, M, 1))[(k + i) % 3]
        runs += [(f"{f}/lu", 2, shp, True), (f"{f}/{('lu', 'diag')[k // 3 % 2]}", 1 + k % 2, shp, False)]
    entry, lin = ("odeint", "odeint_adjoint")[k % 2], ("direct", "dense")[k // 2 % 2]
    runs += [(f"{entry}/{lin}/{q}", 1 + k // 4 % 2, (M,), bool(k // 8 % 2)) for q in ("throw", "warn")]
    for name, dim, shp, turn in runs:
        throws = name.endswith("throw")
        fn = Path(s["res"], dim, shp, turn)
        x0 = torch.zeros(shp + (dim,))
        what = f"{name} dim={dim} turned={turn} batch={shp} res={s['res']} miter={s['miter']}"
        raised = None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                x, J = call(name, fn, x0, s["miter"], dim, turn)
            except RuntimeError as e:
                # a non-finite system may also stop the least-squares solve
                if not (throws and "did not succeed" in str(e)) and not (name == "reuse" and s["lost"]):
                    raise
                raised = e
        warned = any("did not succeed" in str(i.message) for i in w)
        n += 2
        if bool((x0 != 0).any()):
            fails.append(("start", f"{what}: the starting point was overwritten"))
        lim = s["miter"] + 1 if "bt" not in name else 1 + s["miter"] * 8
        if fn.n > lim:
            fails.append(("limit", f"{what}: {fn.n} residual evaluations, {s['miter']} iterations allowed"))
        if raised is None:
            final, first = fn.sizes(x), fn.log[0]
            n += 1
            if not warned and not acceptable(final, first):
                fails.append(("silent", f"{what}: returned without warning at residuals {final} (initially {first})"))
            if warned and acceptable(final, first):
                fails.append(("spurious", f"{what}: warned at residuals {final} (initially {first})"))
            if throws and warned:
                fails.append(("throw", f"{what}: warned although asked to raise"))
            if J is not None and "reuse" != name:
                n += 1
                if not torch.equal(J, fn(x)[1]):
                    fails.append(("jacobian", f"{what}: the Jacobian is not that of the returned point"))
        if "bt" not in name:
            n += 1
            good = raised is None and not warned
            if good != (s["status"] == "ok"):
                fails.append(("verdict", f"{what}: {'returned silently' if good else 'reported failure'}, "
                              f"specification: {s['status']} after {s['iters']} iterations"))
            elif good:
                got = [float(v) for v in x.reshape(M, dim)[:, 0]]
                if any(abs(g - p) > 1e-5 for g, p in zip(got, s["pos"])):
                    fails.append(("point", f"{what}: returned {got}, specification {s['pos']}"))
        if len(fails) > 3:
            break
    return fails[:3], n


class Quadratic(torch.nn.Module):
    def __init__(self, a, e):
        super().__init__()
        self.a, self.e = torch.nn.Parameter(a), e

    def forward(self, t, y):
        return (self.a * y ** 2 + self.e[:, None], (2.0 * self.a * y).unsqueeze(-1))


def scn_ode(s):
    fails, n = [], 0
    f = Quadratic(torch.tensor(flt(s["a"])), torch.tensor([flt(v) for v in s["e"]]))
    h = torch.tensor([flt(v) for v in s["h"]])
    t = torch.arange(s["nt"] + 1)[:, None] * h
    y0 = torch.tensor([flt(v) for v in s["x0"]])[:, None]
    for entry in ("odeint", "odeint_adjoint"):
        for blk in (1, 2, 5):
            for lin in ("direct", "dense"):
                for throw in (False, True):
                    n += 1
                    raised = False
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        try:
                            y = getattr(ode, entry)(f, y0, t, method="backward-euler", block_size=blk,
                                                    linear_solve_method=lin, miter=20, throw_on_fail=throw)
                        except RuntimeError as e:
                            raised = "did not succeed" in str(e)
                            if not raised:
                                raise
                    warned = any("did not succeed" in str(i.message) for i in w)
                    what = f"case {s['c']} {entry} block={blk} {lin} throw={throw}"
                    if not raised:
                        r = y[1:] - y[:-1] - h[:, None] * f(t[1:], y[1:])[0]
                        solved = bool((r.abs() < 1e-4).all())      # NaN counts as unsolved
                        if not solved and not warned:
                            fails.append(("ode-silent", f"{what}: residual {float(r.abs().max())} without warning"))
                        if throw and warned:
                            fails.append(("ode-throw", f"{what}: warned although asked to raise"))
                        if s["verdict"] == "must-report" and not warned:
                            fails.append(("ode-silent", f"{what}: a step without solution was reported solved"))
    return fails[:3], n


def run(chk):
    lv = {ATOLE - 1, ATOLE, 0, RTOLE, RTOLE + 1, ZERO, INF, NAN}
    base = dict(AtolE=ATOLE, RtolE=RTOLE, Seed=SEED, Cases={0}, MaxM=3, MaxP=6)
    kw = dict(invariants=["SilentMeansSolved", "NonFiniteFails", "WithinLimit", "FailsOnlyUnsolved"],
              properties=["Terminates"])
    r1 = chk.spec("Newton", consts=dict(base, Mode="all", M=1, P=3 if THOROUGH else 2, Levels=lv, Miters={0, 1, 2, 3}), **kw)
    r2 = chk.spec("Newton", consts=dict(base, Mode="all", M=2, P=1,
                                        Levels=lv if THOROUGH else lv - {ATOLE, NAN}, Miters={0, 1, 2}), **kw)
    r3 = chk.spec("Newton", consts=dict(base, Mode="draw", M=1, P=1, Levels={0}, Miters={0, 1, 3, 5, 8},
                                        Cases=range(1, 3000 if THOROUGH else 301)), **kw)
    for g, r in (("one", r1), ("two", r2), ("drawn", r3)):
        chk.replay(scn, r, g, sample=1)
    r4 = chk.spec("Solvable", consts=dict(Seed=SEED, Cases=range(1, 600 if THOROUGH else 61)), invariants=["NoRoot"])
    chk.replay(scn_ode, r4, "ode", sample=1)
