"""Replays the behaviours of specs/Simulation.tla through ModelIntegrator."""
import json
import os
import signal
import warnings
import torch
import matlib
from pyoptmat import models
from vlib import fmap, close, enc, scratch, lay, MachineryError

STEPS = 6
INV = ["Related", "Frozen", "NoHealing", "Relaxation"]
TOL = 2e-6


def records(chk, lo, count, seed, depth=2, steps=STEPS):
    return chk.spec("Simulation", consts=dict(Seed=seed, Cases=range(lo, lo + count), Depth=depth, Steps=steps),
                    invariants=INV)


class Tests:
    """The tests of a record as tensors (time, member[, state])."""

    def __init__(self, r):
        self.r, self.nb, self.n = r, r["nb"], r["steps"]
        g = lambda k: torch.tensor([fmap(m[k], 1)[:self.n + 1] for m in r["load"]]).T.contiguous()
        self.t, self.x, self.T = (lay(g(k), r["c"] // i) for k, i in (("t", 1), ("x", 2), ("T", 3)))
        self.y = torch.tensor(fmap(r["y"], 3))
        self.rev = [v >= self.n for v in r["rev"]]
        self.what = f"case {r['c']} {r['law']['kind']} {r['law']['flow']['kind']} nb={self.nb} steps={self.n}"
        self.texact = list(zip(*[m["t"][:self.n + 1] for m in r["load"]]))
        self.Texact = list(zip(*[m["T"][:self.n + 1] for m in r["load"]]))
        # states of a stress-controlled test: the strain takes the place of the stress
        self.z = self.y.clone()
        self.z[..., 0] = self.x
        self.scale = [max(0.03, float(self.y[..., i].abs().max())) for i in range(self.y.shape[-1])]
        self.xscale = max(1.0 / 32, float(self.x.abs().max()))

    def integrator(self, members, adjoint=True, **kw):
        m = matlib.model(matlib.select(self.r["law"], members))
        kw.setdefault("rtol", 1e-14)
        kw.setdefault("atol", 1e-9)
        return models.ModelIntegrator(m, use_adjoint=adjoint, throw_on_fail=True, **kw)

    def state_error(self, got, members, control):
        """None, or how the returned states differ from the specification's."""
        want = torch.stack([(self.z if s else self.y)[:, m] for m, s in zip(members, control)], dim=1)
        if tuple(got.shape) != tuple(want.shape):
            return f"shape {tuple(got.shape)}, expected {tuple(want.shape)}"
        for i in range(want.shape[-1]):
            for b, s in enumerate(control):
                sc = self.xscale if (i == 0 and s) else self.scale[i]
                m = close(got[:, b, i], want[:, b, i].tolist(), TOL, sc)
                if m:
                    return f"member {b} (test {members[b]}, {'stress' if s else 'strain'} control) state {i}, time {m}"
        return None


def trace(t, m, x, y, law=None, zx=None, zy=None):
    """The history of test m as the specification reads it: strains x and
    states y (time[, state]), and their tangents."""
    z = {} if zx is None else {"zx": enc(zx.tolist()), "zy": enc(zy.tolist())}
    return {**z, "law": law or t.r["law"], "m": m + 1, "t": [l[m] for l in t.texact], "T": [l[m] for l in t.Texact],
            "x": enc(x.tolist()), "y": enc(y.tolist())}


def validate(chk, traces, spec="TraceSim"):
    """Checks histories against a specification; returns the index of the
    first step rejected, or None, for each.  spec="TraceTangent": instead, for
    each the verdict."""
    if not traces:
        return []
    f = os.path.join(scratch(), "traces.ndjson")
    with open(f, "w") as o:
        for t in traces:
            o.write(json.dumps(t) + "\n")
    recs = chk.spec(spec, consts=dict(TraceFile=f))
    if len(recs) != len(traces):
        raise MachineryError(f"{len(recs)} verdicts on {len(traces)} traces")
    out = [None] * len(traces)
    if spec == "TraceTangent":
        for r in recs:
            out[r["i"] - 1] = r
        return out
    for r in recs:
        if not r["ok"]:
            out[r["i"] - 1] = r["k"]
    return out


def integrator_of(t, register, adjoint, **kw):
    """An integrator for all the tests, with the differentiable coefficients
    of its material; register: as parameters of the modules."""
    leaves = []
    matlib.LEAVES, matlib.HANDED, matlib.REGISTER = leaves, [], register
    try:
        m = matlib.model(t.r["law"])
    finally:
        matlib.LEAVES, matlib.REGISTER = None, False
    own = list(m.parameters())
    if adjoint or kw.pop("always", False):
        kw["extra_params"] = [v for v in matlib.HANDED if not any(v is p for p in own)]
    return models.ModelIntegrator(m, use_adjoint=adjoint, throw_on_fail=True, rtol=1e-14, atol=1e-9, miter=40, **kw), leaves


def directional(y, leaves, w):
    """The derivative of sum(w * y) along the direction in which every
    coefficient of the material moves."""
    g = torch.autograd.grad(y, leaves, w, retain_graph=True, allow_unused=True)
    return sum(float((a * (0.125 + 0.25 * v.detach())).sum()) for a, v in zip(g, leaves) if a is not None)


def tangents(y, leaves):
    """The derivative of each entry of y along that direction, for results
    that can be differentiated twice."""
    w = torch.zeros_like(y, requires_grad=True)
    g = torch.autograd.grad(y, leaves, w, create_graph=True, allow_unused=True)
    dot = sum((a * (0.125 + 0.25 * v.detach())).sum() for a, v in zip(g, leaves) if a is not None)
    z = torch.autograd.grad(dot, w, retain_graph=True)[0].detach().clone()
    # (second derivatives may be undefined where the first are not)
    for i in torch.nonzero(~torch.isfinite(z)).tolist():
        one = torch.zeros_like(y)
        one[tuple(i)] = 1.0
        z[tuple(i)] = directional(y, leaves, one)
    return z


class Slow(Exception):
    pass


def _slow(*_):
    raise Slow()


def within(seconds, f, *a):
    """f(*a), or (None, message) when it takes too long."""
    old = signal.signal(signal.SIGALRM, _slow)
    left = signal.alarm(seconds)
    try:
        return f(*a)
    except Slow:
        return None, "too slow"
    finally:
        signal.signal(signal.SIGALRM, old)
        signal.alarm(max(1, left - seconds) if left else 0)


def failed(f, *a, quiet=False):
    """(result, None) or (None, message) if the solve did not converge.
    quiet: a warning is no failure (the stress form of a strain-controlled
    member may warn, and is not used)."""
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            res = f(*a)
        bad = [str(x.message) for x in w if "not succeed" in str(x.message)]
        return (None, bad[0]) if bad and not quiet else (res, None)
    except RuntimeError as e:
        if "converge" in str(e) or "succeed" in str(e) or "mplicit" in str(e):
            return None, str(e)
        raise
