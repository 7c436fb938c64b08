"""Replays the behaviours of specs/Laws.tla: one material law at a block of
points, in several batch shapes."""
import torch
import matlib
from pyoptmat import models
from vlib import fmap, flt, lay

NQ = 4
INV = ["YieldLaw", "OddFlow", "Blend", "Undilated", "Undamaged", "DamageGrows", "Saturates"]


def records(chk, focus, lo, count, seed, depth=2, sens=0):
    return chk.spec("Laws", consts=dict(Seed=seed, Cases=range(lo, lo + count), Focus=focus, NQ=NQ, Depth=depth, Sens=sens),
                    invariants=INV)


class Point:
    """The points of a record as tensors of batch shape (NQ, nb)."""

    def __init__(self, r):
        g = lambda k: torch.tensor([[flt(p[k]) for p in row] for row in r["pts"]])
        self.nb, self.nh = r["nb"], r["nh"]
        self.s, self.e, self.ep, self.d, self.T = (g(k) for k in ("s", "e", "ep", "d", "T"))
        self.h = torch.tensor([[fmap(p["h"], 1) for p in row] for row in r["pts"]]).reshape(NQ, self.nb, self.nh)
        self.t = torch.zeros_like(self.s)
        self.rate = torch.tensor([[fmap(o["v"]["rate"], 1) for o in row] for row in r["outs"]])
        n = self.rate.shape[-1]
        if n > 0:
            self.der = torch.tensor([[fmap(o["v"]["der"], 2) for o in row] for row in r["outs"]])
        else:       # nothing evolves: one column, for the strain rate
            self.der = torch.zeros((NQ, self.nb, 0, 1))
        b = lambda k: torch.tensor([[bool(o[k]) for o in row] for row in r["outs"]])
        self.kink, self.skip, self.sw, self.flat = b("kink"), b("skip"), b("sw"), b("flat")
        self.mag = torch.tensor([[flt(o["mag"]) for o in row] for row in r["outs"]])
        self.sens = torch.tensor([[fmap(o["sens"], 1) for o in row] for row in r["outs"]]).reshape(NQ, self.nb, -1)

    def tensors(self):
        return [self.s, self.h, self.ep, self.e, self.d, self.T, self.t]

    def store(self, k):
        """Changes the storage of the points, not their values."""
        for i, n in enumerate(("s", "h", "ep", "e", "d", "T", "t")):
            setattr(self, n, lay(getattr(self, n), k // (1 + i)))


# each layout selects the points and the shape of the batch
def layouts(nb):
    yield "(nblk, nb)", lambda x: x
    yield "(nb,)", lambda x: x[1]
    yield "(1, nb)", lambda x: x[2:3]
    yield "(2, 2, nb)", lambda x: x.reshape((2, 2) + x.shape[1:])


class Cmp:
    def __init__(self, r, clauses):
        self.r, self.clauses, self.fails, self.n = r, clauses, [], 0
        self.what = f"case {r['c']} {r['law']['kind']} nb={r['nb']} nh={r['nh']}"

    def __call__(self, clause, what, got, want, mask=None, scale=None, tol=1e-7, shape=True):
        """mask: points to leave out (batch shape); scale: magnitude of the
        terms the value is made of (batch shape)."""
        if clause not in self.clauses:
            return
        if not torch.is_tensor(got):
            self.fails.append((clause, f"{self.what} {what}: not a tensor: {got!r}"[:300]))
            return
        self.n += want.numel()
        if shape and tuple(got.shape) != tuple(want.shape):
            self.fails.append((clause, f"{self.what} {what}: shape {tuple(got.shape)}, expected {tuple(want.shape)}"))
            return
        if want.numel() == 0:
            return
        got = got.detach().broadcast_to(want.shape)
        ex = (...,) + (None,) * (want.dim() - (mask.dim() if mask is not None else want.dim()))
        sc = scale[(...,) + (None,) * (want.dim() - scale.dim())] if scale is not None else 0.0
        bad = ~((got - want).abs() <= tol * want.abs() + 1e-12 * sc + 1e-11)
        if mask is not None:
            bad = bad & ~mask[ex]
        if bool(bad.any()):
            i = tuple(int(x) for x in torch.nonzero(bad)[0])
            self.fails.append((clause, f"{self.what} {what} at {i}: got {float(got[i])!r}, specification "
                               f"{float(want[i])!r} ({int(bad.sum())} of {got.numel()} differ)"))

    def same(self, what, before, after):
        self.n += 1
        if "altered" in self.clauses and not all(torch.equal(a, b) for a, b in zip(before, after)):
            self.fails.append(("altered", f"{self.what} {what}: an argument was modified"))


def run_record(r, focus, clauses):
    p, c = Point(r), Cmp(r, clauses)
    p.store(r["c"])
    keep = [x.clone() for x in p.tensors()]
    for name, sel in layouts(p.nb):
        FOCUS[focus](r, p, c, name, sel)
        c.same(name, keep, p.tensors())
    return c.fails[:4], max(c.n, 1)


def hardening_law(r, p, c, name, sel, kinematic):
    o = (matlib.kin if kinematic else matlib.iso)(r["law"])
    s, h, ep, T, e, t = (sel(x) for x in (p.s, p.h, p.ep, p.T, p.e, p.t))
    rate, der, kink = sel(p.rate), sel(p.der), sel(p.kink)
    nh = p.nh
    sc = rate.abs().amax(-1) if nh else torch.zeros_like(s)
    c("value", f"{name} nhist", torch.tensor(float(o.nhist)), torch.tensor(float(nh)))
    c("value", f"{name} value", o.value(h), h.sum(-1), scale=h.abs().sum(-1))
    c("rate", f"{name} history_rate", o.history_rate(s, h, t, ep, T, e), rate, scale=sc)
    a = (s, h, t, ep, T, e)
    c("derivative", f"{name} dvalue", o.dvalue(h), torch.ones_like(h))
    c("derivative", f"{name} dhistory_rate_dstress", o.dhistory_rate_dstress(*a), torch.zeros_like(h))
    c("derivative", f"{name} dhistory_rate_dhistory", o.dhistory_rate_dhistory(*a), der[..., :nh],
      scale=der[..., :nh].abs().amax((-1, -2)) if nh else None)
    c("derivative", f"{name} dhistory_rate_derate", o.dhistory_rate_derate(*a), der[..., nh:], mask=kink,
      scale=der[..., nh:].abs().amax((-1, -2)) if nh else None)
    c("derivative", f"{name} dhistory_rate_dtotalrate", o.dhistory_rate_dtotalrate(*a), torch.zeros_like(h))


def flow_law(r, p, c, name, sel):
    o = matlib.flow(r["law"])
    s, h, T, e, t = (sel(x) for x in (p.s, p.h, p.T, p.e, p.t))
    rate, der, kink, skip = sel(p.rate), sel(p.der), sel(p.kink), sel(p.skip)
    nh, mag = p.nh, sel(p.mag)
    a = (s, h, t, T, e)
    fr, dfr = o.flow_rate(*a)
    hr, dhr = o.history_rate(*a)
    c("value", f"{name} nhist", torch.tensor(float(o.nhist)), torch.tensor(float(nh)))
    c("rate", f"{name} flow_rate", fr, rate[..., 0], scale=rate[..., 0].abs() + mag)
    c("rate", f"{name} history_rate", hr, rate[..., 1:], scale=rate.abs().amax(-1) + mag)
    d0 = torch.maximum(der[..., 0, :].abs().amax(-1), mag)
    d1 = torch.maximum(der[..., 1:, :].abs().amax((-1, -2)), mag) if nh else d0
    c("derivative", f"{name} flow_rate[1]", dfr, der[..., 0, nh], mask=skip, scale=d0)
    c("derivative", f"{name} dflow_dhist", o.dflow_dhist(*a), der[..., :1, :nh], mask=skip, scale=d0)
    c("derivative", f"{name} dflow_derate", o.dflow_derate(*a), der[..., 0, nh + 1], mask=skip | kink, scale=d0)
    c("derivative", f"{name} history_rate[1]", dhr, der[..., 1:, :nh], mask=skip, scale=d1)
    c("derivative", f"{name} dhist_dstress", o.dhist_dstress(*a), der[..., 1:, nh], mask=skip, scale=d1)
    c("derivative", f"{name} dhist_derate", o.dhist_derate(*a), der[..., 1:, nh + 1], mask=skip | kink, scale=d1)
    if r["law"]["kind"] == "isokin" and nh > 0:
        c("derivative", f"{name} dflow_diso", o.dflow_diso(*a), der[..., 0, 0], mask=skip, scale=d0)
        if nh > 1:
            c("derivative", f"{name} dflow_dkin", o.dflow_dkin(*a), der[..., 0, 1], mask=skip, scale=d0)


def damage_law(r, p, c, name, sel):
    o = matlib.dam(r["law"])
    s, d, T, e, t = (sel(x) for x in (p.s, p.d, p.T, p.e, p.t))
    rate, der = sel(p.rate), sel(p.der)
    a = (s, d, t, T, e)
    f, df = o.damage_rate(*a)
    sc = der.abs().amax((-1, -2))
    c("rate", f"{name} damage_rate", f, rate[..., 0])
    # (the rate of Larson-Miller damage is regularised at zero stress)
    m = (s.abs() == 0) if r["law"]["kind"] == "larson" else None
    c("derivative", f"{name} damage_rate[1]", df, der[..., 0, 1], scale=sc)
    c("derivative", f"{name} d_damage_rate_d_s", o.d_damage_rate_d_s(*a), der[..., 0, 0], mask=m, scale=sc)
    c("derivative", f"{name} d_damage_rate_d_e", o.d_damage_rate_d_e(*a), torch.zeros_like(e))


def model_law(r, p, c, name, sel):
    o = matlib.model(r["law"])
    damaged = r["law"]["kind"] == "damaged"
    s, h, d, T, e, t = (sel(x) for x in (p.s, p.h, p.d, p.T, p.e, p.t))
    rate, der, kink, skip = sel(p.rate), sel(p.der), sel(p.kink), sel(p.skip)
    parts = [s[..., None], h] + ([d[..., None]] if damaged else [])
    y = torch.cat(parts, dim=-1)
    keep = y.clone()
    n = y.shape[-1]
    # magnitude of the terms of each row: the flow rate may nearly cancel the strain rate
    sc = torch.maximum(rate.abs().amax(-1), der.abs().amax((-1, -2)))
    sc = torch.maximum(sc, sel(p.mag))
    f, J, de, dT = o(t, y, e, T)
    c("rate", f"{name} forward[0]", f, rate, scale=sc)
    # (the effective stress is regularised in one of the damage laws)
    sj = sc * (1.0 + s.abs() / (1.0 - d)) if damaged else sc
    c("derivative", f"{name} forward[1]", J, der[..., :n], mask=skip, scale=sj)
    c("derivative", f"{name} forward[2]", de, der[..., n], mask=skip | kink, scale=sc)
    c("rate", f"{name} nhist", torch.tensor(float(o.nhist)), torch.tensor(float(n)))
    c.same(f"{name} state", [keep], [y])
    if damaged and "rate" in c.clauses:
        # nothing is damaged: the undamaged model
        u = models.InelasticModel(o.E, o.flowrule)
        y0 = y.clone()
        y0[..., -1] = 0.0
        fu, Ju, deu, _ = u(t, y0[..., :-1], e, T)
        fd, Jd, ded, _ = o(t, y0, e, T)
        big = fu.abs().amax(-1)
        c("rate", f"{name} undamaged rates", fd[..., :-1], fu, scale=big, tol=1e-10)
        big = Ju.abs().amax((-1, -2))
        c("rate", f"{name} undamaged Jacobian", Jd[..., :-1, :-1], Ju, scale=big, tol=1e-10)
        c("rate", f"{name} undamaged d/d strain rate", ded[..., :-1], deu, scale=big, tol=1e-10)
    if "stress control" in c.clauses and name in ("(nblk, nb)", "(nb,)"):
        stress_form(r, p, c, name, sel, o, y, rate, der, skip | kink)


def stress_form(r, p, c, name, sel, o, y, rate, der, mask):
    """The stress-controlled form of the model, and the mixed form."""
    outs = r["outs"]
    ok = sel(torch.tensor([[bool(x["ctl"]["ok"]) for x in row] for row in outs]))
    n = y.shape[-1]
    lin = any(x["ctl"].get("lin", False) for row in outs for x in row)
    zero = [[0.0] * n] * n
    jac = sel(torch.tensor([[fmap(x["ctl"]["jac"], 2) if x["ctl"]["ok"] else zero for x in row] for row in outs]))
    s, e, T = sel(p.s), sel(p.e), sel(p.T)
    if bool((mask & ok).all()) or not bool(ok.any()):
        return
    t = sel(p.t)
    x = y.clone()
    x[..., 0] = 0.375         # the strain, which the rates do not depend on
    f = models.StressBasedModel(o, lambda tt: rate[..., 0], lambda tt: s, lambda tt: T)
    yd, J = f(t, x.clone())
    big = rate.abs().amax(-1)
    off = ~ok | mask
    if not lin:
        # another strain rate may give the same stress rate, and the equation
        # need not be solvable from every start: where the strain rate is not
        # that of the spec (to near round-off), there is nothing to compare
        other = ~((yd[..., 0] - e).abs() <= 1e-8 * e.abs() + 1e-11)
        off = off | other
    want = rate.clone()
    want[..., 0] = e
    amp = 1.0 + s.abs() / (1.0 - sel(p.d))
    big = torch.maximum(big, sel(p.mag))
    sc = 1e3 * amp * torch.maximum(big, jac.abs().amax((-1, -2)))
    c("stress control", f"{name} stress form rates", yd, want, mask=off, scale=sc, tol=1e-5)
    c("stress control", f"{name} stress form Jacobian", J, jac, mask=off, scale=sc, tol=1e-5)
    # mixed: members alternate between the two forms
    nb = r["nb"]
    for k in (0, 1):
        control = torch.tensor([(b + k) % 2 for b in range(nb)])
        is_s = control == 1
        base = torch.where(is_s, s, 0.125 * torch.ones_like(s))
        dr = torch.where(is_s, rate[..., 0], e)
        z = torch.where(is_s[:, None], x, y)
        g = models.BothBasedModel(o, lambda tt: dr, lambda tt: base, lambda tt: T, control)
        yb, Jb = g(t, z.clone())
        wr = torch.where(is_s[:, None], want, rate)
        wj = torch.where(is_s[:, None, None], jac, der[..., :n])
        om = torch.where(is_s, off, mask)
        if not lin:
            om = om | (is_s & ~((yb[..., 0] - e).abs() <= 1e-8 * e.abs() + 1e-11))
        sk = torch.maximum(sc, 1e3 * amp * der[..., :n].abs().amax((-1, -2)))
        c("stress control", f"{name} mixed form rates, control {control.tolist()}", yb, wr, mask=om, scale=sk, tol=1e-5)
        c("stress control", f"{name} mixed form Jacobian, control {control.tolist()}", Jb, wj, mask=om, scale=sk, tol=1e-5)


def rate_of(law, focus, p, sel):
    """The rates of a law, as the specification lists them."""
    s, h, ep, e, d, T, t = (sel(x) for x in p.tensors())
    if focus in ("iso", "kin"):
        return getattr(matlib, focus)(law).history_rate(s, h, t, ep, T, e)
    if focus == "flow":
        o = matlib.flow(law)
        return torch.cat([o.flow_rate(s, h, t, T, e)[0][..., None], o.history_rate(s, h, t, T, e)[0]], dim=-1)
    if focus == "damage":
        return matlib.dam(law).damage_rate(s, d, t, T, e)[0][..., None]
    y = [s[..., None], h] + ([d[..., None]] if law["kind"] == "damaged" else [])
    return matlib.model(law)(t, torch.cat(y, dim=-1), e, T)[0]


def along(leaves):
    """The direction in which the coefficients move in the specification."""
    return [0.125 + 0.25 * v.detach() for v in leaves]


def run_sensitivity(r, focus):
    """Derivatives of the rates with respect to every coefficient of the law:
    the reverse-mode derivative of each rate, along the direction of the
    specification."""
    p, c = Point(r), Cmp(r, {"sensitivity"})
    for name, sel in list(layouts(p.nb))[:2]:
        sens, skip, mag = (sel(x) for x in (p.sens, p.skip | p.sw | p.flat, p.mag))
        matlib.LEAVES = leaves = []
        try:
            rate = rate_of(r["law"], focus, p, sel)
        finally:
            matlib.LEAVES = None
        got = torch.zeros_like(sens)
        if rate.requires_grad:
            w = torch.zeros_like(rate, requires_grad=True)
            g = torch.autograd.grad(rate, leaves, w, create_graph=True, allow_unused=True)
            dot = sum((a * v).sum() for a, v in zip(g, along(leaves)) if a is not None)
            if torch.is_tensor(dot) and dot.requires_grad:
                got = torch.autograd.grad(dot, w, retain_graph=True)[0].clone()
            # (second derivatives may be undefined where the first are not)
            for i in torch.nonzero(torch.isnan(got) & ~skip[..., None]).tolist():
                g = torch.autograd.grad(rate[tuple(i)], leaves, retain_graph=True, allow_unused=True)
                got[tuple(i)] = sum((a * v).sum() for a, v in zip(g, along(leaves)) if a is not None)
            # once more for all together, as an ordinary backward pass
            live = (~skip)[..., None].expand(rate.shape).to(rate.dtype)
            g = torch.autograd.grad(rate, leaves, live, retain_graph=True, allow_unused=True)
            tot = sum((a * v).sum() for a, v in zip(g, along(leaves)) if a is not None)
            every = torch.autograd.grad(rate.sum(), leaves, retain_graph=True, allow_unused=True)
            bad = torch.stack([(~torch.isfinite(a)).any() for a in every if a is not None]).sum()
            c("sensitivity", f"{name} finite derivatives, everywhere", bad.double(), torch.tensor(0.0))
            c("sensitivity", f"{name} one backward pass", torch.as_tensor(tot), (sens * live).sum(),
              scale=(sens * live).abs().sum() + mag.sum(), tol=1e-8)
        c("sensitivity", f"{name} coefficients", got, sens, mask=skip, scale=sens.abs().amax(-1) + mag if sens.numel() else None)
    return c.fails[:4], max(c.n, 1)


FOCUS = {
    "iso": lambda *a: hardening_law(*a, False),
    "kin": lambda *a: hardening_law(*a, True),
    "flow": flow_law,
    "damage": damage_law,
    "model": model_law,
}
