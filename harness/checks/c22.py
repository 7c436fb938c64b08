"""C22: gradients with respect to the coefficients of materials: of the rates
(specs/Laws.tla), and of simulated tests, whose derivatives are validated step
by step against specs/TraceTangent.tla."""
import random
import torch
import lawlib
import matlib
from simlib import records, Tests, failed, trace, validate, integrator_of, tangents, directional
from vlib import THOROUGH, SEED, MachineryError, fmap


def dependence(s):
    """A temperature-dependent parameter: derivatives of its values with respect
    to its coefficients."""
    p, nb = s["par"], s["nb"]
    T, want = torch.tensor(fmap(s["T"], 2)), torch.tensor(fmap(s["vals"], 2))
    sens, live = torch.tensor(fmap(s["sens"], 2)), ~torch.tensor(s["lim"])
    big = torch.maximum(sens.abs().max(), want.abs().max()).clamp(min=1.0)
    fails, n = [], 0
    for name, sel in [("(nblk, nb)", lambda x: x), ("(nb,)", lambda x: x[1]), ("(3, 2, nb)", lambda x: x.reshape(3, -1, nb))]:
        matlib.LEAVES = leaves = []
        try:
            v = matlib.tp(p)(sel(T)).broadcast_to(sel(T).shape)
        finally:
            matlib.LEAVES = None
        exp, ok = sel(sens), sel(live)
        got = torch.zeros_like(exp)
        if v.requires_grad:
            w = torch.zeros_like(v, requires_grad=True)
            g = torch.autograd.grad(v, leaves, w, create_graph=True, allow_unused=True)
            dot = sum((a * d).sum() for a, d in zip(g, lawlib.along(leaves)) if a is not None)
            if torch.is_tensor(dot) and dot.requires_grad:
                got = torch.autograd.grad(dot, w, retain_graph=True)[0]
            one = sum((a * d).sum() for a, d in zip(torch.autograd.grad(v, leaves, ok.to(v.dtype), allow_unused=True),
                                                    lawlib.along(leaves)) if a is not None)
            n += 1
            if not abs(float(one) - float((exp * ok).sum())) <= 1e-8 * float(big) * exp.numel():
                fails.append(("sensitivity", f"case {s['c']} {p['kind']} {name}: backward pass {float(one)}, expected {float((exp * ok).sum())}"))
        bad = ok & ~((got - exp).abs() <= 1e-8 * exp.abs() + 1e-11 * big)
        n += exp.numel()
        if bool(bad.any()):
            i = tuple(int(x) for x in torch.nonzero(bad)[0])
            fails.append(("sensitivity", f"case {s['c']} {p['kind']} outer={p['outer']} nb={nb} {name} at {i}: derivative "
                          f"{float(got[i])!r}, specification {float(exp[i])!r} ({int(bad.sum())} of {bad.numel()} differ)"))
    return fails[:3], n


def material(r):
    """A material test in strain or stress control (or both in a batch) with
    its derivative along a direction of all its coefficients."""
    t = Tests(r)
    rnd = random.Random(11 * r["c"])
    free = r["free"]
    members = list(range(t.nb))
    mode = rnd.choice(["strain", "stress", "both"])
    control = torch.tensor([dict(strain=0, stress=1, both=(b + r["c"]) % 2)[mode] for b in members])
    # only stresses that lead back to the strains
    control = torch.tensor([int(s and r["rev"][b] >= t.n) for b, s in zip(members, control.tolist())])
    drive = torch.where(control[None] == 1, t.y[..., 0], t.x)
    fails, n, traces, heads = [], 0, [], []
    z = None
    o = dict(block_size=rnd.randrange(1, t.n + 2), guess_type=rnd.choice(["zero", "previous"]),
             direct_solve_method=rnd.choice(["thomas", "pcr"]))
    for adjoint in (False, True):
        register = rnd.random() < 0.5
        what = f"{t.what} control {control.tolist()} adjoint={adjoint} parameters={register} {o}"
        it, leaves = integrator_of(t, register, adjoint, **o)
        call = lambda: it.solve_both(t.t, t.T, drive, control)
        if mode == "strain" and rnd.random() < 0.5:
            call = lambda: it.solve_strain(t.t, t.x, t.T)
        res, err = failed(call, quiet=not bool(control.all()))
        if err:
            continue
        n += 1
        y = res.detach()
        want = torch.where((control == 1)[None, :, None], t.z, t.y)
        if not bool(((y - want).abs() <= 1e-5 * torch.tensor([max(a, t.xscale) for a in t.scale])).all()):
            continue            # (other properties)
        if not adjoint:
            z = tangents(res, leaves)
            if not bool(torch.isfinite(z).all()):
                fails.append(("not finite", f"{what}: derivatives {z.tolist()}"[:600]))
                break
            for m in members:
                s = bool(control[m])
                yy, zz = y[:, m].clone(), z[:, m].clone()
                x, zx = (yy[:, 0].clone(), zz[:, 0].clone()) if s else (t.x[:, m], torch.zeros_like(t.x[:, m]))
                if s:
                    yy[:, 0], zz[:, 0] = t.y[:, m, 0], 0.0
                traces.append(trace(t, m, x, yy, zx=zx, zy=zz))
                heads.append(f"{what} test {m}")
        # backward passes of both integrations give the same derivatives
        if z is None:
            continue
        size = torch.maximum(z.abs().amax(dim=(0, 1)), 1e-6 * torch.tensor([max(a, t.xscale) for a in t.scale]))
        g = torch.Generator().manual_seed(r["c"])
        for k in range(4):
            w = (torch.rand(z.shape, generator=g) - 0.5) / size
            if k > 0:           # of the end, of one test, of one state
                w *= [t.n == torch.arange(t.n + 1)[:, None, None], (r["c"] % t.nb == torch.arange(t.nb))[None, :, None],
                      (r["c"] % z.shape[-1] == torch.arange(z.shape[-1]))[None, None]][k - 1]
            got, exp = directional(res, leaves, w), float((w * z).sum())
            n += 1
            if not abs(got - exp) <= (1e-6 if free else 1e-4) * max(float((w * z).abs().sum()), 1e-3):
                fails.append(("backward", f"{what}: derivative {got} of a weighted sum, expected {exp}"))
    return fails[:3], n, (traces, heads)


def run(chk):
    # the rates
    k = 10 if THOROUGH else 1
    for i, (focus, n) in enumerate([("iso", 80), ("kin", 120), ("flow", 250), ("damage", 80), ("model", 350)]):
        recs = lawlib.records(chk, focus, 20000 * i + 1, n * k, SEED + 5, sens=1)
        chk.replay(lambda s, f=focus: lawlib.run_sensitivity(s, f), recs, "coefficients of " + focus, sample=1)
    # the temperature dependences
    recs = chk.spec("Temperature", consts=dict(Seed=SEED + 3, Cases=range(9001, 9001 + (6000 if THOROUGH else 360)), NQ=6, Sens=1),
                    invariants=["TableInHull", "Clipped", "TablesInRange"])
    chk.replay(dependence, recs, "temperature dependence", sample=1)
    # and the trajectories they lead to
    recs = [r for r in records(chk, 7001, 600 if THOROUGH else 60, SEED + 15, steps=4) if r["steps"] > 0]
    traces, owners, heads = [], [], []

    def take(extra, s):
        traces.extend(extra[0])
        heads.extend(extra[1])
        owners.extend([s] * len(extra[0]))

    chk.replay(material, recs, "material test", sample=1, collect=take)
    smooth = 0
    for s, h, v in zip(owners, heads, validate(chk, traces, "TraceTangent")):
        chk.comparisons += 1
        smooth += v["smooth"]
        if not v["ok"]:
            chk.fail(s, "tangent", f"{h}: the derivative of step {v['k']} is not that of the step relation", "material test")
    chk.extra["tangent steps judged"] = smooth
    if smooth < 5 * len(recs):
        raise MachineryError(f"only {smooth} steps with derivatives")
