"""C21: Jacobian wrappers and tensor helpers (specs/Jacobians.tla)."""
import itertools
import random
import torch
from pyoptmat import utility, neuralode
from vlib import THOROUGH, SEED, close, fmap, flt, lay

TOL = 1e-11
FD = 5e-5


class Fun:
    """The function of a scenario in torch; calls are counted."""

    def __init__(self, cfg):
        self.m = cfg["m"]
        self.terms = [[(flt(r["k"]), r["f"], r["e"], fmap(r["w"], 1)) for r in row] for row in cfg["terms"]]

    def __call__(self, *args):
        x = torch.cat(args, -1)
        out = []
        for row in self.terms:
            s = torch.zeros_like(x[..., 0])
            for k, f, e, w in row:
                u = k * torch.ones_like(x[..., 0])
                for v, p in enumerate(e):
                    if p:
                        u = u * x[..., v] ** p
                lin = sum(w[v] * x[..., v] for v in range(len(e)))
                u = u * [1.0, torch.tanh(lin), torch.exp(lin), lin * lin][f]
                s = s + u
            out.append(s)
        return torch.stack(out, -1)


def scn(r):
    fails, n = [], 0
    cfg, h = r["cfg"], r["help"]
    rnd = random.Random(r["c"])
    na, sizes, m, batch = cfg["na"], cfg["sizes"], cfg["m"], list(cfg["batch"])
    xs = [lay(torch.tensor([fmap(x[a], 1) for x in cfg["x"]]).reshape(*batch, sizes[a]), r["c"] + a) for a in range(na)]
    val = torch.tensor(fmap(r["val"], 2)).reshape(*batch, m)
    jac = [torch.tensor([fmap(j[a], 2) for j in r["jac"]]).reshape(*batch, m, sizes[a]) for a in range(na)]
    f = Fun(cfg)
    tag = f"case {r['c']} batch {batch} arguments {sizes} values {m}"

    def cmp(clause, got, want, tol=TOL, scale=None):
        nonlocal n
        n += 1
        msg = close(got, want.tolist() if want.numel() else want, tol, scale)
        if msg:
            fails.append((clause, f"{tag}: {msg}"))

    if tuple(f(*xs).shape) != tuple(val.shape):
        raise AssertionError("stand-in function")
    cmp("stand-in", f(*xs), val)
    keep = [x.clone() for x in xs]

    # wrapped functions: which arguments, and when that is said
    picks = [None] + list(range(na)) + [tuple(p) for k in (1, 2, 3, na) for p in itertools.permutations(range(na), k)]
    for pick in picks if THOROUGH else [None] + rnd.sample(picks, min(3, len(picks))):
        for when in ("decorated", "called"):
            if when == "decorated":
                got, J = utility.jacobianize(argnums=pick)(f.__call__)(*xs)
            else:
                got, J = utility.jacobianize(argnums=0)(f.__call__)(*xs, argnums=pick)
            cmp(f"values argnums={pick} {when}", got, val)
            sel = range(na) if pick is None else [pick] if isinstance(pick, int) else pick
            Js = [J] if isinstance(pick, int) else J
            if len(Js) != len(sel):
                fails.append(("count", f"{tag} argnums={pick}: {len(Js)} Jacobians"))
                continue
            for a, j in zip(sel, Js):
                cmp(f"jacobian of argument {a}, argnums={pick} {when}", j, jac[a])
    # a wrapped function can be used again, with other batch dimensions
    w = utility.jacobianize()(f.__call__)
    for _ in range(2):
        got, J = w(*xs)
        cmp("repeated", got, val)
        flat = [x.reshape(-1, x.shape[-1]) for x in xs]
        b = rnd.randrange(flat[0].shape[0])
        got, J = w(*[x[b] for x in flat])
        cmp("single member", got, val.reshape(-1, m)[b])
        for a in range(na):
            cmp("single member jacobian", J[a], jac[a].reshape(-1, m, sizes[a])[b])
        got, J = w(*[x.unsqueeze(0) for x in xs])
        for a in range(na):
            cmp("one more dimension", J[a], jac[a].unsqueeze(0))

    # arguments in other shapes: each member's arrays or numbers
    ash = [list(s) for s in cfg["ashape"]]
    flatten = lambda x, s: x.reshape(x.shape[:x.dim() - len(s)] + (-1,))
    f2 = lambda *args: f(*[flatten(x, s) for x, s in zip(args, ash)])
    x2 = [x.reshape(batch + s) for x, s in zip(xs, ash)]
    for pick in (None, rnd.randrange(na)):
        got, J = utility.jacobianize(argnums=pick)(f2)(*x2)
        cmp(f"values, arguments of shape {ash}", got, val)
        for a, j in zip(range(na) if pick is None else [pick], J if pick is None else [J]):
            cmp(f"jacobian of argument {a}, arguments of shape {ash}", j, jac[a].reshape(batch + [m] + ash[a]))

    # neural ODE
    if na == 2 and m == sizes[0]:
        t = torch.tensor(fmap(cfg["t"], 1)).reshape(batch)
        p = torch.tensor(fmap(cfg["p"][:sizes[1]], 1))
        q = torch.tensor(fmap(cfg["q"][:sizes[1]], 1))
        ode = neuralode.NeuralODE(f, lambda t: p + q * t.unsqueeze(-1))
        for _ in range(2):
            v, J = ode(t, xs[0])
            cmp("neural ODE rate", v, val)
            cmp("neural ODE jacobian", J, jac[0])
        nb = len(t.flatten())
        if nb:
            b = rnd.randrange(nb)
            v, J = ode(t.reshape(-1)[b:b + 1], xs[0].reshape(-1, m)[b:b + 1])
            cmp("neural ODE, one member", v, val.reshape(-1, m)[b:b + 1])
            cmp("neural ODE jacobian, one member", J, jac[0].reshape(-1, m, m)[b:b + 1])

    # numerical differentiation in the first argument
    xsh, vsh = list(cfg["xshape"]), list(cfg["vshape"])
    nd = len(batch)
    rest = xs[1:]

    def g(x, lead):
        args = [x.reshape(*lead, sizes[0])] + [a.reshape(*lead, a.shape[-1]) for a in rest]
        return f(*args)

    x0 = xs[0].reshape(batch + xsh)
    want = jac[0].reshape(batch + vsh + xsh)
    scale = max(1.0, float(jac[0].abs().max()), float(val.abs().max()))
    cmp("batch_differentiate", utility.batch_differentiate(
        lambda x: g(x, batch).reshape(batch + vsh), x0, nbatch_dim=nd), want, FD, scale)
    cmp("batch_differentiate eps", utility.batch_differentiate(
        lambda x: g(x, batch).reshape(batch + vsh), x0, eps=1e-7, nbatch_dim=nd), want, FD, scale)
    one = [xs[0].reshape(-1, sizes[0]).shape[0]]
    if nd == 1:
        cmp("batch_differentiate default", utility.batch_differentiate(
            lambda x: g(x, one).reshape(one + vsh), x0), want, FD, scale)
    cmp("new_differentiate", utility.new_differentiate(lambda x: g(x, one), xs[0].reshape(one + [sizes[0]])),
        jac[0].reshape(one + [m, sizes[0]]), FD, scale)
    if sizes[0] == 1:
        cmp("new_differentiate scalar argument", utility.new_differentiate(
            lambda x: g(x, one), xs[0].reshape(one)), jac[0].reshape(one + [m, 1]), FD, scale)
        if m == 1 and bool((xs[0].abs() > 1e-2).all()):
            cmp("differentiate", utility.differentiate(lambda x: g(x, one).reshape(one), xs[0].reshape(one)),
                jac[0].reshape(one), FD, scale)
    if m == 1:
        cmp("new_differentiate scalar value", utility.new_differentiate(
            lambda x: g(x, one).reshape(one), xs[0].reshape(one + [sizes[0]])),
            jac[0].reshape(one + [1, sizes[0]]), FD, scale)

    # tensor helpers
    A = torch.tensor(fmap(h["A"], 3)).reshape(list(h["s1"]) + [h["n"], h["m"]])
    B = torch.tensor(fmap(h["B"], 3)).reshape(list(h["s2"]) + [h["m"], h["o"]])
    cmp("mbmm", utility.mbmm(lay(A, r["c"]), lay(B, r["c"] // 5)), torch.tensor(fmap(h["AB"], 3)).reshape(list(h["full"]) + [h["n"], h["o"]]))
    v = torch.tensor(fmap(h["v"], 1))
    for shape in ([6], [2, 3], [3, 1, 2]):
        cmp("heaviside", utility.heaviside(v.reshape(shape)), torch.tensor(fmap(h["heaviside"], 1)).reshape(shape))
        cmp("macaulay", utility.macaulay(v.reshape(shape)), torch.tensor(fmap(h["macaulay"], 1)).reshape(shape))
    z = v.clone().requires_grad_()
    utility.macaulay(z).sum().backward()
    cmp("macaulay derivative", z.grad[v != 0], torch.tensor(fmap(h["heaviside"], 1))[v != 0])
    M = torch.tensor(fmap(h["M"], 3))
    nb = rnd.randrange(1, 4)
    cmp("add_id", utility.add_id(lay(M[:nb], r["c"])), torch.tensor(fmap(h["Mid"], 3))[:nb])
    for a, b in zip(keep, xs):
        if not torch.equal(a, b):
            fails.append(("altered", f"{tag}: an argument was modified"))
    if not torch.equal(M, torch.tensor(fmap(h["M"], 3))):
        fails.append(("altered", f"{tag}: add_id modified its argument"))
    return fails[:3], n


def run(chk):
    recs = chk.spec("Jacobians", consts=dict(Seed=SEED, Cases=range(1, 6000 if THOROUGH else 700)),
                    invariants=["Difference", "Own"])
    chk.extra["batch_shapes"] = len({tuple(r["cfg"]["batch"]) for r in recs})
    chk.replay(scn, recs, "jacobians", sample=1)
