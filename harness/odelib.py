"""Polynomial ODEs exported by specs/PolyOde.tla as torch modules, and runs of
the integrators on them."""
import torch
from pyoptmat import ode, neuralode
from vlib import flt, fmap, lay


class PolyOde(torch.nn.Module):
    """ydot and its Jacobian for one exported problem.

    kinds[j]: how parameter j is declared: "module" (an nn.Parameter),
    "extra" (a plain tensor handed over as extra parameter), "frozen"
    (nn.Parameter with requires_grad False), "twice" (an nn.Parameter that is
    handed over as extra parameter, too), "derived" (an extra parameter that is
    the result of an operation, as sampled ones are)."""

    def __init__(self, prob, kinds=None, unused=False):
        super().__init__()
        self.ny, self.nb = prob["ny"], prob["nb"]
        self.terms = prob["terms"]
        self.kinds = kinds or ["module"] * len(prob["par"])
        self.extra, self.base = {}, {}
        for j, p in enumerate(prob["par"]):
            v = torch.tensor([flt(x) for x in p["v"]])
            if not p["batched"]:
                v = v[0].clone()
            if self.kinds[j] == "extra":
                self.extra[j] = v.clone().requires_grad_(True)
            elif self.kinds[j] == "derived":
                self.base[j] = v.clone().requires_grad_(True)
                self.extra[j] = self.base[j] * 1.0
            else:
                self.register_parameter(f"p{j}", torch.nn.Parameter(
                    v, requires_grad=self.kinds[j] != "frozen"))
        if unused:
            self.register_parameter("unused", torch.nn.Parameter(torch.tensor([1.0, 2.0])))

    def par(self, j):
        return self.extra[j] if j in self.extra else getattr(self, f"p{j}")

    def trainable(self):
        return [(j, self.base.get(j, self.par(j))) for j in range(len(self.kinds)) if self.kinds[j] != "frozen"]

    def neural(self):
        """The same problem as a NeuralODE: the rate alone, of the state and a
        forcing made of the time and of the parameters that differ by member."""
        f, ny = self, self.ny
        own = [j for j in range(len(self.kinds)) if self.par(j).dim() > 0]

        class Rate(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.f = f

            def forward(self, x):
                par = {j: x[..., ny + 1 + i] for i, j in enumerate(own)}
                return f.both(x[..., ny], x[..., :ny], lambda j: par[j] if j in par else f.par(j))[0]

        return neuralode.NeuralODE(
            Rate(), lambda t: torch.stack([t] + [f.par(j).expand_as(t) for j in own], -1))

    def forward(self, t, y):
        return self.both(t, y, self.par)

    def both(self, t, y, par):
        # t: (..., nb)   y: (..., nb, ny)
        rate = [torch.zeros_like(t) for _ in range(self.ny)]
        jac = [[torch.zeros_like(t) for _ in range(self.ny)] for _ in range(self.ny)]
        for m in self.terms:
            c = flt(m["coef"]) * t ** m["tp"]
            if m["par"]:
                c = c * par(m["par"] - 1) ** m["pe"]

            def mono(e):
                r = torch.ones_like(t)
                for i, k in enumerate(e):
                    if k:
                        r = r * y[..., i] ** k
                return r

            i = m["row"] - 1
            rate[i] = rate[i] + c * mono(m["e"])
            for j, k in enumerate(m["e"]):
                if k:
                    e = list(m["e"])
                    e[j] -= 1
                    jac[i][j] = jac[i][j] + c * k * mono(e)
        return (torch.stack(rate, -1),
                torch.stack([torch.stack(r, -1) for r in jac], -2))


METHOD = {"be": "backward-euler", "fe": "forward-euler"}


def integrate(prob, scheme, entry="odeint", kinds=None, unused=False, y0_grad=False, grads=True,
              weights=None, neural=False, layout=0, **opts):
    """Run one problem; returns the trajectory and the gradients of sum(w y)."""
    f = PolyOde(prob, kinds, unused)
    t = lay(torch.tensor(fmap(prob["t"], 2)).reshape(prob["nt"], prob["nb"]), layout)
    y0 = lay(torch.tensor(fmap(prob["y0"], 2)), layout // 5)
    if not y0_grad and (y0 == y0.round()).all():
        y0 = y0.long()
    # the initial condition: True a leaf, "computed" the result of an operation,
    # "module" a parameter of the equation, "extra" an extra parameter
    leaf = y0 = torch.nn.Parameter(y0) if y0_grad == "module" else y0.requires_grad_(bool(y0_grad))
    if y0_grad == "module":
        f.register_parameter("start", y0)
    elif y0_grad == "computed":
        y0 = leaf * 1.0
    o = dict(rtol=1e-10, atol=1e-13, miter=30)
    o.update(opts)
    extra = [f.par(j) for j, k in enumerate(f.kinds) if k in ("extra", "twice", "derived")] + [y0] * (y0_grad == "extra")
    y = getattr(ode, entry)(f.neural() if neural else f, y0, t, method=METHOD[scheme], extra_params=extra, **o)
    out = {"y": y.detach().clone(), "p": {}, "y0": None}
    if grads and y.requires_grad:
        w = torch.tensor(fmap(prob["w"] if weights is None else weights, 3))
        (y * w).sum().backward()
        for j, p in f.trainable():
            out["p"][j] = p.grad
        out["y0"] = leaf.grad
        out["unused"] = f.unused.grad if unused else None
        out["frozen"] = [f.par(j).grad for j, k in enumerate(f.kinds) if k == "frozen"]
    return out
