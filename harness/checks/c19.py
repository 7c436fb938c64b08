"""C19: deterministic and statistical models (specs/StatModel.tla)."""
import torch
import pyro
from pyro import poutine
from pyro.infer import SVI, Trace_ELBO
from pyoptmat import flowrules, models, optimize, temperature
from vlib import THOROUGH, SEED, close, flt, fmap

TOL = 1e-9


class Stub:
    """The stand-in of the specification for an integrated material model."""

    def __init__(self, params, dims):
        self.params, self.dims = params, dims

    def solve_both(self, times, temperatures, idata, control):
        mix = 0.0
        for j, (p, d) in enumerate(zip(self.params, self.dims)):
            p = p.reshape(p.shape[:p.dim() - len(d)] + (-1,))
            p = (p * torch.arange(1, p.shape[-1] + 1, dtype=p.dtype)).sum(-1)
            mix = mix + (j + 1) * p
        v = mix * (1 + times) + 3 * temperatures + 2 * idata + 5 * control
        return torch.stack([v, -100.0 * v, 7 + 0 * v], dim=-1)


class Maker:
    def __init__(self, dims):
        self.dims, self.calls = dims, []

    def __call__(self, *params, **kwargs):
        self.calls.append((params, kwargs))
        return Stub(params, self.dims)


def scn(r):
    fails, n = [], 0
    c, kind = r["cfg"], r["kind"]
    ne, nt, np_ = c["ne"], c["nt"], c["np"]
    names, dims = c["names"], [list(d) for d in c["shape"]]
    what = f"case {r['c']} {kind} parameters {dict(zip(names, dims))} types {[e['type'] for e in c['exps']]}"

    def bad(clause, msg):
        fails.append((clause, f"{what}: {msg}"))

    def vec(q):
        return [torch.tensor(fmap(v, 1)).reshape(d) for v, d in zip(q, dims)]

    col = lambda k: torch.tensor([fmap(e[k], 1) for e in c["exps"]]).T.contiguous()
    data = torch.stack([col("time"), col("T"), col("drive")])
    cycles = torch.tensor([e["cyc"] for e in c["exps"]]).T.contiguous()
    types = torch.tensor([e["code"] for e in c["exps"]])
    control = torch.tensor([e["control"] for e in c["exps"]])
    obs = col("data")
    want = torch.tensor([fmap(v, 1) for v in r["res"]]).T.contiguous()
    wscale = max(1.0, float(want.abs().max()))
    noise = torch.tensor(fmap(c["noise"], 1)) if c["bytype"] else torch.tensor(flt(c["noise"][0]))
    spread = torch.tensor(fmap(r["spread"], 1))
    loc, ls, ss = vec(c["loc"]), vec(c["locscale"]), vec(c["scalescale"])
    given = [t.clone() for t in (data, cycles, types, control, obs, noise, *loc, *ls, *ss)]
    mk = Maker(dims)
    args = (data, cycles, types, control)
    pyro.clear_param_store()

    if kind == "deterministic":
        m = optimize.DeterministicModel(mk, list(names), [v.clone() for v in loc])
        got = m(*args)
        n += 3
        x = close(got, want.tolist(), TOL, wscale)
        if x:
            bad("results", x)
        par = dict(m.named_parameters())
        if list(par) != list(names) or any(not torch.equal(par[k], v) for k, v in zip(names, loc)):
            bad("parameters", f"registered {par}")
        if [id(p) for p in mk.calls[0][0]] != [id(getattr(m, k)) for k in names] or mk.calls[0][1]:
            bad("maker", f"called with {mk.calls[0]}")
        got.sum().backward()
        if any(p.grad is None for p in par.values()):
            bad("parameters", "no derivative with respect to a parameter")
        return check_given(fails, given, (data, cycles, types, control, obs, noise, *loc, *ls, *ss), bad), n

    values = {}
    for s in r["sites"]:
        if s["name"] == "obs":
            continue
        j = next((i for i, k in enumerate(names) if s["name"] in (k, *(k + q for q in c["suffixes"][:2]))), None)
        if s["name"] == "eps":
            values["eps"] = torch.tensor(fmap(s["val"], 1)) if c["bytype"] else torch.tensor(flt(s["val"][0]))
        elif s["name"] in names and kind != "single":
            v = torch.tensor(fmap(s["val"], 2))
            values[s["name"]] = v.reshape([ne] + dims[j])
        else:
            v = torch.tensor(fmap(s["val"], 1))
            values[s["name"]] = v.reshape(dims[j])
    lp = {s["name"]: flt(s["lp"]) for s in r["sites"]}
    total = flt(r["total"])
    lscale = max(1.0, sum(abs(v) for v in lp.values()))

    def judge(tr, label):
        nonlocal n
        tr.compute_log_prob()
        sites = {k: v for k, v in tr.nodes.items() if v["type"] == "sample" and type(v["fn"]).__name__ != "_Subsample"}
        n += len(lp) + 2
        if set(sites) != set(lp):
            bad("sites", f"{label}: {sorted(sites)}, expected {sorted(lp)}")
            return
        for k, v in sites.items():
            g = float(v["log_prob_sum"])
            if not abs(g - lp[k]) <= TOL * lscale:
                bad("log-density", f"{label}: site {k} {g}, specification {lp[k]}")
        if not abs(float(tr.log_prob_sum()) - total) <= TOL * lscale:
            bad("log-density", f"{label}: {float(tr.log_prob_sum())}, specification {total}")
        o = sites["obs"]
        if not o["is_observed"]:
            bad("observed", f"{label}: the results are not conditioned on the data")
        f = o["fn"].mean
        x = close(f.expand(want.shape), want.tolist(), TOL, wscale)
        if x:
            bad("results", f"{label}: mean of the results {x}")
        s = o["fn"].stddev.expand(want.shape)
        if not torch.allclose(s, spread.expand(want.shape), rtol=1e-12):
            bad("noise", f"{label}: {s[0].tolist()}, expected {spread.tolist()}")

    def judge_maker(extra=None):
        nonlocal n
        n += 1
        params, kw = mk.calls[-1]
        for k, p in zip(names, params):
            if tuple(p.shape) != tuple(values[k].shape) or not torch.equal(p.detach(), values[k]):
                bad("maker", f"parameter {k} is {p.tolist()}, drawn value {values[k].tolist()}")
        if len(params) != np_ or set(kw) - {"extra_params"} or (extra is None and kw):
            bad("maker", f"called with {len(params)} parameters and {sorted(kw)}")
        if extra is not None:
            got = kw.get("extra_params")
            if got is None or [id(a) for a in got] != [id(a) for a in extra]:
                bad("maker", "the extra parameters are not those of the guide")

    if kind == "single":
        m = optimize.StatisticalModel(mk, list(names), loc, ls, noise)
        tr = poutine.trace(poutine.condition(m, data=values)).get_trace(*args, exp_results=obs)
        judge(tr, "conditioned")
        judge_maker()
        n += 3
        if not torch.equal(tr.nodes["_RETURN"]["value"], obs):
            bad("returned", "with data, the returned value is not the data")
        # without data: the results are drawn around the response
        tr = poutine.trace(poutine.condition(m, data=values)).get_trace(*args)
        o = tr.nodes["obs"]
        if o["is_observed"] or not torch.equal(tr.nodes["_RETURN"]["value"], o["value"]):
            bad("returned", "without data, the returned value is not the drawn one")
        x = close(o["fn"].mean.expand(want.shape), want.tolist(), TOL, wscale)
        if x:
            bad("results", f"without data: {x}")
        # undefined results are replaced only on request
        for flag in (False, True):
            mm = optimize.StatisticalModel(lambda *p: Broken(Stub(p, dims)), list(names), loc, ls, noise, nan_num=flag)
            pyro.enable_validation(False)
            tr = poutine.trace(poutine.condition(mm, data=values)).get_trace(*args)
            pyro.enable_validation(True)
            mean = tr.nodes["obs"]["fn"].mean
            n += 1
            if flag and not bool(torch.isfinite(mean).all()):
                bad("undefined", "undefined results are kept")
        # draws come from the priors
        a, b = sample(m, args), sample(m, args)
        if any(torch.equal(a[k], b[k]) for k in names):
            bad("draws", "two draws of a parameter are equal")
        return check_given(fails, given, (data, cycles, types, control, obs, noise, *loc, *ls, *ss), bad), n

    weights = None
    if c["weighted"]:
        order = ["tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data"]
        weights = {k: flt(w) for k, w in zip(order, c["weights"]) if flt(w) != 0.0}
    kw = {} if c["suffixes"][0] == "_loc" else dict(loc_suffix=c["suffixes"][0], scale_suffix=c["suffixes"][1],
                                                     param_suffix=c["suffixes"][2])
    m = optimize.HierarchicalStatisticalModel(mk, list(names), loc, ls, ss, noise, include_noise=c["infer"],
                                              weights=weights, **kw)
    tr = poutine.trace(poutine.condition(m, data=values)).get_trace(*args, exp_results=obs)
    judge(tr, "conditioned")
    judge_maker(extra=[])
    x = close(tr.nodes["_RETURN"]["value"], want.tolist(), TOL, wscale)
    n += 1
    if x:
        bad("returned", x)
    a, b = sample(m, args), sample(m, args)
    if any(torch.equal(a[k], b[k]) for k in a):
        bad("draws", "two draws of a site are equal")

    guide = m.make_guide()
    gt = poutine.trace(guide).get_trace(*args, exp_results=obs)
    lat = {k: v["value"] for k, v in gt.nodes.items()
           if v["type"] == "sample" and type(v["fn"]).__name__ != "_Subsample"}
    n += 2 + len(lat)
    if set(lat) != set(values):
        bad("guide", f"sites {sorted(lat)}, expected {sorted(values)}")
    for k in set(lat) & set(values):
        if tuple(lat[k].shape) != tuple(values[k].shape):
            bad("guide", f"shape of {k} {tuple(lat[k].shape)}, in the model {tuple(values[k].shape)}")
    q = c["suffixes"][2]
    wantp = set(n_ + s + q for n_ in names for s in c["suffixes"][:2]) | set(n_ + q for n_ in names)
    wantp |= {"eps" + q} if c["infer"] else set()
    if set(pyro.get_param_store().keys()) != wantp:
        bad("guide", f"parameters {sorted(pyro.get_param_store().keys())}, expected {sorted(wantp)}")
        return fails[:3], n
    extra = m.get_extra_params()
    if len(extra) != np_ or any(e is not pyro.param(k + q).unconstrained() for e, k in zip(extra, names)):
        bad("guide", "extra parameters are not the per-experiment parameters, in order")
    # a guide with given values scores the model at these values
    with torch.no_grad():
        for k in names:
            pyro.get_param_store()[k + q] = values[k].clone()
            for s in c["suffixes"][:2]:
                if kind == "guide":
                    v = pyro.param(k + s + q).detach()
                    if not torch.allclose(v, values[k + s], rtol=1e-12):
                        bad("guide", f"{k + s} starts at {v}, expected {values[k + s]}")
                pyro.get_param_store()[k + s + q] = values[k + s].clone()
        if c["infer"]:
            pyro.get_param_store()["eps" + q] = values["eps"].clone()
    gt = poutine.trace(guide).get_trace(*args, exp_results=obs)
    for k, v in values.items():
        n += 1
        if not torch.allclose(gt.nodes[k]["value"].detach(), v, rtol=1e-12, atol=0):
            bad("guide", f"{k} is {gt.nodes[k]['value']}, its parameter {v}")
    tr = poutine.trace(poutine.replay(m, trace=gt)).get_trace(*args, exp_results=obs)
    judge(tr, "guided")
    judge_maker(extra=m.get_extra_params())
    n += 2
    loss = Trace_ELBO().loss(m, guide, *args, exp_results=obs)
    if not abs(loss + total) <= TOL * lscale:
        bad("log-density", f"objective {loss}, specification {-total}")
    svi = SVI(m, guide, pyro.optim.SGD({"lr": 1e-6}), loss=Trace_ELBO())
    before = {k: pyro.param(k).detach().clone() for k in wantp}
    svi.step(*args, exp_results=obs)
    if all(torch.equal(before[k], pyro.param(k).detach()) for k in wantp):
        bad("guide", "a step of inference changes nothing")
    return check_given(fails, given, (data, cycles, types, control, obs, noise, *loc, *ls, *ss), bad), n


class Material:
    """Makes the linear viscoelastic material of specs/Training.tla."""

    def __init__(self, cfg):
        self.cfg = cfg

    def __call__(self, E, eta, extra_params=()):
        CP = temperature.ConstantParameter
        m = models.InelasticModel(CP(E), flowrules.PerfectViscoplasticity(CP(torch.tensor(1.0)), CP(eta)))
        return models.ModelIntegrator(m, use_adjoint=self.cfg["adjoint"], block_size=self.cfg["block"],
                                      direct_solve_method=self.cfg["method"], extra_params=list(extra_params),
                                      rtol=1e-12, atol=1e-12)


def train(r):
    """Follows a walk of specs/Training.tla with pyro's SGD (torch's for the
    deterministic model)."""
    fails, n = [], 0
    c = r["cfg"]
    names, dims, ne = c["names"], [list(d) for d in c["shape"]], c["ne"]
    what = f"case {r['c']} {'hierarchical' if c['hier'] else 'deterministic'} " \
           f"{'material' if c['visco'] else 'stub'} parameters {dict(zip(names, dims))}"

    def bad(clause, msg):
        fails.append((clause, f"{what}: {msg}"))

    def vec(q):
        return [torch.tensor(fmap(v, 1)).reshape(d) for v, d in zip(q, dims)]

    sets = []
    for exps in c["sets"]:
        col = lambda k: torch.tensor([fmap(e[k], 1) for e in exps]).T.contiguous()
        sets.append((torch.stack([col("time"), col("T"), col("drive")]),
                     torch.tensor([e["cyc"] for e in exps]).T.contiguous(), torch.tensor([e["code"] for e in exps]),
                     torch.tensor([e["control"] for e in exps]), col("data")))
    noise = torch.tensor(fmap(c["noise"], 1)) if c["bytype"] else torch.tensor(flt(c["noise"][0]))
    loc, ls, ss = vec(c["loc"]), vec(c["locscale"]), vec(c["scalescale"])
    everything = (*[t for q in sets for t in q], noise, *loc, *ls, *ss)
    given = [t.clone() for t in everything]
    mk = Material(c) if c["visco"] else Maker(dims)
    lr = flt(c["lr"])
    nl = sum(len(v) for v in c["loc"])

    def places():
        """Name of the store, its tensor shape and the places in the walk."""
        at = 0
        for j, (k, d) in enumerate(zip(names, dims)):
            w = len(c["loc"][j])
            sh = d
            yield k + "_loc_param", sh, list(range(at, at + w))
            yield k + "_scale_param", sh, list(range(nl + at, nl + at + w))
            yield k + "_param", [ne] + sh, [2 * nl + b * nl + at + i for b in range(ne) for i in range(w)]
            at += w
        if c["infer"]:
            m = len(c["noise"])
            yield "eps_param", [m] if c["bytype"] else [], list(range((2 + ne) * nl, (2 + ne) * nl + m))

    pyro.clear_param_store()
    if c["hier"]:
        order = ["tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data"]
        weights = {k: flt(w) for k, w in zip(order, c["weights"])} if c["weighted"] else None
        m = optimize.HierarchicalStatisticalModel(mk, list(names), loc, ls, ss, noise, include_noise=c["infer"], weights=weights)
        svi = SVI(m, m.make_guide(), pyro.optim.SGD({"lr": lr}), loss=Trace_ELBO())
    else:
        m = optimize.DeterministicModel(mk, list(names), [v.clone() for v in loc])
        opt = torch.optim.SGD(m.parameters(), lr=lr)
    for k, h in enumerate(r["hist"]):
        if h["tie"]:
            break
        q = sets[h["set"] - 1]
        want = flt(h["loss"])
        big = max(1.0, abs(want), *[abs(flt(x)) for row in h["res"] for x in row])
        to, was = fmap(h["to"], 1), fmap(h["at"], 1)
        step = max(1e-3, max(abs(a - b) for a, b in zip(to, was)))
        n += 2
        if c["hier"]:
            loss = svi.step(*q[:4], exp_results=q[4])
            res = None
        else:
            opt.zero_grad()
            res = m(*q[:4])
            loss = ((res - q[4]) ** 2).sum()
            loss.backward()
            opt.step()
            loss = float(loss.detach())
        if not abs(loss - want) <= 1e-8 * big:
            bad("objective", f"step {k + 1}: objective {loss}, specification {want}")
        if res is not None:
            x = close(res, torch.tensor([fmap(v, 1) for v in h["res"]]).T.tolist(), 1e-9, big)
            if x:
                bad("results", f"step {k + 1}: {x}")
        if c["hier"]:
            for name, sh, idx in places():
                n += 1
                x = close(pyro.param(name).unconstrained(), torch.tensor([to[i] for i in idx]).reshape(sh).tolist(), 1e-7, step)
                if x:
                    bad("step", f"step {k + 1}: {name} (unconstrained) {x}; before the step {[was[i] for i in idx]}")
        else:
            at = 0
            for j, (k_, d) in enumerate(zip(names, dims)):
                w = len(c["loc"][j])
                n += 1
                x = close(getattr(m, k_), torch.tensor(to[at:at + w]).reshape(d).tolist(), 1e-7, step)
                if x:
                    bad("step", f"step {k + 1}: parameter {k_} {x}; before the step {was[at:at + w]}")
                at += w
        if fails:
            break
    return check_given(fails, given, everything, bad), n


class Broken:
    def __init__(self, m):
        self.m = m

    def solve_both(self, *a):
        p = self.m.solve_both(*a)
        return torch.where(torch.arange(p.shape[0])[:, None, None] == 0, torch.nan, p)


def sample(m, args):
    tr = poutine.trace(m).get_trace(*args)
    return {k: v["value"].detach().clone() for k, v in tr.nodes.items()
            if v["type"] == "sample" and k != "obs" and type(v["fn"]).__name__ == "Normal"}


def check_given(fails, keep, now, bad):
    if not all(torch.equal(a, b) for a, b in zip(keep, now)):
        bad("altered", "an argument was modified")
    return fails[:3]


def run(chk):
    recs = chk.spec("StatModel", consts=dict(Seed=SEED, Cases=range(1, 5000 if THOROUGH else 600)),
                    invariants=["SitesOnce", "AllDrawn", "Positive"])
    chk.extra["kinds"] = {k: sum(r["kind"] == k for r in recs) for k in {r["kind"] for r in recs}}
    chk.replay(scn, recs, "model", sample=1)
    recs = chk.spec("Training", consts=dict(Seed=SEED, Cases=range(1, 1200 if THOROUGH else 140), Steps=8 if THOROUGH else 5),
                    invariants=["PriorAlone", "FromPriors"])
    chk.extra["training_steps"] = sum(len(r["hist"]) for r in recs)
    chk.replay(train, recs, "training", sample=1)
