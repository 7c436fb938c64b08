"""Families of library calls on shared objects and inputs, for sequences of
calls (specs/Calls.tla).  A family is a function seed -> (ops, inputs):
  ops     list of (name, function without arguments returning tensors)
  inputs  the tensors and containers the caller handed in
Everything is made fresh by each call of the family function."""
import random
import warnings
import numpy as np
import pyro
import torch
import xarray as xr
import lawlib
import matlib
import odelib
from pyro import poutine
from pyro.infer import SVI, Trace_ELBO
from pyoptmat import (chunktime, damage, experiments, flowrules, hardening, models, neuralode, ode,
                      optimize, scaling, solvers, temperature, utility)

CP = temperature.ConstantParameter


class Draw:
    """Tensors of a family; each is recorded as an input."""

    def __init__(self, seed):
        self.g = torch.Generator().manual_seed(seed)
        self.rnd = random.Random(seed)
        self.inputs = []

    def own(self, x):
        self.inputs.append(x)
        return x

    def u(self, lo, hi, *shape):
        return self.own(lo + (hi - lo) * torch.rand(shape, generator=self.g))


def interpolators(seed):
    d = Draw(seed)
    nt, nb = d.rnd.randrange(2, 6), d.rnd.randrange(1, 4)
    steps = d.u(0.5, 1.5, nt, nb)
    times = d.own(torch.cumsum(steps, 0))
    vals = d.u(-2, 2, nt, nb)
    same = d.own(times[:, :1].repeat(1, nb))
    lo, hi = times[0], times[-1]
    q = [d.own(lo + (hi - lo) * f) for f in (0.3, 1.0)]
    qm = d.own(torch.stack([lo + (hi - lo) * f for f in (0.1, 0.6, 0.9)]))
    qs = [d.own(same[0] + (same[-1] - same[0]) * f) for f in (0.25, 0.75)]
    A = utility.ArbitraryBatchTimeSeriesInterpolator(times, vals)
    B = utility.BatchTimeSeriesInterpolator(times, vals)
    C = utility.CheaterBatchTimeSeriesInterpolator(same, vals)
    ops = [("arbitrary 1", lambda: A(q[0])), ("arbitrary block", lambda: A(qm)), ("batch", lambda: B(q[1])),
           ("batch 2", lambda: B(q[0])), ("cheater", lambda: C(qs[0])), ("cheater 2", lambda: C(qs[1])),
           ("function", lambda: utility.timeseries_interpolate_batch_times(times, vals, q[0])),
           ("single times", lambda: utility.timeseries_interpolate_single_times(same[:, 0], vals, qs[0][0]))]
    return ops, d.inputs


def scalings(seed):
    d = Draw(seed)
    lo, hi = d.u(0.5, 1.0, 3), d.u(2.0, 4.0, 3)
    x, y = d.u(-0.5, 1.5, 3), d.u(1.0, 2.0, 3)
    S = [scaling.SimpleScalingFunction(hi), scaling.BoundedScalingFunction(lo, hi),
         scaling.LogBoundedScalingFunction(lo, hi)]
    ops = []
    for s in S:
        k = type(s).__name__
        ops += [(k + ".scale", lambda s=s: s.scale(x)), (k + ".unscale", lambda s=s: s.unscale(y)),
                (k + ".scale_mean", lambda s=s: s.scale_mean(x, lo)),
                (k + ".scale_stat", lambda s=s: [float(len(s.scale_stat(x, lo)))])]
    b = d.own((lo, hi))
    ops += [("bounded_scale_function", lambda: optimize.bounded_scale_function(b)(x)),
            ("clamp_scale_function", lambda: optimize.clamp_scale_function(b)(x)),
            ("bound_factor", lambda: optimize.bound_factor(y, 0.25)(x)),
            ("bound_factor min", lambda: optimize.bound_factor(y, 0.25, min_bound=lo)(x)),
            ("bound_and_scale", lambda: optimize.bound_and_scale(hi, b)(y)),
            ("log_bound_and_scale", lambda: optimize.log_bound_and_scale(hi, b)(y))]
    return ops, d.inputs


def temperatures(seed):
    d = Draw(seed)
    nb = d.rnd.randrange(1, 4)
    one = lambda lo, hi: d.u(lo, hi, *([nb] if d.rnd.random() < 0.5 else []))
    T, T2 = d.u(400, 900, nb), d.u(400, 900, 2, nb)
    mu = temperature.PolynomialScaling(torch.stack([-0.02 * torch.ones(()), d.u(90, 110)]))
    ctl = d.own(torch.tensor([300.0, 500.0, 700.0, 1000.0]))
    k, b = d.own(torch.tensor(1.38064e-20)), d.own(torch.tensor(2.019e-7))
    P = [CP(one(1, 2)), CP(one(1, 2), scaling=torch.exp),
         temperature.PolynomialScaling(d.u(-1, 1, 3, nb)),
         temperature.PiecewiseScaling(ctl, d.u(1, 3, 4)),
         temperature.PiecewiseScaling(ctl, d.u(1, 3, nb, 4), values_scale_fn=torch.exp),
         temperature.ShearModulusScaling(one(0.1, 0.2), mu),
         temperature.KMRateSensitivityScaling(one(-9, -7), mu, b, k),
         temperature.KMViscosityScaling(one(-9, -7), one(-4, -3), mu, torch.tensor(1e10), b, k),
         temperature.MTSScaling(one(20, 30), one(1, 2), one(1, 1.5), one(0.5, 0.8), k, b, mu),
         temperature.ArrheniusScaling(one(1, 2), one(100, 200)), temperature.InverseArrheniusScaling(one(1, 2), one(100, 200))]
    ops = []
    for p in d.rnd.sample(P, 4):
        ops += [(type(p).__name__ + " 1", lambda p=p: p(T)), (type(p).__name__ + " 2", lambda p=p: p(T2))]
    return ops, d.inputs


def factorizations(seed):
    d = Draw(seed)
    n, nb, m = d.rnd.randrange(1, 8), d.rnd.randrange(1, 3), d.rnd.randrange(1, 3)
    A = d.own(torch.rand((n, nb, m, m), generator=d.g) + 2 * torch.eye(m))
    B = d.u(-0.5, 0.5, n - 1, nb, m, m)
    v, w = d.u(-1, 1, nb, n * m), d.u(-1, 1, nb, n * m)
    F = [chunktime.BidiagonalThomasFactorization(A, B), chunktime.BidiagonalPCRFactorization(A, B),
         chunktime.BidiagonalHybridFactorization(A, B, min_size=d.rnd.randrange(0, 4))]
    op = chunktime.BidiagonalForwardOperator(A, B, inverse_operator=chunktime.BidiagonalPCRFactorization)
    mat = op.to_diag()
    ctx = chunktime.ChunkTimeOperatorSolverContext("direct")
    ctd = chunktime.ChunkTimeOperatorSolverContext("dense")
    ops = []
    for f in F:
        ops += [(type(f).__name__ + " v", lambda f=f: f(v)), (type(f).__name__ + " w", lambda f=f: f(w))]
    ops += [("product", lambda: op(v)), ("inverse", lambda: op.inverse()(w)), ("context direct", lambda: ctx.solve(op, v)),
            ("context dense", lambda: ctd.solve(op, v)), ("to_dense", mat.to_dense),
            ("to_batched_coo", lambda: mat.to_batched_coo().to_dense()),
            ("to_unrolled_csr", lambda: [x.to_dense() for x in mat.to_unrolled_csr()])]
    return ops, d.inputs


def nonlinear(seed):
    d = Draw(seed)
    nb, m = d.rnd.randrange(1, 4), d.rnd.randrange(1, 3)
    a, x0, x1 = d.u(1, 2, nb, m), d.u(1, 2, nb, m), d.u(2, 3, nb, m)
    M = d.own(0.2 * torch.rand((nb, m, m), generator=d.g) + torch.eye(m))

    def f(x):
        return ((M @ x.unsqueeze(-1)).squeeze(-1) ** 2 - a,
                2 * (M @ x.unsqueeze(-1)) * M)

    # (the preconditioner is kept between solves by design: same answer to the tolerance)
    keep = solvers.PreconditionerReuseNonlinearSolver()
    kw = dict(rtol=1e-12, atol=1e-12)

    class Ctx:
        def solve(self, J, R):
            return solvers.lu_linear_solve(J, R)
    A, b = M, a
    ops = [("newton_raphson lu", lambda: solvers.newton_raphson(f, x0, **kw)),
           ("newton_raphson again", lambda: solvers.newton_raphson(f, x1, **kw)),
           ("newton_raphson_bt", lambda: solvers.newton_raphson_bt(f, x0, **kw)),
           ("reuse", lambda: keep.solve(f, x0, **kw)[0]), ("reuse again", lambda: keep.solve(f, x1, **kw)[0]),
           ("newton_raphson_chunk", lambda: chunktime.newton_raphson_chunk(f, x0, Ctx(), **kw)),
           ("lu_linear_solve", lambda: solvers.lu_linear_solve(A, b)),
           ("jacobi", lambda: solvers.jacobi_iteration_linear_solve(A, b)),
           ("gmres", lambda: solvers.gmres(A, b, x0=x0, check=1, maxiter=m + 1)),
           ("gmres from zero", lambda: solvers.gmres(A, b, check=1, maxiter=m + 1)),
           ("lu_gmres", lambda: solvers.lu_gmres(A, b, x0=x1))]
    return ops, d.inputs


def helpers(seed):
    d = Draw(seed)
    nb, m = d.rnd.randrange(1, 4), d.rnd.randrange(1, 3)
    x, y = d.u(-1, 1, nb, m), d.u(-1, 1, 2, nb, m)
    K = d.u(-1, 1, m, m)
    f = utility.jacobianize()(lambda a: torch.tanh(a @ K))
    ode_ = neuralode.NeuralODE(lambda z: torch.tanh(z[..., :m] @ K) + z[..., m:], lambda t: t.unsqueeze(-1))
    t, t2 = d.u(0, 1, nb), d.u(0, 1, 2, nb)
    A = d.u(-1, 1, nb, m, m)
    g = lambda a: torch.tanh(a @ K)
    ops = [("jacobianize", lambda: f(x)), ("jacobianize block", lambda: f(y)), ("neural ODE", lambda: ode_(t, x)),
           ("neural ODE block", lambda: ode_(t2, y)), ("batch_differentiate", lambda: utility.batch_differentiate(g, x)),
           ("new_differentiate", lambda: utility.new_differentiate(g, x)),
           ("mbmm", lambda: utility.mbmm(A, A)), ("add_id", lambda: utility.add_id(A)),
           ("macaulay", lambda: utility.macaulay(x)), ("heaviside", lambda: utility.heaviside(x))]
    return ops, d.inputs


def data(seed):
    d = Draw(seed)
    nt, ne = d.rnd.randrange(2, 6), d.rnd.randrange(1, 5)
    names = [d.rnd.choice(list(experiments.exp_map)) for _ in range(ne)]
    types = d.own(torch.tensor([experiments.exp_map[k] for k in names]))
    cyc = d.own(torch.tensor([[min(2, j * 3 // nt) for _ in range(ne)] for j in range(nt)]))
    val = d.u(-2, 2, nt, ne)
    ds = d.own(xr.Dataset(
        {k: (["ntime", "nexp"], torch.rand((nt, ne), generator=d.g).numpy())
         for k in ("time", "temperature", "strain", "stress")}
        | {"cycle": (["ntime", "nexp"], cyc.numpy().copy()), "type": (["nexp"], np.array(names)),
           "control": (["nexp"], np.array(["strain", "stress"])[[d.rnd.randrange(2) for _ in range(ne)]])},
        attrs={"heat": 1}))
    r, T, lim = d.u(1e-4, 1e-2, ne), d.u(300, 900, ne), d.u(0.1, 0.2, ne)
    case = d.own({"max_strain": 0.01, "R": -1.0, "strain_rate": 1e-3, "tension_hold": 2.0, "compression_hold": 0.0})
    rng = d.own({"max_strain": [0.0, 0.02], "R": [-1.0, 1.0], "strain_rate": [1e-3, 1e-5],
                 "tension_hold": [0.0, 10.0], "compression_hold": [0.0, 5.0]})

    def seeded(f):
        np.random.seed(3)
        g = f()
        return torch.tensor([float(g[k]) for k in sorted(g)])
    arr = lambda q: [torch.as_tensor(np.asarray(x)) for x in q]
    ops = [("load_results", lambda: experiments.load_results(ds)),
           ("convert_results", lambda: experiments.convert_results(val, cyc, types)),
           ("convert_results 2", lambda: experiments.convert_results(val[:, :1], cyc[:, :1], types[:1])),
           ("make_tension_tests", lambda: experiments.make_tension_tests(r, T, lim, 5)),
           ("make_creep_tests", lambda: experiments.make_creep_tests(10 * lim, T, r, 10000 * lim, 3, 4)),
           ("make_creep_tests log", lambda: experiments.make_creep_tests(10 * lim, T, r, 10000 * lim, 3, 4, logspace=True)),
           ("sample_cycle", lambda: arr(experiments.sample_cycle_normalized_times(case, 2, nload=3, nhold=2))),
           ("sample_tension", lambda: arr(experiments.sample_tension({"max_strain": 0.1, "strain_rate": 1e-3}, nsteps=4))),
           ("generate_random_cycle", lambda: seeded(lambda: experiments.generate_random_cycle(**rng))),
           ("generate_random_cycle default", lambda: seeded(experiments.generate_random_cycle)),
           ("generate_random_tension", lambda: seeded(experiments.generate_random_tension))]
    ops += [(k, lambda k=k: experiments.exp_fns[k](cyc, val)) for k in d.rnd.sample(sorted(experiments.exp_fns), 2)]
    return ops, d.inputs


def material(d, damaged, grad=False):
    """A viscoplastic material model from tensors of the caller."""
    P = lambda lo, hi: CP(torch.nn.Parameter(d.u(lo, hi)) if grad else d.u(lo, hi))
    fr = flowrules.IsoKinViscoplasticity(
        P(3, 5), P(100, 150), P(5, 20), hardening.VoceIsotropicHardeningModel(P(20, 50), P(5, 20)),
        hardening.FAKinematicHardeningModel(P(500, 1500), P(10, 30)))
    if damaged:
        return models.DamagedInelasticModel(P(1e4, 2e4), fr, dmodel=damage.HayhurstLeckie(P(2000, 3000), P(3, 4), P(1, 2)))
    return models.InelasticModel(P(1e4, 2e4), fr)


class Loads:
    """Strain histories within the elastic and plastic range, with grids."""

    def __init__(self, d, nb, nt):
        self.t = d.own(torch.cat([torch.zeros(1, nb), torch.cumsum(d.u(0.5, 1.5, nt, nb), 0)]))
        rate = d.u(1e-3, 4e-3, nb) * torch.where(d.u(0, 1, nb) < 0.3, -1.0, 1.0)
        turn = d.rnd.randrange(1, nt + 1)
        s = torch.ones(nt)
        s[turn:] = -1.0
        self.x = d.own(torch.cat([torch.zeros(1, nb), torch.cumsum(s[:, None] * torch.diff(self.t, dim=0) * rate, 0)]))
        self.T = d.own(500 + 0 * self.t)


def integrators(seed):
    d = Draw(seed)
    nb, nt = d.rnd.randrange(1, 4), d.rnd.randrange(2, 5)
    m = material(d, d.rnd.random() < 0.5)
    a, b = Loads(d, nb, nt), Loads(d, max(1, nb - 1), nt)
    I = models.ModelIntegrator(m, use_adjoint=d.rnd.random() < 0.5, throw_on_fail=True,
                               block_size=d.rnd.randrange(1, 4), rtol=1e-10, atol=1e-9)
    with torch.no_grad():
        stress = d.own(I.solve_strain(a.t, a.x, a.T)[..., 0].detach().clone())
    slow, less, warm = d.own(2 * a.t), d.own(0.75 * a.x), d.own(a.T + 100 * a.t)
    control = d.own(torch.tensor([i % 2 for i in range(nb)]))
    mixed = d.own(torch.where(control[None, :] == 1, stress, a.x))
    ops = [("solve_strain 1", lambda: I.solve_strain(a.t, a.x, a.T)), ("solve_strain 2", lambda: I.solve_strain(b.t, b.x, b.T)),
           ("solve_strain slower", lambda: I.solve_strain(slow, a.x, a.T)),
           ("solve_strain less", lambda: I.solve_strain(a.t, less, a.T)),
           ("solve_strain warmer", lambda: I.solve_strain(a.t, a.x, warm)),
           ("solve_stress", lambda: I.solve_stress(a.t, stress, a.T)),
           ("solve_stress slower", lambda: I.solve_stress(slow, stress, a.T)),
           ("solve_both slower", lambda: I.solve_both(slow, a.T, mixed, control)),
           ("solve_both", lambda: I.solve_both(a.t, a.T, mixed, control)),
           ("solve_both strain", lambda: I.solve_both(a.t, a.T, a.x, 0 * control))]
    return ops, d.inputs


def odes(seed):
    d = Draw(seed)
    nb = d.rnd.randrange(1, 4)
    k = d.u(0.5, 1.0, nb, 2)

    class F(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.k = torch.nn.Parameter(k)

        def forward(self, t, y):
            return -self.k * y + torch.sin(t)[..., None], torch.diag_embed(-self.k + 0 * y)
    f = F()
    y0, t = d.u(-1, 1, nb, 2), d.own(torch.cumsum(d.u(0.1, 0.3, 5, nb), 0))
    t2 = d.own(t[:3].clone())
    extra = d.own([])
    o = dict(block_size=d.rnd.randrange(1, 5))
    ops = [(f"{e} {mth} {i}", lambda e=e, mth=mth, tt=tt: getattr(ode, e)(f, y0, tt, method=mth, extra_params=extra, **o))
           for e in ("odeint", "odeint_adjoint") for mth in ("backward-euler", "forward-euler")
           for i, tt in enumerate((t, t2))]
    return ops, d.inputs


class _Line:
    def __init__(self, *p):
        self.p = p

    def solve_both(self, t, T, x, control):
        v = sum((j + 1) * q for j, q in enumerate(self.p)) * (1 + t) + 0.1 * T + x + control
        return torch.stack([v, -v], -1)


def statistical(seed):
    """One model of each kind, used with data sets of one shape and other types."""
    d = Draw(seed)
    nt, ne, np_ = d.rnd.randrange(2, 5), d.rnd.randrange(1, 4), d.rnd.randrange(1, 3)
    names = ["a", "b"][:np_]
    loc, ls, ss = ([d.own(torch.tensor(d.rnd.uniform(0.5, 2.0))) for _ in names] for _ in range(3))
    noise = d.u(0.5, 1.5, 7) if d.rnd.random() < 0.5 else d.own(torch.tensor(0.7))
    keys = list(experiments.exp_map)
    weights = d.own({k: 0.5 + i for i, k in enumerate(keys)}) if d.rnd.random() < 0.8 else None
    make = lambda *p, extra_params=None: _Line(*p)
    M = [optimize.HierarchicalStatisticalModel(make, names, loc, ls, ss, noise, include_noise=d.rnd.random() < 0.5, weights=weights),
         optimize.StatisticalModel(make, names, loc, ls, noise)]
    det = optimize.DeterministicModel(make, names, [x.clone() for x in loc])
    guide = M[0].make_guide()
    sets = []
    for i in range(3):
        types = d.own(torch.tensor([experiments.exp_map[d.rnd.choice(keys)] for _ in range(ne)]))
        cyc = d.own(torch.tensor([[min(2, (j + i) * 3 // (nt + 2)) for _ in range(ne)] for j in range(nt)]))
        sets.append((d.u(0, 1, 3, nt, ne), cyc, types, d.own(torch.tensor([d.rnd.randrange(2) for _ in range(ne)])), d.u(-1, 1, nt, ne)))
    fixed = {**{k: 0.5 * x + 0.5 for k, x in zip(names, loc)}, **{k + "_loc": 1.5 * x for k, x in zip(names, loc)},
             **{k + "_scale": 0.5 * x for k, x in zip(names, loc)}, "eps": 1.25 * noise}

    def score(m, s):
        v = dict(fixed)
        if m is M[0]:
            v.update({k: v[k].expand(ne) for k in names})
            pyro.clear_param_store()
            guide(*s[:4])
        tr = poutine.trace(poutine.condition(m, data=v)).get_trace(*s[:4], exp_results=s[4])
        return [tr.log_prob_sum().detach()]

    def step(s):
        # from a fresh store, the gradients of one evaluation of the objective
        pyro.clear_param_store()
        loss = Trace_ELBO().differentiable_loss(M[0], guide, *s[:4], exp_results=s[4])
        p = [pyro.param(k).unconstrained() for k in sorted(pyro.get_param_store().keys())]
        return [loss.detach()] + list(torch.autograd.grad(loss, p))

    def train(s):
        pyro.clear_param_store()
        svi = SVI(M[0], guide, pyro.optim.SGD({"lr": 1e-3}), loss=Trace_ELBO())
        out = [torch.tensor(float(svi.step(*s[:4], exp_results=s[4]))) for _ in range(3)]
        return out + [pyro.param(k).detach() for k in sorted(pyro.get_param_store().keys())]
    ops = []
    for i, s in enumerate(sets):
        ops += [(f"hierarchical {i}", lambda s=s: score(M[0], s)), (f"single {i}", lambda s=s: score(M[1], s)),
                (f"deterministic {i}", lambda s=s: det(*s[:4])), (f"objective {i}", lambda s=s: step(s)),
                (f"training {i}", lambda s=s: train(s)),
                (f"convert_results {i}", lambda s=s: experiments.convert_results(s[4], s[1], s[2]))]
    return ops, d.inputs


def laws(rec):
    """Calls of one law of specs/Laws.tla at its points."""
    def make(_):
        matlib.MADE.clear()
        p = lawlib.Point(rec)
        L = rec["law"]
        blk = [p.t, p.s, p.h, p.T, p.e, p.ep, p.d]
        row = [x[1] for x in blk]
        ops = []
        if rec["focus"] == "flow":
            o = matlib.flow(L)
            for n_, (t, s, h, T, e, ep, dd) in (("block", blk), ("row", row)):
                a = (s, h, t, T, e)
                for k in ("flow_rate", "history_rate", "dflow_dhist", "dhist_dstress", "dflow_derate", "dhist_derate"):
                    ops.append((f"{k} {n_}", lambda k=k, a=a: getattr(o, k)(*a)))
        elif rec["focus"] == "damage":
            o = matlib.dam(L)
            for n_, (t, s, h, T, e, ep, dd) in (("block", blk), ("row", row)):
                a = (s, dd, t, T, e)
                for k in ("damage_rate", "d_damage_rate_d_s", "d_damage_rate_d_e"):
                    ops.append((f"{k} {n_}", lambda k=k, a=a: getattr(o, k)(*a)))
        elif rec["focus"] in ("iso", "kin"):
            o = (matlib.iso if rec["focus"] == "iso" else matlib.kin)(L)
            for n_, (t, s, h, T, e, ep, dd) in (("block", blk), ("row", row)):
                a = (s, h, t, ep, T, e)
                ops += [(f"value {n_}", lambda h=h: o.value(h)), (f"dvalue {n_}", lambda h=h: o.dvalue(h))]
                for k in ("history_rate", "dhistory_rate_dhistory", "dhistory_rate_derate", "dhistory_rate_dstress"):
                    ops.append((f"{k} {n_}", lambda k=k, a=a: getattr(o, k)(*a)))
        else:
            o = matlib.model(L)
            y = torch.cat([p.s[..., None], p.h] + ([p.d[..., None]] if L["kind"] == "damaged" else []), dim=-1)
            blk.append(y)
            y1 = y[1]
            # a state at the edge of what a run can reach
            edge = y1.clone()
            edge[..., 0] = torch.tensor([1e-9, -5e3, 0.0])[torch.arange(edge.shape[0]) % 3]
            if L["kind"] == "damaged":
                edge[..., -1] = torch.tensor([0.9999, 0.0, 1e-9])[torch.arange(edge.shape[0]) % 3]
            blk.append(edge)
            srate = 0.25 * torch.ones_like(p.s)
            f = models.StrainBasedModel(o, lambda tt: p.e if tt.dim() == 2 else p.e[1],
                                        lambda tt: p.T if tt.dim() == 2 else p.T[1])
            ops += [("forward block", lambda: o(p.t, y, p.e, p.T)), ("forward row", lambda: o(p.t[1], y1, p.e[1], p.T[1])),
                    ("forward edge", lambda: o(p.t[1], edge, p.e[1], p.T[1])),
                    ("strain form", lambda: f(p.t, y)), ("strain form row", lambda: f(p.t[1], y1))]
            if rec["outs"][0][0]["ctl"].get("lin", False):
                x = y.clone()
                x[..., 0] = 0.25
                blk.append(x)
                g = models.StressBasedModel(o, lambda tt: srate, lambda tt: p.s, lambda tt: p.T)
                ctl = torch.tensor([b % 2 for b in range(p.nb)])
                blk.append(ctl)
                h = models.BothBasedModel(o, lambda tt: srate, lambda tt: p.s, lambda tt: p.T, ctl)
                ops += [("stress form", lambda: g(p.t, x)), ("mixed form", lambda: h(p.t, x))]
        return ops, blk + [v for v, _ in matlib.MADE]
    return make


FAMILIES = {"interpolators": interpolators, "scalings": scalings, "temperatures": temperatures,
            "factorizations": factorizations, "nonlinear": nonlinear, "helpers": helpers, "data": data,
            "integrators": integrators, "odes": odes, "statistical": statistical}


# --------------------------------------------------------------------------

def flat(x):
    """The tensors of a result."""
    if torch.is_tensor(x):
        return [x.detach().clone()]
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in flat(y)]
    return [torch.as_tensor(x).clone()]


def snap(x):
    if torch.is_tensor(x):
        return x.detach().clone()
    if isinstance(x, (list, tuple)):
        return type(x)(snap(y) for y in x)
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, xr.Dataset):
        return x.copy(deep=True)
    return x


EDIT = 0.984375


def edit(x):
    """The caller changes what an input contains, in place."""
    if torch.is_tensor(x):
        if x.is_floating_point():
            with torch.no_grad():
                for k, (size, step) in enumerate(zip(x.shape, x.stride())):
                    if size > 1 and step == 0:
                        x = x.narrow(k, 0, 1)
                x.mul_(EDIT)
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            if isinstance(y, float):
                x[i] = EDIT * y
            else:
                edit(y)
    elif isinstance(x, dict):
        for k, y in x.items():
            if isinstance(y, float):
                x[k] = EDIT * y
            else:
                edit(y)
    elif isinstance(x, xr.Dataset):
        for k in x:
            if x[k].dtype == float:
                x[k].values *= EDIT


def same_input(a, b):
    if torch.is_tensor(a):
        return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_input(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_input(a[k], b[k]) for k in a)
    if isinstance(a, xr.Dataset):
        return a.identical(b)
    return a == b


def same_result(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and bool(torch.allclose(x.to(torch.float64), y.to(torch.float64), rtol=1e-9, atol=1e-11,
                                                   equal_nan=True)) for x, y in zip(a, b))
