"""Torch objects for the parameters, hardening models, flow rules, damage laws
and material models exported by the specifications."""
import torch
from pyoptmat import temperature, hardening, flowrules, damage, models
from vlib import flt

SCALES = {
    "id": None,
    "affine": lambda x: 2.0 * x + 0.5,
    "exp": torch.exp,
    "square": lambda x: x * x,
    "tenth": lambda x: 0.1 * x,
}


def select(x, members):
    """The law of a batch made of the given members of the exported batch."""
    if isinstance(x, dict):
        if set(x) == {"s", "v"}:
            v = x["v"]
            return {"s": x["s"], "v": v if len(v) == 1 else [v[m] for m in members], "b": len(v) > 1}
        return {k: select(y, members) for k, y in x.items()}
    if isinstance(x, list):
        return [select(y, members) for y in x]
    return x


MADE = []        # the tensors handed to constructors, as (tensor, copy)
LEAVES = None    # when a list: differentiable coefficients are collected here
HANDED = []      # and here what the constructors are handed: these, or made of them
REGISTER = False    # as parameters of the modules, where they take them


def leaf(v):
    if LEAVES is not None:
        v = torch.nn.Parameter(v.clone()) if REGISTER else v.clone().requires_grad_()
        LEAVES.append(v)
        HANDED.append(v)
    return v


def handed(v, parts):
    """Notes that v is handed to a constructor in place of its parts."""
    MADE.append((v, v.detach().clone()))
    if LEAVES is not None:
        HANDED[:] = [h for h in HANDED if not any(h is p for p in parts)] + [v]
    return v


def coef(c, shape=None):
    v = torch.tensor([flt(x) for x in c["v"]])
    v = v[0].clone() if len(v) == 1 and not c.get("b") else v
    v = leaf(v)
    MADE.append((v, v.detach().clone()))
    return v


def kw(**named):
    return {k: SCALES[s] for k, s in named.items() if SCALES[s] is not None}


def tp(p):
    """A temperature parameter."""
    k = p["kind"]
    o = kw(scaling=p["outer"])
    if k == "const":
        return temperature.ConstantParameter(coef(p["p"]), **kw(p_scale=p["p"]["s"]), **o)
    if k == "shear":
        return temperature.ShearModulusScaling(coef(p["A"]), tp(p["mu"]), **kw(A_scale=p["A"]["s"]), **o)
    if k == "shearexp":
        return temperature.ShearModulusScalingExp(coef(p["A"]), tp(p["mu"]), **kw(A_scale=p["A"]["s"]), **o)
    if k == "mts":
        return temperature.MTSScaling(
            coef(p["tau0"]), coef(p["g0"]), coef(p["q"]), coef(p["p"]), num(p["k"]),
            num(p["b"]), tp(p["mu"]),
            **kw(tau0_scale=p["tau0"]["s"], g0_scale=p["g0"]["s"], q_scale=p["q"]["s"], p_scale=p["p"]["s"]), **o)
    if k == "kmrate":
        return temperature.KMRateSensitivityScaling(
            coef(p["A"]), tp(p["mu"]), num(p["b"]), num(p["k"]),
            cutoff=flt(p["cutoff"]), **kw(A_scale=p["A"]["s"]), **o)
    if k == "kmvisc":
        return temperature.KMViscosityScaling(
            coef(p["A"]), coef(p["B"]), tp(p["mu"]), num(p["eps0"]), num(p["b"]),
            num(p["k"]), **kw(A_scale=p["A"]["s"], B_scale=p["B"]["s"]), **o)
    if k == "poly":
        cs = [coef(c) for c in p["coefs"]]
        cs = handed(torch.stack(cs), cs)
        return temperature.PolynomialScaling(cs, **kw(coef_scale_fn=p["coefs"][0]["s"]), **o)
    if k == "piecewise":
        cs = [coef(c) for c in p["values"]]
        return temperature.PiecewiseScaling(
            torch.tensor([flt(x) for x in p["control"]]), handed(torch.stack(cs, dim=-1), cs),
            **kw(values_scale_fn=p["values"][0]["s"]), **o)
    cls = {"arrh": temperature.ArrheniusScaling, "invarrh": temperature.InverseArrheniusScaling}[k]
    return cls(coef(p["A"]), coef(p["Q"]), **kw(A_scale=p["A"]["s"], Q_scale=p["Q"]["s"]), **o)


def vec(ps):
    """Parameters of the components of a vector-valued parameter."""
    cs = [coef(p["p"]) for p in ps]
    return temperature.ConstantParameter(handed(torch.stack(cs, dim=-1), cs))


def iso(p):
    k = p["kind"]
    if k == "voce":
        return hardening.VoceIsotropicHardeningModel(tp(p["R"]), tp(p["d"]))
    if k == "theta":
        return hardening.Theta0VoceIsotropicHardeningModel(tp(p["tau"]), tp(p["theta"]))
    return hardening.Theta0RecoveryVoceIsotropicHardeningModel(
        tp(p["tau"]), tp(p["theta"]), tp(p["R0"]), tp(p["r1"]), tp(p["r2"]))


def kin(p):
    k = p["kind"]
    if k == "none":
        return hardening.NoKinematicHardeningModel()
    if k == "fa":
        return hardening.FAKinematicHardeningModel(tp(p["C"]), tp(p["g"]))
    if k == "fanr":
        return hardening.FAKinematicHardeningModelNoRecovery(tp(p["C"]), tp(p["g"]))
    if k == "farec":
        return hardening.FAKinematicHardeningModel(tp(p["C"]), tp(p["g"]), b=tp(p["b"]), r=tp(p["r"]))
    if k == "chab":
        return hardening.ChabocheHardeningModel(vec(p["C"]), vec(p["g"]))
    if k == "chabrec":
        return hardening.ChabocheHardeningModelRecovery(vec(p["C"]), vec(p["g"]), vec(p["b"]), vec(p["r"]))
    return hardening.SuperimposedKinematicHardening([kin(m) for m in p["models"]])


def num(x):
    return leaf(torch.tensor(flt(x)))


def barrier(p):
    """The switching activation energy, with or without a scaling function."""
    g = num(p["g0"])
    v = int(round(1000 * abs(flt(p["mu"]["p"]["v"][0] if p["mu"]["kind"] == "const" else p["b"])))) % 3
    h = handed([g, g / 2.0, g - 0.125][v], [g])
    return [(h, {}), (h, {"g0_scale": lambda x: 2.0 * x}), (h, {"g0_scale": lambda x: x + 0.125})][v]


def flow(p):
    k = p["kind"]
    if k in ("km", "softkm"):
        g0, o = barrier(p)
    if k == "perfect":
        return flowrules.PerfectViscoplasticity(tp(p["n"]), tp(p["eta"]))
    if k == "isokin":
        return flowrules.IsoKinViscoplasticity(tp(p["n"]), tp(p["eta"]), tp(p["s0"]), iso(p["iso"]), kin(p["kin"]))
    if k == "sum":
        return flowrules.SuperimposedFlowRule([flow(m) for m in p["models"]])
    if k == "km":
        return flowrules.KocksMeckingRegimeFlowRule(
            flow(p["m1"]), flow(p["m2"]), g0, tp(p["mu"]), num(p["b"]), num(p["eps0"]), num(p["k"]),
            eps=torch.tensor(flt(p["eps"])), **o)
    if k == "softkm":
        return flowrules.SoftKocksMeckingRegimeFlowRule(
            flow(p["m1"]), flow(p["m2"]), g0, tp(p["mu"]), num(p["b"]), num(p["eps0"]), num(p["k"]),
            num(p["sf"]), eps=torch.tensor(flt(p["eps"])), **o)
    return flowrules.RateIndependentFlowRuleWrapper(flow(p["base"]), *[num(p[k]) if LEAVES is not None else flt(p[k])
                                                                         for k in ("lambda", "epsref")])


def dam(p):
    k = p["kind"]
    if k == "none":
        return damage.NoDamage()
    if k == "constant":
        return damage.ConstantDamage(tp(p["R"]))
    if k == "hayhurst":
        return damage.HayhurstLeckie(tp(p["A"]), tp(p["xi"]), tp(p["phi"]))
    return damage.LarsonMillerDamage(tp(p["C"]), tp(p["A"]), tp(p["B"]))


def model(p):
    if p["kind"] == "inelastic":
        return models.InelasticModel(tp(p["E"]), flow(p["flow"]))
    return models.DamagedInelasticModel(tp(p["E"]), flow(p["flow"]), dmodel=dam(p["damage"]))
