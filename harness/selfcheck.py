"""Self-check of the arithmetic the specifications are evaluated with."""
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402
from vlib import rat, MachineryError  # noqa: E402


def isrational(v):
    return (isinstance(v, list) and len(v) == 2 and
            all(isinstance(x, int) or (isinstance(x, list) and x and all(isinstance(y, int) for y in x)) for x in v)
            and not isinstance(v[0], list)) or (isinstance(v, list) and len(v) == 2 and isinstance(v[0], list)
                                                and v[0] and v[0][0] in (-1, 1) and isinstance(v[0][-1], int)
                                                and (isinstance(v[1], int) or isinstance(v[1][-1], int)))


def same(a, b, tol, path=""):
    if isinstance(a, dict):
        for k in a:
            same(a[k], b[k], tol, path + "." + k)
    elif isrational(a):
        x, y = rat(a), rat(b)
        if abs(x - y) > tol * max(1, abs(x)):
            raise MachineryError(f"override differs from the definition at {path}: {a} {b}")
    elif isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, tol, f"{path}[{i}]")
    elif a != b:
        raise MachineryError(f"override differs from the definition at {path}: {a} {b}")


def without(names):
    """TLC with these overrides left out of the class path."""
    full = vlib.java_classes()
    d = os.path.join(vlib.scratch(), "part_" + "_".join(names))
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(full):
        if not any(f == n + ".class" or f.startswith(n + "$") for n in names):
            os.link(os.path.join(full, f), os.path.join(d, f))
    return d


def evaluate(part, drop):
    full = vlib.java_classes()
    try:
        if drop:
            vlib._classes = without(drop)
        recs, _ = vlib.run_tlc("SelfCheck", consts=dict(Part=part), timeout=600)
    finally:
        vlib._classes = full
    return {r["c"]: r["v"] for r in recs}


def main():
    # Rat: definitions on TLC's own integers against the override
    a, b = evaluate("rat", ["Rat", "RealFn", "Mat", "Dual"]), evaluate("rat", [])
    assert len(a) == 40 and len(b) == 40
    for c in a:
        same(a[c], b[c], 0, f"case {c} ")
        v = {k: (rat(x) if isinstance(x, list) else x) for k, x in b[c].items()}
        x, y = v["a"], v["b"]
        assert (v["add"], v["sub"], v["mul"]) == (x + y, x - y, x * y)
        assert v["div"] == (x / y if y else 0) and v["pow"] == x ** v["z"]
        assert (v["lt"], v["le"], v["eq"]) == (x < y, x <= y, x == y) and v["eqself"]
        assert v["floor"] == math.floor(x) and v["trunc"] == math.floor(x * 16) / 16
    # RealFn and Mat: definitions on big rationals against the overrides
    a, b = evaluate("real", ["RealFn", "Mat", "Dual"]), evaluate("real", [])
    tol = vlib.Fraction(1, 2**88)
    for c in a:
        same(a[c], b[c], tol, f"case {c} ")
        v = {k: float(rat(x)) for k, x in b[c].items() if isrational(x)}
        for k, w in dict(exp=math.exp(v["x"] / 3), ln=math.log(v["p"]), pow=v["p"] ** (v["e"] / 5),
                         sqrt=math.sqrt(v["p"]), tanh=math.tanh(v["x"] / 20), log10=math.log10(v["p"])).items():
            assert abs(v[k] - w) <= 1e-13 * max(1, abs(w)), (c, k, v[k], w)
    # Dual: definitions against the overrides, and derivatives against difference quotients
    a, b = evaluate("dual", ["Dual"]), evaluate("dual", [])
    for c in a:
        same(a[c], b[c], tol, f"case {c} ")
        for k, (num, der) in [*b[c]["quot"].items(), *b[c]["quoty"].items()]:
            x, y = float(rat(num)), float(rat(der))
            assert abs(x - y) <= 1e-6 * max(1, abs(y)), (c, k, x, y)
    print("self-check passed: Rat, RealFn, Mat, Dual")


if __name__ == "__main__":
    try:
        main()
        rc = 0
    except MachineryError as e:
        print("ERROR", e)
        rc = 2
    finally:
        vlib.cleanup()
    sys.exit(rc)
