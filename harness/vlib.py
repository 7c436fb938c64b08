"""Shared machinery of the checks: running TLC, replaying its behaviours in the
real code on all cores, reporting violations, writing evidence."""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The check itself could not do its work (exit 2)."""


# --------------------------------------------------------------------------
# values exported by the specification

def dec_int(v):
    if isinstance(v, int):
        return v
    s, r = v[0], 0
    for limb in reversed(v[1:]):
        r = (r << 30) | limb
    return -r if s < 0 else r


def rat(v):
    """A rational <<n, d>> of the specification as a Fraction."""
    return Fraction(dec_int(v[0]), dec_int(v[1]))


def flt(v):
    return float(rat(v))


def enc_int(n):
    if abs(n) < 2 ** 30:
        return n
    out, a = [1 if n > 0 else -1], abs(n)
    while a:
        out.append(a & (2 ** 30 - 1))
        a >>= 30
    return out


def enc(x):
    """Nested sequence of floats -> rationals as the specification reads them."""
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    f = Fraction(x)
    return [enc_int(f.numerator), enc_int(f.denominator)]


def fmap(v, depth):
    """Nested sequence (of the given depth) of rationals -> floats."""
    if depth == 0:
        return flt(v)
    return [fmap(x, depth - 1) for x in v]


# --------------------------------------------------------------------------
# scratch, TLC

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_")
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


_classes = None


def java_classes():
    """Compile the module overrides (java/*.java) into scratch."""
    global _classes
    if _classes is None:
        d = os.path.join(scratch(), "classes")
        os.makedirs(d)
        src = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java")))
               if f.endswith(".java")]
        r = subprocess.run(["javac", "-cp", TLA, "-d", d] + src, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac failed:\n" + r.stderr)
        _classes = d
    return _classes


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        return f"<<{v.numerator}, {v.denominator}>>"
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, range):
        return f"{v.start}..{v.stop - 1}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    if isinstance(v, Raw):
        return v.s
    raise TypeError(type(v))


class Raw:
    """A TLA+ expression given as text."""

    def __init__(self, s):
        self.s = s


_ntlc = 0


def run_tlc(module, consts=None, invariants=(), properties=(), spec="Spec", workers=None,
            heap="6g", young="4g", timeout=850, extra=(), postcondition=None, constraint=None,
            expect_violation=False, jprops=(), files=None):
    """Check the specification with TLC; returns (exported records, stats).

    A violated invariant or any other TLC error is a defect of the
    specification itself: MachineryError."""
    global _ntlc
    _ntlc += 1
    d = os.path.join(scratch(), f"tlc{_ntlc}_{module}")
    os.makedirs(d)
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    mc = "MC" + module
    lines = [f"---- MODULE {mc} ----", f"EXTENDS {module}"]
    cfg = [f"SPECIFICATION {spec}"]
    for k, v in (consts or {}).items():
        lines.append(f"mc_{k} == {tla(v)}")
        cfg.append(f"CONSTANT {k} <- mc_{k}")
    lines.append("====")
    if invariants:
        cfg.append("INVARIANTS " + " ".join(invariants))
    if properties:
        cfg.append("PROPERTIES " + " ".join(properties))
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    with open(os.path.join(d, mc + ".tla"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(d, mc + ".cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    out = os.path.join(d, "out.json")
    open(out, "w").close()
    cmd = ["java", "-XX:+UseParallelGC", f"-Xms{heap}", f"-Xmx{heap}", f"-Xmn{young}", "-Xss64m",
           "-cp", f"{java_classes()}:{TLA}:{CM}", f"-DTLA-Library={SPECS}", f"-Dverif.out={out}", f"-Djava.io.tmpdir={d}",
           *jprops, "tlc2.TLC", "-deadlock", "-workers", str(workers or NPROC),
           "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-config", mc + ".cfg",
           *extra, mc + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f"TLC timed out on {module}") from e
    text = r.stdout
    stats = {"module": module, "wall_s": round(time.time() - t0, 2), "rc": r.returncode}
    for line in text.splitlines():
        if "distinct states found" in line and line[0].isdigit():
            w = line.replace(",", "").split()
            stats["transitions"], stats["states"] = int(w[0]), int(w[3])
        if line.startswith("The depth of the complete state graph"):
            stats["depth"] = int(line.rstrip(".").split()[-1])
    if expect_violation:
        stats["output"] = text
        return _records(out), stats
    if r.returncode != 0 or "No error has been found" not in text and "-simulate" not in extra:
        keep = os.path.join(VERIF, "replays", "tlc_error.txt")
        os.makedirs(os.path.dirname(keep), exist_ok=True)
        with open(keep, "w") as f:
            f.write(text + r.stderr)
        i = max(text.find("Error:"), 0)
        j = text.find("*** Errors")
        i = j if j >= 0 else i
        raise MachineryError(f"TLC rejects {module}: {text[i:i + 1500]} (full output {keep})")
    recs = _records(out)
    shutil.rmtree(d, ignore_errors=True)
    return recs, stats


def _records(out):
    with open(out) as f:
        # (checking a liveness property evaluates an action more than once)
        return [json.loads(line) for line in sorted(set(f))]


# --------------------------------------------------------------------------
# the code under test

def import_target():
    """Import torch and /repo's pyoptmat (never a cached or installed copy)."""
    sys.pycache_prefix = os.path.join(scratch(), "pyc")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import torch
    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)
    try:
        import pyoptmat
        pkgs = ["chunktime", "damage", "experiments", "flowrules", "hardening", "models",
                "neuralode", "ode", "optimize", "scaling", "solvers", "temperature", "utility"]
        import importlib
        for p in pkgs:
            importlib.import_module("pyoptmat." + p)
    except Exception as e:      # the code under test does not even load
        return e
    f = os.path.abspath(pyoptmat.ode.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise MachineryError(f"pyoptmat imported from {f}, not from {REPO}")
    return None


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang("the call did not return in time")


def layouts(start):
    """The checks' own calls of torch.tensor return, every other time, a tensor of
    the same values whose memory is laid out the other way round: what is computed
    may not depend on it.  The choice is the same whenever a scenario is replayed."""
    import torch
    make = torch.tensor
    if hasattr(make, "restart"):
        make.restart(start)
        return
    n = [start]

    def tensor(data, *args, requires_grad=False, **kwargs):
        t = make(data, *args, **kwargs)
        if sys._getframe(1).f_code.co_filename.startswith(VERIF) and t.ndim > 1:
            n[0] += 1
            if n[0] % 2:
                t = t.mT.contiguous().mT
        return t.requires_grad_(requires_grad) if requires_grad else t

    tensor.restart = lambda k: n.__setitem__(0, k)
    torch.tensor = tensor


_worker_fn = None
CASE_LIMIT = 120


def _run_one(scn):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        layouts(len(json.dumps(scn, default=str)))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = _worker_fn(scn)
        return res if res is not None else ([], 1)
    except MachineryError as e:
        return ("machinery", str(e))
    except Hang as e:
        return ([("no-answer", str(e))], 1)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ([("exception", f"{type(e).__name__}: {str(e)[:300]} at "
                  + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-5:]))], 1)
    finally:
        signal.alarm(0)


def _init(fn):
    global _worker_fn
    _worker_fn = fn
    null = os.open(os.devnull, os.O_WRONLY)     # numerical libraries print there
    os.dup2(null, 1)
    import torch
    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)


def replay_all(fn, scenarios, nproc=None):
    """Run fn(scenario) -> (failures, number of comparisons) for every scenario,
    in forked workers.  Yields (scenario, failures, n)."""
    global _worker_fn
    _worker_fn = fn
    nproc = nproc or NPROC
    if len(scenarios) < 4 or nproc == 1:
        for s in scenarios:
            r = _run_one(s)
            if r[0] == "machinery":
                raise MachineryError(r[1])
            yield (s, *r)
        return
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(nproc, mp_context=ctx, initializer=_init, initargs=(fn,)) as ex:
        futs = [(s, ex.submit(_run_one, s)) for s in scenarios]
        for s, fu in futs:
            try:
                r = fu.result()
            except cf.process.BrokenProcessPool:
                yield s, [("crash", "the process running this scenario died")], 1
                return
            if r[0] == "machinery":
                raise MachineryError(r[1])
            yield (s, *r)


# --------------------------------------------------------------------------
# one check

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["status"] == "known"]


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.tlc = []
        self.comparisons = 0
        self.scenarios = 0
        self.violations = []
        self.known = {}
        self.samples = []
        self.distinct = set()
        self.assumptions = []
        self.extra = {}
        self.rule = ""

    def spec(self, module, **kw):
        recs, st = run_tlc(module, **kw)
        self.tlc.append(st)
        return recs

    def fail(self, scn, clause, msg, group=""):
        for k in known_findings():
            if k["property"] == self.prop and k["key"] == f"{group}:{clause}:{scn_key(scn)}":
                self.known[k["key"]] = k["what"]
                return
        self.violations.append((scn, clause, msg, group))

    def replay(self, fn, scenarios, group="", nproc=None, sample=2, collect=None):
        """Replay scenarios in the code under test."""
        scenarios = list(scenarios)
        for s, fails, n, *more in replay_all(fn, scenarios, nproc):
            if more and collect:
                collect(more[0], s)
            self.scenarios += 1
            self.comparisons += n
            self.distinct.add(scn_key(s))
            for clause, msg in fails:
                self.fail(s, clause, msg, group)
        for s in scenarios[:sample]:
            txt = json.dumps(s, default=str)
            self.samples.append(json.loads(txt) if len(txt) < 4000 else txt[:1500] + " ...")

    def finish(self):
        d = os.path.join(VERIF, "replays", self.prop)
        shutil.rmtree(d, ignore_errors=True)
        shown = 0
        for scn, clause, msg, group in self.violations:
            if shown >= 5:
                break
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"{shown}.json")
            with open(p, "w") as f:
                json.dump({"property": self.prop, "group": group, "clause": clause,
                           "message": msg, "scenario": scn}, f, default=str)
            print(f"  {group} {clause}: {msg}"[:600])
            print(f"VIOLATION property={self.prop} replay={p}")
            shown += 1
        for k, what in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        cov = {
            "states": sum(s.get("states", 0) for s in self.tlc),
            "transitions": sum(s.get("transitions", 0) for s in self.tlc),
            "traces_validated_against_impl": self.scenarios,
            "evaluations": self.comparisons,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule or "each behaviour exported by TLC is one scenario; evaluations are "
                    "comparisons of an observed value with the specification's",
            "samples": self.samples[:8],
            "specifications": [{k: v for k, v in s.items() if k != "output"} for s in self.tlc],
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop} {TIER}: {self.scenarios} scenarios, {self.comparisons} comparisons, "
              f"{cov['states']} states, {len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0


def scn_key(s):
    return hashlib.sha1(json.dumps(s, sort_keys=True, default=str).encode()).hexdigest()[:12]


# --------------------------------------------------------------------------
# comparisons

def close(got, want, tol, scale=None):
    """None if the tensor agrees with the nested list of floats, else a message."""
    import torch
    g = got.detach() if hasattr(got, "detach") else torch.as_tensor(got, dtype=torch.float64)
    w = torch.as_tensor(want, dtype=torch.float64)
    if tuple(g.shape) != tuple(w.shape):
        return f"shape {tuple(g.shape)}, expected {tuple(w.shape)}"
    if g.numel() == 0:
        return None
    g = g.to(torch.float64)
    s = scale if scale is not None else max(1.0, float(w.abs().max()))
    err = (g - w).abs()
    bad = ~(err <= tol * s)
    if bool(bad.any()):
        i = tuple(int(x) for x in torch.nonzero(bad)[0])
        return f"at {i}: got {float(g[i])!r}, specification {float(w[i])!r} ({int(bad.sum())} of {g.numel()} differ)"
    return None


# --------------------------------------------------------------------------
# storage

LAYOUTS = ("plain", "permuted", "strided", "slice", "expanded")


def lay(x, k):
    """The values of x in another storage layout (k modulo the number of layouts);
    storage that does not belong to the values holds NaN (or -77)."""
    import torch
    how = LAYOUTS[k % len(LAYOUTS)]
    if how == "plain" or x.dim() == 0 or x.numel() == 0:
        return x.clone()
    if how == "permuted":
        r = tuple(range(x.dim()))[::-1]
        return x.permute(r).contiguous().permute(r)
    junk = float("nan") if x.dtype.is_floating_point else (-77 if x.dtype != torch.bool else False)
    if how == "strided":
        buf = torch.full((*x.shape[:-1], 2 * x.shape[-1]), junk, dtype=x.dtype)
        buf[..., ::2] = x
        return buf[..., ::2]
    if how == "slice":
        buf = torch.full((x.shape[0] + 2, *(n + 1 for n in x.shape[1:])), junk, dtype=x.dtype)
        v = buf[(slice(1, -1), *(slice(0, -1) for _ in x.shape[1:]))]
        v[...] = x
        return v
    for d in range(x.dim()):        # expanded along the dimensions it is constant in
        if bool((x == x.narrow(d, 0, 1)).all()):
            x = x.narrow(d, 0, 1).expand_as(x)
    return x
