"""C09: batches of mixed-control tests (specs/Simulation.tla)."""
import random
import torch
from simlib import records, Tests, failed
from vlib import THOROUGH, SEED


MAXBATCH = 100 if THOROUGH else 5


def batches(t, rnd):
    """(members, control) pairs: sub-batches, orders, repetitions and every
    kind of mixture."""
    all_ = list(range(t.nb))
    can = [m for m in all_ if t.rev[m]]
    out = [(all_, [0] * t.nb)]
    for m in all_:
        out.append(([m], [0]))
        if m in can:
            out.append(([m], [1]))
    for k in (0, 1):
        ctl = [1 if (m + k) % 2 and m in can else 0 for m in all_]
        out.append((all_, ctl))
        p = rnd.sample(all_, t.nb)
        out.append((p, [ctl[m] for m in p]))
    if len(can) == t.nb:
        out.append((all_, [1] * t.nb))
    big = [rnd.choice(all_) for _ in range(5)]
    out.append((big, [rnd.randrange(2) if m in can else 0 for m in big]))
    seen, res = set(), []
    for m, c in out:
        k = (tuple(m), tuple(c))
        if k not in seen:
            seen.add(k)
            res.append((m, c))
    return res[:1] + rnd.sample(res[1:], min(len(res) - 1, MAXBATCH))


def scn(r):
    t = Tests(r)
    rnd = random.Random(r["c"])
    fails, n = [], 0
    for i, (mem, ctl) in enumerate(batches(t, rnd)):
        opts = [dict(block_size=1)]
        # (with damage a step can have several solutions, and larger blocks may find another one)
        if r["law"]["kind"] == "inelastic" and (i == 0 or rnd.random() < 0.4):
            opts.append(dict(block_size=rnd.choice([2, 3, t.n, t.n + 2]), direct_solve_method=rnd.choice(["thomas", "pcr"]),
                             guess_type=rnd.choice(["zero", "previous"])))
        for o in opts:
            it = t.integrator(mem, adjoint=rnd.random() < 0.5, **o)
            times, temps = t.t[:, mem].clone(), t.T[:, mem].clone()
            data = torch.stack([(t.y[:, m, 0] if c else t.x[:, m]) for m, c in zip(mem, ctl)], dim=1)
            control = torch.tensor(ctl)
            args = (times, temps, data, control)
            keep = [a.clone() for a in args]
            runs = [("solve_both", lambda: it.solve_both(*args))]
            if sum(ctl) == 0:
                runs.append(("solve_strain", lambda: it.solve_strain(times, data, temps)))
            if sum(ctl) == len(ctl):
                runs.append(("solve_stress", lambda: it.solve_stress(times, data, temps)))
            for name, f in runs:
                with torch.no_grad():
                    got, err = failed(f, quiet=True)
                n += 1
                head = f"{t.what} {name} tests {mem} control {ctl} {o}"
                if err:
                    if o["block_size"] == 1:
                        fails.append(("no solution", f"{head}: {err}"))
                    continue
                m = t.state_error(got, mem, ctl)
                if m:
                    fails.append(("history", f"{head}: {m}"))
                if not all(torch.equal(a, b) for a, b in zip(args, keep)):
                    fails.append(("altered", f"{head}: an argument was modified"))
        if len(fails) > 2:
            break
    return fails, n


def run(chk):
    recs = records(chk, 1, 2500 if THOROUGH else 100, SEED + 9)
    recs = [r for r in recs if r["steps"] > 0]
    chk.extra["stress-controlled"] = sum(any(v >= r["steps"] for v in r["rev"]) for r in recs)
    chk.replay(scn, recs, "batch", sample=1)
