"""C03: blocked bidiagonal solves (specs/Bidiagonal.tla)."""
import torch
from pyoptmat import chunktime
from vlib import THOROUGH, SEED, close, fmap, lay

INV = ["Equivalent", "Decoupled", "SolvedExactly", "PcrComplete"]


def factors(p, A, B):
    n = p["nblk"]
    yield "thomas", chunktime.BidiagonalThomasFactorization(A, B)
    yield "pcr", chunktime.BidiagonalPCRFactorization(A, B)
    yield "hybrid()", chunktime.BidiagonalHybridFactorization(A, B)
    for m in sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, n - 1, n, n + 1, 31, 32, 63, 64} & set(range(n + 3))):
        yield f"hybrid({m})", chunktime.BidiagonalHybridFactorization(A, B, min_size=m)


def scn(s):
    fails, n = [], 0
    p = s["P"]
    A = lay(torch.tensor(fmap(p["A"], 4)), s["c"])
    B = lay(torch.tensor(fmap(p["B"], 4)).reshape(p["nblk"] - 1, p["nb"], p["n"], p["n"]), s["c"] // 5)
    V = [lay(torch.tensor(fmap(v, 3)).unsqueeze(-1), s["c"] + i) for i, v in enumerate(p["V"])]           # nblk, nb, n, 1
    X = [torch.tensor(fmap(x, 3)).transpose(0, 1).unsqueeze(-1) for x in s["X"]]

    def flat(t):
        return t.squeeze(-1).transpose(0, 1).flatten(start_dim=1)
    A0, B0, V0 = A.clone(), B.clone(), [v.clone() for v in V]

    def chk(what, got, want):
        nonlocal n
        n += 1
        m = close(got, want, 1e-9)
        if m:
            fails.append(("solution", f"case {s['c']} nblk={p['nblk']} sblk={p['n']} nb={p['nb']} {what}: {m}"))

    def same(what):
        if not (torch.equal(A, A0) and torch.equal(B, B0)):
            fails.append(("altered", f"case {s['c']} {what}: the blocks of the matrix were modified"))
        for v, v0 in zip(V, V0):
            if not torch.equal(v, v0):
                fails.append(("altered", f"case {s['c']} {what}: a right-hand side was modified"))

    for name, M in factors(p, A, B):
        for h, op in enumerate(p["hist"]):
            r = op["rhs"] - 1
            if op["call"] == "matvec":
                chk(f"{name} call {h + 1} matvec", M.matvec(V[r]), X[r])
            else:
                chk(f"{name} call {h + 1} forward", M(flat(V[r])), flat(X[r]))
            same(f"{name} call {h + 1}")
            if fails:
                return fails[:3], n
        if (M.n, tuple(M.shape)) != (p["nblk"] * p["n"], (p["nb"], p["nblk"] * p["n"], p["nblk"] * p["n"])):
            fails.append(("shape", f"{name}: n={M.n} shape={M.shape}"))
    # one operator, inverted repeatedly, and the solver context
    for inv in (chunktime.BidiagonalThomasFactorization, chunktime.BidiagonalPCRFactorization,
                lambda a, b: chunktime.BidiagonalHybridFactorization(a, b, min_size=2)):
        J = chunktime.BidiagonalForwardOperator(A, B, inverse_operator=inv)
        for h, op in enumerate(p["hist"]):
            r = op["rhs"] - 1
            chk(f"inverse() {h + 1}", J.inverse()(flat(V[r])), flat(X[r]))
            chk(f"product {h + 1}", J(flat(X[r])), flat(V[r]))
            for meth in ("direct", "dense"):
                chk(f"context {meth}", chunktime.ChunkTimeOperatorSolverContext(meth).solve(J, flat(V[r])),
                    flat(X[r]))
            same("operator")
    # gradients flow through a solve: d (sum x) / d v solves the transposed system
    ws = [torch.ones_like(flat(X[0]))]
    for name, M in factors(p, A, B):
        v = flat(V[0]).clone().requires_grad_(True)
        M(v).backward(ws[0])
        D = chunktime.BidiagonalForwardOperator(A, B).to_diag().to_dense()
        chk(f"{name} gradient", torch.bmm(D.transpose(-1, -2), v.grad.unsqueeze(-1)).squeeze(-1), ws[0])
    return fails[:3], n


def run(chk):
    nblks = list(range(1, 14)) + [15, 16, 17, 20, 24, 31, 32, 33, 64, 65, 100] + \
        ([40, 47, 48, 63, 127, 128, 129, 191, 260] if THOROUGH else [])
    recs = chk.spec("Bidiagonal", consts=dict(
        Seed=SEED, Cases=range(1, (20 if THOROUGH else 5) * len(nblks) + 1), NBlks=nblks, SBlks=[1, 2, 3, 4] if THOROUGH else [1, 2, 3],
        SBats=[1, 2, 3], MinSizes={0, 1, 2, 3, 4, 7, 8, 9}, DesignEvery=2 if THOROUGH else 4, DesignUpTo=129 if THOROUGH else 33, MaxHist=4),
        invariants=INV)
    chk.replay(scn, recs, "bidiagonal")
