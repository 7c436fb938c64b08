"""C07: linear solvers and preconditioners (specs/LinSolve.tla)."""
import torch
from pyoptmat import solvers
from vlib import THOROUGH, SEED, close, fmap, lay


class Exact:
    """A preconditioner operator that stands for a given matrix."""

    def __init__(self, M):
        self.M = M

    def dot(self, x):
        return (self.M @ x.unsqueeze(-1)).squeeze(-1)


def scn(s):
    fails, n = [], 0
    A, b = (lay(torch.tensor(fmap(s[k], d)), s["c"] // m) for k, d, m in (("A", 3, 1), ("b", 2, 5)))
    x0, x = lay(torch.tensor(fmap(s["x0"], 2)), s["c"] // 2), torch.tensor(fmap(s["x"], 2))
    nb, sz = b.shape
    keep = [t.clone() for t in (A, b, x0)]

    def chk(what, got, want, tol=1e-8):
        nonlocal n
        n += 1
        m = close(got, want, tol)
        if m:
            fails.append(("solution", f"case {s['c']} n={sz} batch={nb} grades={s['grade']} {what}: {m}"))
        if not all(torch.equal(p, q) for p, q in zip(keep, (A, b, x0))):
            fails.append(("input", f"case {s['c']} {what}: an input was modified"))

    chk("lu_linear_solve", solvers.lu_linear_solve(A, b), x, 1e-11)
    LU = solvers.LUPreconitionerOperator(A)
    chk("LU operator", LU.dot(b), x, 1e-11)
    chk("LU operator, second right-hand side", LU.dot(2 * b), 2 * x, 1e-11)
    chk("identity operator", solvers.NoOp().dot(b), b, 0)
    if not s["zerodiag"]:
        jac = torch.tensor(fmap(s["jac"], 2))
        chk("jacobi_iteration_linear_solve", solvers.jacobi_iteration_linear_solve(A, b), jac, 1e-12)
        chk("Jacobi operator", solvers.JacobiPreconitionerOperator(A).dot(b), jac, 1e-12)
    pre = {"none": None, "LU": LU, "exact inverse": Exact(torch.linalg.inv(A)),
           "LU of another matrix": solvers.LUPreconitionerOperator(A + 0.25 * torch.eye(sz))
           if bool((torch.linalg.cond(A + 0.25 * torch.eye(sz)) < 100).all()) else None}
    if not s["zerodiag"]:
        pre["Jacobi"] = solvers.JacobiPreconitionerOperator(A)
    for pn, M in pre.items():
        if M is None and pn != "none":
            continue
        for guess in (None, x0):
            for maxiter, check in ((sz + 1, 1), (sz + 2, 2), (100 if sz <= 3 else 3 * sz + 3, 5), (2 * sz + 2, 1),
                                   (sz + 1, sz + 3), (sz + 1, max(2, sz)), (sz + 2, 7)):
                kw = {} if M is None else {"M": M}
                chk(f"gmres preconditioner={pn} guess={guess is not None} maxiter={maxiter} check={check}",
                    solvers.gmres(A, b, x0=guess, maxiter=maxiter, check=check, **kw), x)
    g, k = solvers.gmres(A, b, maxiter=sz + 1, check=1, return_iters=True)
    chk("gmres with return_iters", g, x)
    n += 1
    if k > sz:
        fails.append(("iterations", f"case {s['c']}: {k} iterations reported for size {sz}"))
    chk("lu_gmres", solvers.lu_gmres(A, b), x)
    chk("lu_gmres guess", solvers.lu_gmres(A, b, x0=x0, tol=1e-9), x)
    if not s["zerodiag"]:
        chk("jacobi_gmres", solvers.jacobi_gmres(A, b, maxiter=2 * sz + 2, check=1), x)
        chk("jacobi_gmres default", solvers.jacobi_gmres(A, b), x)
    # each member alone gives the same
    for m in range(nb):
        chk(f"gmres member {m} alone", solvers.gmres(A[m:m + 1], b[m:m + 1], maxiter=sz + 1, check=1), x[m:m + 1])
        chk(f"lu member {m} alone", solvers.lu_linear_solve(A[m:m + 1], b[m:m + 1]), x[m:m + 1], 1e-11)
    # nonlinear solvers on the affine residual A y - b: the solution in one step,
    # starting from x0 (exact for some members only)
    J = A.clone()

    def fn(y):
        return (J @ y.unsqueeze(-1)).squeeze(-1) - b, J

    chk("newton_raphson", solvers.newton_raphson(fn, x0)[0], x)
    chk("newton_raphson_bt", solvers.newton_raphson_bt(fn, x0)[0], x)
    R = solvers.PreconditionerReuseNonlinearSolver()
    chk("preconditioner reuse", R.solve(fn, x0)[0], x)
    J = A * 1.25
    chk("preconditioner reuse, second system", R.solve(fn, x0)[0], x / 1.25)
    return fails[:3], n


def run(chk):
    recs = chk.spec("LinSolve", consts=dict(
        Seed=SEED, Cases=range(1, 1500 if THOROUGH else 151), Ns=[1, 2, 3, 4, 2, 3] + ([5, 6, 8] if THOROUGH else [5]), NBs=[1, 2, 3, 4]),
        invariants=["Solved", "Reached", "NeverBeyondN"])
    chk.extra["members_of_lower_grade"] = sum(1 for r in recs if min(r["grade"]) < max(r["grade"]))
    chk.extra["zero_rhs_members"] = sum(1 for r in recs if 0 in r["grade"])
    chk.replay(scn, recs, "linear", sample=1)
