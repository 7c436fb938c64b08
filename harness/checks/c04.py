"""C04: representations of blocked matrices (specs/Blocked.tla)."""
import torch
from pyoptmat import chunktime
from vlib import THOROUGH, SEED, lay


def scn(s):
    fails, n = [], 0
    dense = torch.tensor(s["dense"], dtype=torch.float64)
    stored = torch.tensor(s["stored"], dtype=torch.bool)
    size = s["nblk"] * s["n"]
    nb, sb = s["nb"], s["n"]
    data = [lay(torch.tensor(d, dtype=torch.float64), s["c"] + 2 * i) for i, d in enumerate(s["data"])]
    data0 = [d.clone() for d in data]
    name = f"nblk={s['nblk']} sblk={sb} nb={nb} diags={s['diags']}"
    diags = list(s["diags"])

    def need(clause, ok, msg):
        nonlocal n
        n += 1
        if not ok:
            fails.append((clause, f"{name}: {msg}"))

    M = chunktime.SquareBatchedBlockDiagonalMatrix(data, diags)
    need("shape", (M.n, tuple(M.shape)) == (size, (nb, size, size)), f"n={M.n} shape={tuple(M.shape)}")
    need("nnz", M.nnz == s["nnz"], f"nnz={M.nnz}, specification {s['nnz']}")
    need("dtype", M.dtype == torch.float64 and M.device == data[0].device, f"{M.dtype}")
    D = M.to_dense()
    need("dense", D.shape == dense.shape and torch.equal(D, dense), "dense form differs")
    C = M.to_batched_coo()
    need("coo-shape", tuple(C.shape) == (size, size, nb), f"COO shape {tuple(C.shape)}")
    if tuple(C.shape) == (size, size, nb):
        need("coo", torch.equal(C.to_dense(), dense.permute(1, 2, 0)), "COO form differs")
        C = C.coalesce()
        need("coo-nnz", C.indices().shape[1] == s["nnz"], f"{C.indices().shape[1]} stored, nnz {s['nnz']}")
        pat = torch.zeros(size, size, dtype=torch.bool)
        pat[C.indices()[0], C.indices()[1]] = True
        need("coo-pattern", torch.equal(pat, stored), "COO stores other entries than the diagonals given")
    R = M.to_unrolled_csr()
    need("csr-count", len(R) == nb, f"{len(R)} CSR matrices for a batch of {nb}")
    for b, m in enumerate(R):
        need("csr-shape", tuple(m.shape) == (size, size), f"CSR shape {tuple(m.shape)}, logical ({size}, {size})")
        if tuple(m.shape) == (size, size):
            need("csr", torch.equal(m.to_dense(), dense[b]), f"CSR form of batch member {b} differs")
            need("csr-nnz", m.values().numel() == s["nnz"], f"CSR stores {m.values().numel()}, nnz {s['nnz']}")
    # converting again gives the same (nothing was consumed), and the input is as it was
    need("repeat", torch.equal(M.to_dense(), dense) and torch.equal(M.to_batched_coo().to_dense(), C.to_dense()),
         "second conversion differs")
    need("input", diags == s["diags"] and all(torch.equal(a, b) for a, b in zip(data, data0)), "input modified")
    # the operator form, for lower bidiagonal matrices
    if set(diags) == {0, -1} or (diags == [0] and s["nblk"] == 1):
        A = data[diags.index(0)]
        B = data[diags.index(-1)] if -1 in diags else torch.zeros(0, nb, sb, sb)
        J = chunktime.BidiagonalForwardOperator(A, B)
        v = lay(torch.tensor(s["v"], dtype=torch.float64), s["c"])
        need("op-shape", (J.n, tuple(J.shape)) == (size, (nb, size, size)), f"{J.n} {tuple(J.shape)}")
        p = J(v)
        want = torch.tensor(s["prod"], dtype=torch.float64)
        need("product", p.shape == want.shape and torch.equal(p, want), "operator product differs")
        T = J.to_diag()
        need("to-diag", torch.equal(T.to_dense(), dense), "to_diag differs")
        need("to-diag-nnz", T.nnz == s["nnz"] and tuple(T.shape) == tuple(J.shape), "to_diag size differs")
    return fails[:4], n


def run(chk):
    consts = dict(Seed=SEED, AllUpTo=4 if THOROUGH else 3, Orders=3 if THOROUGH else 6,
                  Cases=range(1, 1200 if THOROUGH else 120), NBlks=[4, 5, 6, 7, 8, 10], SBlks=[1, 2, 3, 4], SBats=[1, 2, 3])
    inv = ["StoredOnce", "SameMatrix"]
    recs = chk.spec("Blocked", consts=consts, invariants=inv)
    chk.replay(scn, recs, "blocked")
    # lower bidiagonal ones, for the operator form
    consts.update(AllUpTo=0, Cases=range(1, 200 if THOROUGH else 41))
    recs = chk.spec("BlockedBidiag", consts=consts, invariants=inv, spec="BSpec")
    chk.replay(scn, recs, "operator")
