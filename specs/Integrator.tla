------------------------------ MODULE Integrator ------------------------------
(* Time integration of batched ODEs.                                          *)
(*                                                                            *)
(* Phase 1 ("ref") is the meaning: the one-step backward/forward Euler        *)
(* recurrence for every batch member, with the exact tangent of the computed  *)
(* trajectory (with respect to every parameter and the initial condition)     *)
(* carried along.  The result is exported for replay in the implementation.   *)
(*                                                                            *)
(* Phase 2 ("blk") is the design used by the implementation: n steps at a     *)
(* time, Newton's method on the increments of the whole block with a          *)
(* bidiagonal solve, from either initial guess; then phase 3 ("rew") rewinds  *)
(* the adjoint block by block and accumulates the parameter gradient.         *)
(* Invariants: the block design computes the recurrence (BlockAgrees,         *)
(* FilledOnce) and the adjoint computes the tangent gradients (AdjAgrees).    *)
EXTENDS PolyOde, Emit

CONSTANTS Cases,        \* set of case numbers
          Seed,
          Schemes,      \* subset of {"be", "fe"}
          BlockEvery,   \* phases 2 and 3 run on cases divisible by this
          Equil,        \* the initial condition is an equilibrium
          NTs, NYs, NBs, NPs   \* sequences of sizes the cases pick from

VARIABLES c, scheme, pc, prob,
          k,        \* time index reached
          traj,     \* traj[k][b]: state
          tang,     \* tang[b]: ny x (np + ny) tangent of the state at k
          gp, gy,   \* gp[b][j], gy[b][i]: accumulated gradients of Sum w y
          n, guess, res, dy, bit,    \* block phase
          adj, ap, filled
vars == <<c, scheme, pc, prob, k, traj, tang, gp, gy, n, guess, res, dy, bit, adj, ap, filled>>

NP == Len(prob.par)
Dt(kk, b) == RSub(prob.t[kk][b], prob.t[kk - 1][b])
Batch == 1..prob.nb

Init == /\ c \in Cases /\ scheme \in Schemes
        /\ pc = "new" /\ prob = [nt |-> 0] /\ k = 0 /\ traj = <<>> /\ tang = <<>>
        /\ gp = <<>> /\ gy = <<>> /\ n = 0 /\ guess = "" /\ res = <<>> /\ dy = <<>>
        /\ bit = 0 /\ adj = <<>> /\ ap = <<>> /\ filled = <<>>

blkvars == <<n, guess, res, dy, bit, adj, ap, filled>>

Setup ==
    /\ pc = "new"
    /\ LET np == Pick(Seed, c, 7, NPs)
           q == MkProblem(Seed, c, Pick(Seed, c, 8, NYs), Pick(Seed, c, 9, NBs),
                          NTs[(c % Len(NTs)) + 1], np,
                          Draw(Seed, c, 5, 0, 1) = 1, Draw(Seed, c, 6, 0, 3) = 0)
           p == IF Equil THEN Equilibrium(q) ELSE q
       IN /\ prob' = p
          /\ traj' = <<p.y0>>
          /\ tang' = [b \in 1..p.nb |-> [i \in 1..p.ny |-> [j \in 1..(np + p.ny) |->
                        IF j = np + i THEN R1 ELSE R0]]]
          /\ gp' = [b \in 1..p.nb |-> VZero(np)]
          /\ gy' = p.w[1]
    /\ k' = 1 /\ pc' = "ref"
    /\ UNCHANGED <<c, scheme, blkvars>>

--------------------------------------------------------------------------------
(* Phase 1: the recurrence.                                                   *)

BERes(b, kk, yp, y) == VSub(VSub(y, yp), VScale(Dt(kk, b), Rate(prob, b, prob.t[kk][b], y)))
BEMat(b, kk, y) == MSub(MId(prob.ny), MScale(Dt(kk, b), RateJac(prob, b, prob.t[kk][b], y)))

RECURSIVE BENewton(_, _, _, _, _)
BENewton(b, kk, yp, y, it) ==
    LET r == BERes(b, kk, yp, y)
    IN IF it = 0 \/ RLt(VMaxAbs(r), RInv(RPowN(RI(2), 92))) THEN y
       ELSE BENewton(b, kk, yp, VSub(y, VSolve(BEMat(b, kk, y), r)), it - 1)

StepOf(b, kk, yp) ==
    IF scheme = "be" THEN BENewton(b, kk, yp, yp, 25)
    ELSE VAdd(yp, VScale(Dt(kk, b), Rate(prob, b, prob.t[kk - 1][b], yp)))

\* the rows [f_p | 0]
ParCols(b, t, y) == LET fp == RatePar(prob, b, t, y)
                    IN Force([i \in 1..prob.ny |-> fp[i] \o VZero(prob.ny)])

TangOf(b, kk, yp, yn, S) ==
    IF scheme = "be"
    THEN MSolve(BEMat(b, kk, yn), MAdd(S, MScale(Dt(kk, b), ParCols(b, prob.t[kk][b], yn))))
    ELSE LET t == prob.t[kk - 1][b]
         IN MAdd(S, MScale(Dt(kk, b), MAdd(MMul(RateJac(prob, b, t, yp), S), ParCols(b, t, yp))))

RefStep ==
    /\ pc = "ref" /\ k < prob.nt
    /\ LET yn == Force([b \in Batch |-> StepOf(b, k + 1, traj[k][b])])
           sn == Force([b \in Batch |-> TangOf(b, k + 1, traj[k][b], yn[b], tang[b])])
           G(b, j) == VDot(prob.w[k + 1][b], [i \in 1..prob.ny |-> sn[b][i][j]])
       IN /\ traj' = Append(traj, yn)
          /\ tang' = sn
          /\ gp' = Force([b \in Batch |-> [j \in 1..NP |-> FAdd(gp[b][j], G(b, j))]])
          /\ gy' = Force([b \in Batch |-> [i \in 1..prob.ny |-> FAdd(gy[b][i], G(b, NP + i))]])
    /\ k' = k + 1
    /\ UNCHANGED <<c, scheme, pc, prob, blkvars>>

\* gradient with respect to parameter j: summed over the batch if shared
ParGrad(g, j) ==
    IF prob.par[j].batched THEN [b \in Batch |-> g[b][j]]
    ELSE <<VSum([b \in Batch |-> g[b][j]])>>

RefDone ==
    /\ pc = "ref" /\ k = prob.nt
    /\ Emit([c |-> c, scheme |-> scheme, prob |-> prob, y |-> traj,
             gp |-> [j \in 1..NP |-> ParGrad(gp, j)], gy |-> gy])
    /\ pc' = "chosen"
    /\ UNCHANGED <<c, scheme, prob, k, traj, tang, gp, gy, blkvars>>

--------------------------------------------------------------------------------
(* Phase 2: blocks of n steps.  res holds the steps filled so far, k the last *)
(* of them, dy the increments of the current block (dy[q][b], q in 1..m).     *)

Choose ==
    /\ pc = "chosen" /\ c % BlockEvery = 0
    /\ n' \in 1..(prob.nt + 1) /\ guess' \in {"zero", "previous"}
    /\ res' = <<prob.y0>> /\ k' = 1 /\ dy' = <<>> /\ bit' = 0
    /\ filled' = [q \in 1..prob.nt |-> IF q = 1 THEN 1 ELSE 0]
    /\ pc' = "guess" /\ UNCHANGED <<c, scheme, prob, traj, tang, gp, gy, adj, ap>>

M == IF k + n > prob.nt THEN prob.nt - k ELSE n    \* steps in this block

BlockGuess ==
    /\ pc = "guess" /\ k < prob.nt
    /\ dy' = Force([q \in 1..M |-> [b \in Batch |->
                IF guess = "zero" \/ k - n < 1 THEN VZero(prob.ny)
                ELSE VSub(res[k - M + q][b], res[k - n][b])]])
    /\ bit' = 0 /\ pc' = "newton"
    /\ UNCHANGED <<c, scheme, prob, k, traj, tang, gp, gy, n, guess, res, adj, ap, filled>>

\* state of the block at its q-th step, q in 0..M
BSt(q, b) == IF q = 0 THEN res[k][b] ELSE VAdd(res[k][b], dy[q][b])

BRes(q, b) ==
    LET prev == IF q = 1 THEN VZero(prob.ny) ELSE dy[q - 1][b]
        r == IF scheme = "be" THEN Rate(prob, b, prob.t[k + q][b], BSt(q, b))
             ELSE Rate(prob, b, prob.t[k + q - 1][b], BSt(q - 1, b))
    IN VSub(VSub(dy[q][b], prev), VScale(Dt(k + q, b), r))

\* diagonal block and (q > 1) sub-diagonal block of the Jacobian
BA(q, b) == IF scheme = "be" THEN BEMat(b, k + q, BSt(q, b)) ELSE MId(prob.ny)
BB(q, b) == IF scheme = "be" THEN MScale(RI(-1), MId(prob.ny))
            ELSE MScale(RI(-1), MAdd(MId(prob.ny),
                     MScale(Dt(k + q, b), RateJac(prob, b, prob.t[k + q - 1][b], BSt(q - 1, b)))))

RECURSIVE BSweep(_, _, _)
BSweep(b, R, x) ==   \* forward substitution
    IF Len(x) = Len(R) THEN x
    ELSE LET q == Len(x) + 1
             rhs == IF q = 1 THEN R[q] ELSE VSub(R[q], MVec(BB(q, b), x[q - 1]))
         IN BSweep(b, R, Append(x, VSolve(BA(q, b), rhs)))

BlockResid == Force([b \in Batch |-> [q \in 1..M |-> BRes(q, b)]])
Small(R) == \A b \in Batch : \A q \in 1..M : RLt(VMaxAbs(R[b][q]), RInv(RPowN(RI(2), 88)))

BlockNewton ==
    /\ pc = "newton" /\ bit < 40
    /\ LET R == BlockResid
       IN /\ ~Small(R)
          /\ LET X == Force([b \in Batch |-> BSweep(b, R[b], <<>>)])
             IN dy' = Force([q \in 1..M |-> [b \in Batch |-> VSub(dy[q][b], X[b][q])]])
    /\ bit' = bit + 1
    /\ UNCHANGED <<c, scheme, pc, prob, k, traj, tang, gp, gy, n, guess, res, adj, ap, filled>>

BlockCommit ==
    /\ pc = "newton" /\ Small(BlockResid)
    /\ res' = Force(res \o [q \in 1..M |-> [b \in Batch |-> BSt(q, b)]])
    /\ filled' = [q \in 1..prob.nt |-> IF q > k /\ q <= k + M THEN filled[q] + 1 ELSE filled[q]]
    /\ k' = k + M /\ dy' = <<>> /\ bit' = 0 /\ pc' = "guess"
    /\ UNCHANGED <<c, scheme, prob, traj, tang, gp, gy, n, guess, adj, ap>>

--------------------------------------------------------------------------------
(* Phase 3: rewind.  adj[b] is the adjoint at time k; ap[b][j] the gradient.  *)
(* Backward Euler: (I - dt J_k^T) u = adj,  ap += dt f_p(k)^T u,              *)
(* adj_(k-1) = u + w_(k-1).  Forward Euler: ap += dt f_p(k-1)^T adj,          *)
(* adj_(k-1) = adj + dt J_(k-1)^T adj + w_(k-1).                              *)

StartRewind ==
    /\ pc = "guess" /\ k = prob.nt
    /\ adj' = prob.w[prob.nt] /\ ap' = Force([b \in Batch |-> VZero(NP)])
    /\ pc' = "rew"
    /\ UNCHANGED <<c, scheme, prob, k, traj, tang, gp, gy, n, guess, res, dy, bit, filled>>

AdjStep(b, kk, a) ==   \* <<adjoint at kk - 1, parameter gradient increment>>
    IF scheme = "be"
    THEN LET u == VSolve(MT(BEMat(b, kk, res[kk][b])), a)
         IN <<VAdd(u, prob.w[kk - 1][b]),
              IF NP = 0 THEN <<>>
              ELSE VScale(Dt(kk, b), MVec(MT(RatePar(prob, b, prob.t[kk][b], res[kk][b])), u))>>
    ELSE LET t == prob.t[kk - 1][b]
             y == res[kk - 1][b]
         IN <<VAdd(VAdd(a, VScale(Dt(kk, b), MVec(MT(RateJac(prob, b, t, y)), a))), prob.w[kk - 1][b]),
              IF NP = 0 THEN <<>>
              ELSE VScale(Dt(kk, b), MVec(MT(RatePar(prob, b, t, y)), a))>>

RECURSIVE AdjSweep(_, _, _, _, _)
AdjSweep(b, kk, m, a, g) ==
    IF m = 0 THEN <<a, g>>
    ELSE LET s == AdjStep(b, kk, a) IN AdjSweep(b, kk - 1, m - 1, s[1], VAdd(g, s[2]))

RewindBlock ==
    /\ pc = "rew" /\ k > 1
    /\ LET m == IF k - n < 1 THEN k - 1 ELSE n
           s == Force([b \in Batch |-> AdjSweep(b, k, m, adj[b], ap[b])])
       IN /\ adj' = Force([b \in Batch |-> s[b][1]])
          /\ ap' = Force([b \in Batch |-> s[b][2]])
          /\ k' = k - m
    /\ UNCHANGED <<c, scheme, pc, prob, traj, tang, gp, gy, n, guess, res, dy, bit, filled>>

RewindDone ==
    /\ pc = "rew" /\ k = 1 /\ pc' = "done"
    /\ UNCHANGED <<c, scheme, prob, k, traj, tang, gp, gy, n, guess, res, dy, bit, adj, ap, filled>>

Next == Setup \/ RefStep \/ RefDone \/ Choose \/ BlockGuess \/ BlockNewton \/ BlockCommit
        \/ StartRewind \/ RewindBlock \/ RewindDone
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Tiny(x) == RLt(RAbs(x), RInv(RPowN(RI(2), 60)))
VClose(a, b) == \A i \in 1..Len(a) : Tiny(RSub(a[i], b[i]))

\* every step of the recurrence was actually solved
RefSolved ==
    (pc = "ref" /\ scheme = "be" /\ k > 1) =>
        \A b \in Batch : Tiny(VMaxAbs(BERes(b, k, traj[k - 1][b], traj[k][b])))

BlockAgrees ==
    pc \in {"guess", "newton", "rew", "done"} =>
        \A q \in 1..Len(res) : \A b \in Batch : VClose(res[q][b], traj[q][b])
NewtonEnds == bit < 40
FilledOnce == pc \in {"rew", "done"} => \A q \in 1..prob.nt : filled[q] = 1
AdjAgrees ==
    pc = "done" => \A b \in Batch : VClose(adj[b], gy[b]) /\ VClose(ap[b], gp[b])
==============================================================================
