------------------------------- MODULE Sessions -------------------------------
(* A session: several integrations that share one model object, their forward *)
(* and backward passes interleaved in any way, one or several losses per      *)
(* backward pass, parameters updated in between, and integrations repeated    *)
(* from the same inputs.                                                      *)
(*                                                                            *)
(* Setup computes what every integration is worth on its own, with the        *)
(* parameters as they are before and after an update: the recurrence of       *)
(* PolyOde and its exact tangents.  A forward pass of integration i caches    *)
(* what its own backward pass needs; the backward pass of a sum of losses     *)
(* adds to the gradients exactly what the caches of those losses stand for.   *)
EXTENDS PolyOde, Emit, FiniteSets, TLC

CONSTANTS Seed, Cases,
          Runs,         \* number of integrations
          Updates,      \* parameter updates allowed
          Keeps,        \* backward passes that keep what they rewind, allowed
          Redo          \* repetitions allowed

VARIABLES c, pc, prob, alone, w,
          ver,          \* parameter version
          st,           \* st[i]: "new", "fwd" (result there, gradient not), "done"
          cache,        \* cache[i]: the integration its backward pass will rewind
          acc,          \* sequence of <<i, version>> in the gradients of the parameters
          log, left
vars == <<c, pc, prob, alone, w, ver, st, cache, acc, log, left>>

D(i, lo, hi) == Draw(Seed, c, i, lo, hi)
Ids == 1..Runs

\* integration i: its own grid, initial condition, weights and scheme
RunOf(base, i) ==
    LET nt == D(600 + i, 1, 5)
        own == BaseProblem(Seed, 1000 * c + i, base.ny, base.nb, nt, 0, D(610 + i, 0, 1) = 1, FALSE)
        twin == D(620, 0, 3) = 0        \* same initial conditions and grids, other weights
        t == BaseProblem(Seed, 1000 * c + 1, base.ny, base.nb, D(601, 1, 5), 0, FALSE, FALSE)
        q == IF twin THEN [t EXCEPT !.w = BaseProblem(Seed, 1000 * c + i, base.ny, base.nb, t.nt, 0, FALSE, FALSE).w]
             ELSE own
    IN [scheme |-> IF D(630 + i, 0, 2) = 0 THEN "fe" ELSE "be",
        prob |-> [base EXCEPT !.nt = q.nt, !.t = q.t, !.y0 = q.y0, !.w = q.w]]
\* the parameters after an update
Updated(p) == [p EXCEPT !.par = [j \in 1..Len(p.par) |->
                 [p.par[j] EXCEPT !.v = [b \in 1..Len(p.par[j].v) |-> RAdd(p.par[j].v[b], <<1, 8>>)]]]]

--------------------------------------------------------------------------------
(* one integration on its own                                                 *)
Dt(p, kk, b) == RSub(p.t[kk][b], p.t[kk - 1][b])
Mat1(p, b, kk, y) == MSub(MId(p.ny), MScale(Dt(p, kk, b), RateJac(p, b, p.t[kk][b], y)))
RECURSIVE Solve(_, _, _, _, _, _)
Solve(p, b, kk, yp, y, it) ==
    LET r == Force(VSub(VSub(y, yp), VScale(Dt(p, kk, b), Rate(p, b, p.t[kk][b], y))))
    IN IF it = 0 \/ RLt(VMaxAbs(r), RInv(RPowN(RI(2), 80))) THEN y
       ELSE Solve(p, b, kk, yp, Force(VSub(y, VSolve(Mat1(p, b, kk, y), r))), it - 1)
StepOf(s, p, b, kk, yp) ==
    IF s = "be" THEN Solve(p, b, kk, yp, yp, 25)
    ELSE VAdd(yp, VScale(Dt(p, kk, b), Rate(p, b, p.t[kk - 1][b], yp)))
Cols(p, b, t, y) == LET fp == RatePar(p, b, t, y) IN [i \in 1..p.ny |-> fp[i] \o VZero(p.ny)]
TangOf(s, p, b, kk, yp, yn, S) ==
    IF s = "be"
    THEN MSolve(Mat1(p, b, kk, yn), MAdd(S, MScale(Dt(p, kk, b), Cols(p, b, p.t[kk][b], yn))))
    ELSE LET t == p.t[kk - 1][b]
         IN MAdd(S, MScale(Dt(p, kk, b), MAdd(MMul(RateJac(p, b, t, yp), S), Cols(p, b, t, yp))))
\* member b: <<trajectory, gradient>>
RECURSIVE March(_, _, _, _, _, _, _)
March(s, p, b, kk, tr, S, g) ==
    IF kk > p.nt THEN <<tr, g>>
    ELSE LET yp == tr[kk - 1]
             yn == Force(StepOf(s, p, b, kk, yp))
             Sn == Force(TangOf(s, p, b, kk, yp, yn, S))
             n == Len(p.par) + p.ny
             gn == Force([j \in 1..n |-> FAdd(g[j], VDot(p.w[kk][b], [i \in 1..p.ny |-> Sn[i][j]]))])
         IN March(s, p, b, kk + 1, Append(tr, yn), Sn, gn)
Alone(r, p) ==
    LET np == Len(p.par)
        S0 == [i \in 1..p.ny |-> [j \in 1..(np + p.ny) |-> IF j = np + i THEN R1 ELSE R0]]
        one == Force([b \in 1..p.nb |-> March(r.scheme, p, b, 2, <<p.y0[b]>>, S0, VZero(np) \o p.w[1][b])])
    IN Force([y |-> [k \in 1..p.nt |-> [b \in 1..p.nb |-> one[b][1][k]]],
              gp |-> [j \in 1..np |-> IF p.par[j].batched THEN [b \in 1..p.nb |-> one[b][2][j]]
                                      ELSE <<VSum([b \in 1..p.nb |-> one[b][2][j]])>>],
              gy |-> [b \in 1..p.nb |-> [i \in 1..p.ny |-> one[b][2][np + i]]]])

--------------------------------------------------------------------------------
(* the session                                                                *)
Init == /\ c \in Cases /\ pc = "setup" /\ prob = <<>> /\ alone = <<>> /\ w = 1 /\ ver = 0
        /\ st = [i \in Ids |-> "new"] /\ cache = [i \in Ids |-> <<>>] /\ acc = <<>> /\ log = <<>>
        /\ left = [u |-> Updates, r |-> Redo, k |-> Keeps]
Sess == <<ver, st, cache, acc, log, left>>
Setup == /\ pc = "setup"
         /\ LET base == BaseProblem(Seed, c, D(8, 1, 2), D(9, 1, 3), 2, D(7, 1, 2), FALSE, D(6, 0, 3) = 0)
            IN prob' = Force([i \in Ids |-> RunOf(base, i)])
         /\ pc' = "alone" /\ UNCHANGED <<c, alone, w, Sess>>
Evaluate == /\ pc = "alone" /\ w <= Runs
            /\ alone' = Append(alone, Force(<<Alone(prob[w], prob[w].prob),
                                              IF Updates = 0 THEN <<>> ELSE Alone(prob[w], Updated(prob[w].prob))>>))
            /\ w' = w + 1 /\ UNCHANGED <<c, pc, prob, Sess>>
Export == /\ pc = "alone" /\ w > Runs
          /\ Emit([k |-> "data", c |-> c, runs |-> prob, alone |-> alone])
          /\ prob' = <<>> /\ alone' = <<>>
          /\ pc' = "go" /\ UNCHANGED <<c, w, Sess>>

Pending == {i \in Ids : st[i] = "fwd"}
Forward(i) == /\ pc = "go" /\ st[i] = "new"
              /\ st' = [st EXCEPT ![i] = "fwd"]
              /\ cache' = [cache EXCEPT ![i] = <<i, ver>>]
              /\ log' = Append(log, [op |-> "forward", run |-> i, ver |-> ver])
              /\ UNCHANGED <<c, pc, prob, alone, w, ver, acc, left>>
\* one backward pass of the sum of the losses of S
Backward(S) == /\ pc = "go" /\ S # {} /\ S \subseteq Pending
               /\ st' = [i \in Ids |-> IF i \in S THEN "done" ELSE st[i]]
               /\ acc' = acc \o SelectSeq([i \in Ids |-> cache[i]], LAMBDA x: x # <<>> /\ x[1] \in S)
               /\ cache' = [i \in Ids |-> IF i \in S THEN <<>> ELSE cache[i]]
               /\ log' = Append(log, [op |-> "backward", runs |-> S, acc |-> acc'])
               /\ UNCHANGED <<c, pc, prob, alone, w, ver, left>>
\* the same, keeping the caches: the losses can be differentiated again
BackwardKeep(S) == /\ pc = "go" /\ S # {} /\ S \subseteq Pending /\ left.k > 0
                   /\ acc' = acc \o SelectSeq([i \in Ids |-> cache[i]], LAMBDA x: x # <<>> /\ x[1] \in S)
                   /\ left' = [left EXCEPT !.k = @ - 1]
                   /\ log' = Append(log, [op |-> "keep", runs |-> S, acc |-> acc'])
                   /\ UNCHANGED <<c, pc, prob, alone, w, ver, st, cache>>
\* an update of the parameters, as an optimiser does between passes
Update == /\ pc = "go" /\ left.u > 0 /\ Pending = {} /\ log # <<>>
          /\ \E i \in Ids : st[i] = "new"
          /\ ver' = ver + 1 /\ left' = [left EXCEPT !.u = @ - 1]
          /\ log' = Append(log, [op |-> "update"])
          /\ UNCHANGED <<c, pc, prob, alone, w, st, cache, acc>>
\* the same integration is made once more
Again(i) == /\ pc = "go" /\ left.r > 0 /\ st[i] = "done"
            /\ st' = [st EXCEPT ![i] = "new"] /\ left' = [left EXCEPT !.r = @ - 1]
            /\ log' = Append(log, [op |-> "again", run |-> i])
            /\ UNCHANGED <<c, pc, prob, alone, w, ver, cache, acc>>
Finish == /\ pc = "go" /\ \A i \in Ids : st[i] = "done"
          /\ Emit([k |-> "session", c |-> c, log |-> log])
          /\ pc' = "done" /\ UNCHANGED <<c, prob, alone, w, Sess>>
Next == Setup \/ Evaluate \/ Export \/ (\E i \in Ids : Forward(i) \/ Again(i))
        \/ (\E S \in SUBSET Ids : Backward(S) \/ BackwardKeep(S)) \/ Update \/ Finish
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Count(x) == Cardinality({n \in 1..Len(acc) : acc[n] = x})
Fwds(i, v) == Cardinality({n \in 1..Len(log) : log[n].op = "forward" /\ log[n].run = i /\ log[n].ver = v})
Kept(i) == Cardinality({n \in 1..Len(log) : log[n].op = "keep" /\ i \in log[n].runs})
\* every forward pass is differentiated exactly once (and once more for every
\* pass that keeps its caches), with the parameters it used
OncePerForward == \A i \in Ids :
    /\ \A v \in 0..Updates : Count(<<i, v>>) >= Fwds(i, v) - (IF cache[i] = <<i, v>> THEN 1 ELSE 0)
    /\ Cardinality({n \in 1..Len(acc) : acc[n][1] = i}) =
         Cardinality({n \in 1..Len(log) : log[n].op = "forward" /\ log[n].run = i})
         - (IF cache[i] = <<>> THEN 0 ELSE 1) + Kept(i)
OwnCache == \A i \in Ids : (st[i] = "fwd") <=> (cache[i] # <<>> /\ cache[i][1] = i)
\* no parameters change under a pending backward pass
Consistent == \A i \in Pending : cache[i][2] = ver
================================================================================
