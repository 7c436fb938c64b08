----------------------------- MODULE Bidiagonal ------------------------------
(* Block lower-bidiagonal systems                                             *)
(*      A_1 x_1 = v_1,   B_(k-1) x_(k-1) + A_k x_k = v_k  (k > 1)             *)
(* for every batch member.  The meaning is forward substitution (Subst).      *)
(* The design checked against it is the one of the implementation: cyclic     *)
(* reduction of overlapping chunks of power-of-two size (Schedule), complete  *)
(* ("pcr") or given up below a minimum chunk size and finished sequentially   *)
(* ("hybrid").  The inductive invariant Equivalent says that every            *)
(* intermediate system has the same solution.                                 *)
EXTENDS Mat, Rnd, Emit

CONSTANTS Seed, Cases, NBlks, SBlks, SBats, MinSizes, DesignEvery, DesignUpTo, MaxHist

VARIABLES c, pc, P, X,          \* problem, solutions X[r][b][k] of right-hand side r
          method, min, chunk, it,
          v, Bc, dist, xs       \* reduced system of batch member 1, right-hand side 1
vars == <<c, pc, P, X, method, min, chunk, it, v, Bc, dist, xs>>

--------------------------------------------------------------------------------
(* The reduction schedule                                                     *)
RECURSIVE P2(_, _)
P2(n, q) == IF 2 * q > n THEN q ELSE P2(n, 2 * q)
FloorPow2(n) == P2(n, 1)      \* largest power of two <= n

RECURSIVE Rest(_, _, _)
Rest(acc, n, left) ==
    IF left = 0 THEN acc
    ELSE LET s == acc[Len(acc)][2] - 1
             z == FloorPow2(left + 1)
         IN Rest(Append(acc, <<s, s + z>>), n, left - (z - 1))

\* chunks <<start, end>> (0-based, end exclusive) of n blocks
Schedule(n) == Rest(<< <<0, FloorPow2(n)>> >>, n, n - FloorPow2(n))

\* the leading chunks the hybrid method reduces, and the block it goes on from
HybridChunks(n, m) ==
    LET S == Schedule(n)
        big == {i \in 1..Len(S) : S[i][2] - S[i][1] > m}
        cnt == CHOOSE j \in 0..Len(S) : (\A i \in 1..j : i \in big) /\ (j = Len(S) \/ (j + 1) \notin big)
    IN SubSeq(S, 1, cnt)

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

\* properties of the schedule, for every n
ScheduleOK(n) ==
    LET S == Schedule(n) IN
    /\ S[1][1] = 0 /\ S[Len(S)][2] = n
    /\ \A i \in 1..Len(S) : LET z == S[i][2] - S[i][1] IN z = FloorPow2(z)
    /\ \A i \in 2..Len(S) : S[i][1] = S[i - 1][2] - 1 /\ S[i][2] > S[i - 1][2]
    /\ \A i \in 2..Len(S) : S[i][2] - S[i][1] <= S[i - 1][2] - S[i - 1][1]
ASSUME \A n \in 1..200 : ScheduleOK(n)

--------------------------------------------------------------------------------
Ent(i, hi, d) == RMk(Draw(Seed, c, i, -hi, hi), d)

\* a well-conditioned block; in some cases with its rows reversed, so that a
\* factorization has to pivot
DiagBlock(i, n, rev) ==
    Force([r \in 1..n |-> [q \in 1..n |->
        LET rr == IF rev THEN n + 1 - r ELSE r
        IN IF rr = q THEN RAdd(RI(3), Ent(i + 10 * rr + q, 4, 4)) ELSE Ent(i + 10 * rr + q, 3, 4)]])
OffBlock(i, n, z) ==
    Force([r \in 1..n |-> [q \in 1..n |-> IF z THEN R0 ELSE Ent(i + 10 * r + q, 6, 3)]])

\* coupling that does not decay: A_k^-1 B_k is a rotation of the components with
\* signs, so that the first block still matters in the last one
Coupled(Ak, i, n) ==
    Force([r \in 1..n |-> [q \in 1..n |->
        RMul(Ak[r][(q % n) + 1], RI(IF Draw(Seed, c, i + q, 0, 1) = 0 THEN 1 ELSE -1))]])

MkP ==
    LET nblk == NBlks[(c % Len(NBlks)) + 1]
        n == Pick(Seed, c, 1, SBlks)
        nb == Pick(Seed, c, 2, SBats)
        rev == Draw(Seed, c, 3, 0, 3) = 0
        nr == Draw(Seed, c, 4, 1, 3)
        nh == Draw(Seed, c, 5, 1, MaxHist)
        far == nblk > 32 \/ Draw(Seed, c, 6, 0, 2) = 0
        AA == Force([k \in 1..nblk |-> [b \in 1..nb |-> DiagBlock(1000 * k + 100 * b, n, rev)]])
    IN Force([nblk |-> nblk, n |-> n, nb |-> nb,
         A |-> AA,
         B |-> [k \in 1..(nblk - 1) |-> [b \in 1..nb |->
                  IF far THEN Coupled(AA[k + 1][b], 1000 * k + 100 * b + 50, n) ELSE OffBlock(1000 * k + 100 * b + 50, n, Draw(Seed, c, 7 * k + b, 0, 9) = 0)]],
         V |-> [r \in 1..nr |-> [k \in 1..nblk |-> [b \in 1..nb |-> [i \in 1..n |->
                  Ent(100 * r + 10 * b + i + 37 * k, 12, 4)]]]],
         hist |-> [h \in 1..nh |-> [rhs |-> Draw(Seed, c, 600 + h, 1, nr),
                                    call |-> Pick(Seed, c, 650 + h, <<"forward", "matvec">>)]]])

RECURSIVE Subst(_, _, _, _)
Subst(p, b, V, x) ==
    IF Len(x) = p.nblk THEN x
    ELSE LET k == Len(x) + 1
             rhs == IF k = 1 THEN V[k][b] ELSE VSub(V[k][b], MVec(p.B[k - 1][b], x[k - 1]))
         IN Subst(p, b, V, Append(x, VSolve(p.A[k][b], rhs)))

Init == /\ c \in Cases /\ pc = "new" /\ P = <<>> /\ X = <<>> /\ method = "" /\ min = 0
        /\ chunk = 0 /\ it = 0 /\ v = <<>> /\ Bc = <<>> /\ dist = <<>> /\ xs = <<>>

Setup ==
    /\ pc = "new"
    /\ LET p == MkP
           S == Force([r \in 1..Len(p.V) |-> [b \in 1..p.nb |-> Subst(p, b, p.V[r], <<>>)]])
       IN /\ P' = p /\ X' = S
          /\ Emit([c |-> c, P |-> p, X |-> S])
    /\ pc' = "set"
    /\ UNCHANGED <<c, method, min, chunk, it, v, Bc, dist, xs>>

Choose ==
    /\ pc = "set" /\ c % DesignEvery = 0 /\ P.nblk <= DesignUpTo
    /\ \/ method' = "pcr" /\ min' = 0
       \/ method' = "hybrid" /\ min' \in MinSizes
    /\ chunk' = 1 /\ it' = 0
    /\ v' = Force([k \in 1..P.nblk |-> P.V[1][k][1]])
    /\ Bc' = Force([k \in 1..P.nblk |-> IF k = 1 THEN MZero(P.n, P.n) ELSE P.B[k - 1][1]])
    /\ dist' = [k \in 1..P.nblk |-> IF k = 1 THEN 0 ELSE 1]
    /\ xs' = <<>> /\ pc' = "reduce" /\ UNCHANGED <<c, P, X>>

Chunks == IF method = "pcr" THEN Schedule(P.nblk) ELSE HybridChunks(P.nblk, min)

Inv(k, w) == VSolve(P.A[k][1], w)
InvM(k, M) == MSolve(P.A[k][1], M)

Reduce ==
    /\ pc = "reduce" /\ chunk <= Len(Chunks)
    /\ LET s == Chunks[chunk][1] + 1      \* 1-based first block of the chunk
           e == Chunks[chunk][2]          \* last block
           d == 2^it
           Fin == it = Log2(e - s + 1)
       IN IF Fin THEN /\ chunk' = chunk + 1 /\ it' = 0 /\ UNCHANGED <<v, Bc, dist>>
          ELSE /\ it' = it + 1 /\ chunk' = chunk
               /\ v' = Force([k \in 1..P.nblk |->
                     IF k >= s + d /\ k <= e THEN VSub(v[k], MVec(Bc[k], Inv(k - d, v[k - d]))) ELSE v[k]])
               /\ Bc' = Force([k \in 1..P.nblk |->
                     IF k >= s + 2 * d /\ k <= e
                     THEN MScale(RI(-1), MMul(Bc[k], InvM(k - d, Bc[k - d]))) ELSE Bc[k]])
               /\ dist' = [k \in 1..P.nblk |->
                     IF k >= s + 2 * d /\ k <= e THEN 2 * d ELSE IF k >= s + d /\ k <= e THEN 0 ELSE dist[k]]
    /\ UNCHANGED <<c, pc, P, X, method, min, xs>>

\* the blocks that are decoupled now; at least the first
LastDone == IF Len(Chunks) = 0 THEN 1 ELSE Chunks[Len(Chunks)][2]

Finish ==
    /\ pc = "reduce" /\ chunk > Len(Chunks)
    /\ xs' = Force([k \in 1..LastDone |-> Inv(k, v[k])])
    /\ pc' = "seq" /\ UNCHANGED <<c, P, X, method, min, chunk, it, v, Bc, dist>>

Sequential ==
    /\ pc = "seq" /\ Len(xs) < P.nblk
    /\ LET k == Len(xs) + 1
       IN xs' = Append(xs, Inv(k, VSub(v[k], MVec(P.B[k - 1][1], xs[k - 1]))))
    /\ UNCHANGED <<c, pc, P, X, method, min, chunk, it, v, Bc, dist>>

Done == /\ pc = "seq" /\ Len(xs) = P.nblk /\ pc' = "done"
        /\ UNCHANGED <<c, P, X, method, min, chunk, it, v, Bc, dist, xs>>

Next == Setup \/ Choose \/ Reduce \/ Finish \/ Sequential \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Tiny(w) == RLt(VMaxAbs(w), RInv(RPowN(RI(2), 55)))
x1(k) == X[1][1][k]

\* every intermediate system has the same solution
Equivalent ==
    pc \in {"reduce", "seq", "done"} =>
        \A k \in 1..P.nblk :
            LET l == MVec(P.A[k][1], x1(k))
                r == IF dist[k] = 0 THEN l ELSE VAdd(l, MVec(Bc[k], x1(k - dist[k])))
            IN Tiny(VSub(r, v[k]))
\* the blocks a parallel solve finishes are decoupled
Decoupled == pc = "seq" => \A k \in 1..LastDone : dist[k] = 0
SolvedExactly == pc = "done" => \A k \in 1..P.nblk : Tiny(VSub(xs[k], x1(k)))
\* the pcr schedule leaves nothing to the sequential part
PcrComplete == (pc \in {"seq", "done"} /\ method = "pcr") => LastDone = P.nblk
==============================================================================
