------------------------------- MODULE LinSolve -------------------------------
(* A batch of linear systems handed to one solver call.  The meaning: member  *)
(* m's answer is the solution of its own system.  The Krylov solvers build,   *)
(* for every member at once, a sequence of subspaces; member m needs grade(m) *)
(* of them, which differs from member to member (0 for a zero right-hand      *)
(* side, 1 for an eigenvector), while the loop runs until all are done.  The  *)
(* loop is modelled here by the exact minimum over the subspace reached.      *)
EXTENDS Mat, Rnd, Emit

CONSTANTS Seed, Cases, Ns, NBs

VARIABLES c, A, b, x0, k, done, pc
vars == <<c, A, b, x0, k, done, pc>>

D(i, lo, hi) == Draw(Seed, c, i, lo, hi)
N == Len(b[1])
NB == Len(b)

\* ---- generation: kinds of members, all well conditioned
Kinds == <<"dense", "diag", "lower", "perm", "identity", "dense", "tri">>
KindOf(m) == Kinds[(D(40 + m, 0, 6)) + 1]
Off(m, i, j) == RMk(Draw(Seed, c, 1000 + 100 * m + 10 * i + j, -4, 4), 8)
Dia(m, n, i) == RMul(RMk(Draw(Seed, c, 2000 + 10 * m + i, 2, 5), 1),
                     RI(IF Draw(Seed, c, 2500 + 10 * m + i, 0, 3) = 0 THEN -1 ELSE 1))
MkA(m, n) ==
    LET kd == KindOf(m)
        e(i, j) ==
          CASE kd = "identity" -> IF i = j THEN RMk(D(60 + m, 1, 5), 2) ELSE R0
            [] kd = "diag" -> IF i = j THEN Dia(m, n, i) ELSE R0
            [] kd = "lower" -> IF i = j THEN Dia(m, n, i) ELSE IF j < i THEN Off(m, i, j) ELSE R0
            [] kd = "tri" -> IF i = j THEN Dia(m, n, i) ELSE IF j = i + 1 \/ j = i - 1 THEN Off(m, i, j) ELSE R0
            \* rows of a dominant matrix rotated: zeros or small entries on the diagonal
            [] kd = "perm" -> LET ii == (i % n) + 1
                              IN IF ii = j THEN RMul(RI(2), Dia(m, n, i)) ELSE RMul(Off(m, i, j), <<1, 2>>)
            [] OTHER -> IF i = j THEN Dia(m, n, i) ELSE Off(m, i, j)
    IN Force([i \in 1..n |-> [j \in 1..n |-> e(i, j)]])

\* zero, unit, generic, or the image of a unit vector
BKind(m) == Draw(Seed, c, 70 + m, 0, 5)
MkB(m, n, AA) ==
    LET u == Force([i \in 1..n |-> IF i = Draw(Seed, c, 80 + m, 1, n) THEN RMk(Draw(Seed, c, 90 + m, -4, 4), 2) ELSE R0])
        g == Force([i \in 1..n |-> RMk(Draw(Seed, c, 3000 + 10 * m + i, -9, 9), 2)])
    IN CASE BKind(m) = 0 -> VZero(n)
         [] BKind(m) = 1 -> u
         [] BKind(m) = 2 -> MVec(AA, u)
         [] OTHER -> g

Init == c \in Cases /\ A = <<>> /\ b = <<>> /\ x0 = <<>> /\ k = 0 /\ done = <<>> /\ pc = "new"

Setup ==
    /\ pc = "new"
    /\ LET n == Ns[(c % Len(Ns)) + 1]
           nb == Pick(Seed, c, 1, NBs)
           AA == Force([m \in 1..nb |-> MkA(m, n)])
           BB == Force([m \in 1..nb |-> MkB(m, n, AA[m])])
       IN /\ A' = AA /\ b' = BB
          \* a starting guess: zero, generic, or already exact for some members
          /\ x0' = Force([m \in 1..nb |->
                CASE Draw(Seed, c, 110 + m, 0, 3) = 0 -> VSolve(AA[m], BB[m])
                  [] Draw(Seed, c, 110 + m, 0, 3) = 1 -> VZero(n)
                  [] OTHER -> [i \in 1..n |-> RMk(Draw(Seed, c, 4000 + 10 * m + i, -4, 4), 2)]])
          /\ done' = Force([m \in 1..nb |-> VSub(BB[m], MVec(AA[m], x0'[m]))])   \* residuals
    /\ pc' = "iterate" /\ UNCHANGED <<c, k>>

--------------------------------------------------------------------------------
\* rank of a sequence of vectors, by exact elimination
RECURSIVE RankOf(_, _)
RankOf(rows, col) ==
    IF rows = <<>> \/ col > Len(rows[1]) THEN 0
    ELSE LET ps == {i \in 1..Len(rows) : ~RIsZero(rows[i][col])}
         IN IF ps = {} THEN RankOf(rows, col + 1)
            ELSE LET p == CHOOSE i \in ps : TRUE
                     red == [i \in 1..Len(rows) |->
                               IF i = p THEN rows[p]
                               ELSE LET f == RDiv(rows[i][col], rows[p][col])
                                    IN Force([j \in 1..Len(rows[i]) |-> RSub(rows[i][j], RMul(f, rows[p][j]))])]
                 IN 1 + RankOf(Force(SelectSeq([i \in 1..Len(rows) |-> IF i = p THEN <<>> ELSE red[i]],
                                               LAMBDA r: r # <<>>)), col + 1)

RECURSIVE Krylov(_, _, _)
Krylov(AA, v, q) == IF q = 0 THEN <<>> ELSE <<v>> \o Krylov(AA, MVec(AA, v), q - 1)

\* dimension after which the subspace of member m stops growing
Grade(m) == RankOf(Krylov(A[m], done[m], N), 1)

Grow ==
    /\ pc = "iterate"
    /\ \E m \in 1..NB : Grade(m) > k
    /\ k' = k + 1 /\ UNCHANGED <<c, A, b, x0, done, pc>>

Solution(m) == VSolve(A[m], b[m])

Stop ==
    /\ pc = "iterate"
    /\ \A m \in 1..NB : Grade(m) <= k
    /\ pc' = "done"
    /\ Emit([c |-> c, A |-> A, b |-> b, x0 |-> x0, x |-> [m \in 1..NB |-> Solution(m)],
             k |-> k, grade |-> [m \in 1..NB |-> Grade(m)],
             jac |-> [m \in 1..NB |-> [i \in 1..N |-> IF RIsZero(A[m][i][i]) THEN R0 ELSE FDiv(b[m][i], A[m][i][i])]],
             zerodiag |-> \E m \in 1..NB : \E i \in 1..N : RIsZero(A[m][i][i])])
    /\ UNCHANGED <<c, A, b, x0, k, done>>

Next == Setup \/ Grow \/ Stop
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Tiny(v) == \A i \in 1..Len(v) : RLt(RAbs(v[i]), RMk(1, 2^30))
Solved == pc = "done" => \A m \in 1..NB : Tiny(VSub(MVec(A[m], Solution(m)), b[m]))
\* the subspace of the last step contains the correction, for every member
Reached == pc = "done" =>
    \A m \in 1..NB : LET K == Krylov(A[m], done[m], Grade(m))
                     IN \/ Tiny(done[m])
                        \/ RankOf(Append(K, done[m]), 1) = Grade(m)
NeverBeyondN == pc # "new" => k <= N
==============================================================================
