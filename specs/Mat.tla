--------------------------------- MODULE Mat ---------------------------------
(* Vectors (sequences of rationals) and matrices (sequences of rows), carried *)
(* to PREC bits by the F operators of RealFn.                                 *)
EXTENDS RealFn, SequencesExt, Force

VAdd(a, b) == Force([i \in 1..Len(a) |-> FAdd(a[i], b[i])])
VSub(a, b) == Force([i \in 1..Len(a) |-> FSub(a[i], b[i])])
VScale(c, a) == Force([i \in 1..Len(a) |-> FMul(c, a[i])])
VZero(n) == Force([i \in 1..n |-> R0])
VSum(a) == FoldLeft(FAdd, R0, a)
VDot(a, b) == VSum([i \in 1..Len(a) |-> RMul(a[i], b[i])])
VMaxAbs(a) == FoldLeft(LAMBDA x, y: RMax(x, RAbs(y)), R0, a)

MCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
MZero(m, n) == Force([i \in 1..m |-> VZero(n)])
MId(n) == Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]])
MT(A) == Force([j \in 1..MCols(A) |-> [i \in 1..Len(A) |-> A[i][j]]])
MAdd(A, B) == Force([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MSub(A, B) == Force([i \in 1..Len(A) |-> VSub(A[i], B[i])])
MScale(c, A) == Force([i \in 1..Len(A) |-> VScale(c, A[i])])
MVec(A, x) == Force([i \in 1..Len(A) |-> VDot(A[i], x)])
MMul(A, B) == LET BT == MT(B)
              IN Force([i \in 1..Len(A) |-> [j \in 1..Len(BT) |-> VDot(A[i], BT[j])]])

\* Gauss-Jordan elimination of the augmented rows M (n rows, n + m columns)
LOCAL Pivot(M, k) ==
    CHOOSE p \in k..Len(M) : /\ ~RIsZero(M[p][k])
                             /\ \A q \in k..Len(M) : RLe(RAbs(M[q][k]), RAbs(M[p][k]))

LOCAL Elim(M, k) ==
    LET p == Pivot(M, k)
        S == Force([M EXCEPT ![k] = M[p], ![p] = M[k]])
        inv == S[k][k]
        prow == Force([j \in 1..Len(S[k]) |-> IF j < k THEN R0 ELSE FDiv(S[k][j], inv)])
    IN Force([i \in 1..Len(M) |->
          IF i = k THEN prow
          ELSE IF RIsZero(S[i][k]) THEN S[i]
          ELSE [j \in 1..Len(prow) |->
                  IF j < k THEN S[i][j] ELSE FSub(S[i][j], RMul(S[i][k], prow[j]))]])

RECURSIVE ElimFrom(_, _)
ElimFrom(M, k) == IF k > Len(M) THEN M ELSE ElimFrom(Elim(M, k), k + 1)

\* the X with A X = B, A an invertible n x n matrix, B an n x m matrix
MSolve(A, B) ==
    LET n == Len(A)
        R == ElimFrom(Force([i \in 1..n |-> A[i] \o B[i]]), 1)
    IN Force([i \in 1..n |-> SubSeq(R[i], n + 1, Len(R[i]))])

\* the x with A x = b
VSolve(A, b) == LET X == MSolve(A, Force([i \in 1..Len(b) |-> <<b[i]>>]))
                IN Force([i \in 1..Len(b) |-> X[i][1]])
==============================================================================
