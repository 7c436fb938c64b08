--------------------------------- MODULE Dual ---------------------------------
(* Forward-mode derivatives: a dual number <<v, d>> is a value with the       *)
(* sequence of its derivatives with respect to the seeds (<<>> stands for a   *)
(* constant, all derivatives zero).  With these operations a formula is       *)
(* written once and its exact derivative comes with it.  java/Dual.java       *)
(* overrides the operators with the same definitions.                         *)
EXTENDS Mat

DVal(x) == x[1]
DDer(x) == x[2]
DC(r) == <<r, <<>>>>                            \* a constant
DSeed(r, i, n) == <<r, [j \in 1..n |-> IF j = i THEN R1 ELSE R0]>>
\* derivative with respect to seed j
DD(x, j) == IF Len(x[2]) = 0 THEN R0 ELSE x[2][j]

\* value v, derivatives a x' + b y'
DLin(v, a, x, b, y) ==
    IF Len(x[2]) = 0 /\ Len(y[2]) = 0 THEN <<v, <<>>>>
    ELSE LET n == IF Len(x[2]) = 0 THEN Len(y[2]) ELSE Len(x[2])
         IN <<v, Force([j \in 1..n |-> FAdd(FMul(a, DD(x, j)), FMul(b, DD(y, j)))])>>
DLin1(v, a, x) == IF Len(x[2]) = 0 THEN <<v, <<>>>>
                  ELSE <<v, Force([j \in 1..Len(x[2]) |-> FMul(a, x[2][j])])>>

DAdd(x, y) == DLin(FAdd(x[1], y[1]), R1, x, R1, y)
DSub(x, y) == DLin(FSub(x[1], y[1]), R1, x, RNeg(R1), y)
DMul(x, y) == DLin(FMul(x[1], y[1]), y[1], x, x[1], y)
DDiv(x, y) == DLin(FDiv(x[1], y[1]), FDiv(R1, y[1]), x,
                   RNeg(FDiv(x[1], FMul(y[1], y[1]))), y)
DNeg(x) == DLin1(RNeg(x[1]), RNeg(R1), x)

DExp(x) == LET e == Exp(x[1]) IN DLin1(e, e, x)
DLn(x) == DLin1(Ln(x[1]), FDiv(R1, x[1]), x)
DTanh(x) == LET t == Tanh(x[1]) IN DLin1(t, FSub(R1, FMul(t, t)), x)

RSgn(r) == RI(RSign(r))
DAbs(x) == DLin1(RAbs(x[1]), RSgn(x[1]), x)

\* x^n for x >= 0 and a constant n >= 1 or x > 0; the derivative at x = 0 is
\* that from the right
DPow(x, n) ==
    LET a == IF RIsZero(x[1]) THEN (IF REq(n, R1) THEN R1 ELSE R0)
             ELSE FMul(n, Pow(x[1], RSub(n, R1)))
    IN DLin1(Pow(x[1], n), a, x)
\* |x|^n sign(x), n >= 1
DSPow(x, n) ==
    LET a == RAbs(x[1]) m == DPow(DC(a), n)
        f == IF RIsZero(a) THEN (IF REq(n, R1) THEN R1 ELSE R0) ELSE FMul(n, Pow(a, RSub(n, R1)))
    IN DLin1(FMul(RSgn(x[1]), m[1]), f, x)
\* <x>^n: zero with zero derivatives unless x > 0
DMPow(x, n) == IF RSign(x[1]) > 0 THEN DPow(x, n) ELSE DLin1(R0, R0, x)

DSum(q) == FoldLeft(DAdd, DC(R0), q)
DScale(r, x) == DLin1(FMul(r, x[1]), r, x)
===============================================================================
