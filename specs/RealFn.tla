------------------------------- MODULE RealFn --------------------------------
(* Real-valued functions on rationals, carried to PREC significant bits       *)
(* (about 31 decimal digits), far below the tolerance of any comparison with  *)
(* the double-precision implementation.                                       *)
EXTENDS Rat

PREC == 104

FAdd(a, b) == RRound(RAdd(a, b), PREC)
FSub(a, b) == RRound(RSub(a, b), PREC)
FMul(a, b) == RRound(RMul(a, b), PREC)
FDiv(a, b) == RRound(RDiv(a, b), PREC)

LOCAL FF(a) == RRound(a, PREC)

\* ln 2 = sum of 1 / (k 2^k), by the faster 2 atanh(1/3)
RECURSIVE AtanhT(_, _, _, _, _)
AtanhT(p, z2, k, n, acc) ==
    IF k > n THEN acc
    ELSE AtanhT(FMul(p, z2), z2, k + 1, n, FAdd(acc, FDiv(p, RI(2 * k + 1))))

\* 2 atanh(z), |z| <= 1/3
LOCAL TwoAtanh(z, n) == RMul(RI(2), AtanhT(z, FMul(z, z), 0, n, R0))

Ln2 == TwoAtanh(<<1, 3>>, 34)

RECURSIVE ExpT(_, _, _, _)
ExpT(r, k, term, acc) ==
    IF k > 19 THEN acc
    ELSE LET t == FDiv(FMul(term, r), RI(k)) IN ExpT(r, k + 1, t, FAdd(acc, t))

\* exp(x) = 2^k exp(r), |r| <= ln(2) / 2, |x| < 2^20
Exp(x) ==
    LET k == RFloor(RAdd(RDiv(x, Ln2), <<1, 2>>))[1]
        r == FDiv(RSub(x, RMul(RI(k), Ln2)), RI(4))
        e == ExpT(r, 1, R1, R1)
        e4 == FMul(FMul(e, e), FMul(e, e))
    IN IF k >= 0 THEN FMul(e4, RPowN(RI(2), k)) ELSE FDiv(e4, RPowN(RI(2), -k))

\* the k with 2/3 <= x / 2^k < 4/3
RECURSIVE ScaleOf(_, _)
ScaleOf(x, k) ==
    IF RLe(<<4096, 3>>, x) THEN ScaleOf(RDiv(x, RI(1024)), k + 10)
    ELSE IF RLe(<<4, 3>>, x) THEN ScaleOf(RDiv(x, RI(2)), k + 1)
    ELSE IF RLt(x, <<2, 3072>>) THEN ScaleOf(RMul(x, RI(1024)), k - 10)
    ELSE IF RLt(x, <<2, 3>>) THEN ScaleOf(RMul(x, RI(2)), k - 1)
    ELSE k

\* natural logarithm, x > 0
Ln(x) ==
    LET k == ScaleOf(x, 0)
        m == IF k >= 0 THEN RDiv(x, RPowN(RI(2), k)) ELSE RMul(x, RPowN(RI(2), -k))
        z == FDiv(RSub(m, R1), RAdd(m, R1))
    IN FAdd(RMul(RI(k), Ln2), TwoAtanh(z, 22))

Log10(x) == FDiv(Ln(x), Ln(RI(10)))

\* a^b for a >= 0 (a^b for any a when b is a natural number); 0^0 = 1
Pow(a, b) ==
    IF b[2] = 1 /\ RSign(b) >= 0 /\ RLt(b, RI(200)) THEN FF(RPowN(a, b[1]))
    ELSE IF RIsZero(a) THEN R0
    ELSE Exp(FMul(b, Ln(a)))

Sqrt(a) == IF RIsZero(a) THEN R0 ELSE Exp(RDiv(Ln(a), RI(2)))

Tanh(x) == LET e == Exp(RMul(RI(2), x)) IN FDiv(RSub(e, R1), RAdd(e, R1))
==============================================================================
