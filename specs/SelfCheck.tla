------------------------------ MODULE SelfCheck ------------------------------
(* Values computed by Rat, RealFn and Mat.  harness/selfcheck.py evaluates    *)
(* this with TLC from the TLA+ definitions and again through the Java module  *)
(* overrides, and compares; also with Python's own arithmetic.                *)
EXTENDS Dual, Rnd, Emit

CONSTANTS Part      \* "rat" (32-bit values only) or "real" or "dual"

VARIABLES c, done
vars == <<c, done>>

Q(i, m) == RMk(Draw(7, c, i, -m, m), Draw(7, c, i + 50, 1, m))
QP(i, m) == RMk(Draw(7, c, i, 1, m), Draw(7, c, i + 50, 1, m))

RatPart ==
    LET a == Q(1, 60)
        b == Q(2, 60)
        z == Draw(7, c, 9, 0, 3)
    IN [a |-> a, b |-> b, add |-> RAdd(a, b), sub |-> RSub(a, b), mul |-> RMul(a, b),
        div |-> IF RIsZero(b) THEN R0 ELSE RDiv(a, b), neg |-> RNeg(a), lt |-> RLt(a, b),
        le |-> RLe(a, b), eq |-> REq(a, b), eqself |-> REq(a, RDiv(RMul(a, <<7, 3>>), <<7, 3>>)),
        sign |-> RSign(a), pow |-> RPowN(a, z), z |-> z, floor |-> RFloor(a), trunc |-> RTrunc(a, 4),
        abs |-> RAbs(a), max |-> RMax(a, b), min |-> RMin(a, b)]

RealPart ==
    LET x == Q(1, 200)
        p == QP(2, 400)
        e == Q(3, 30)
        A == Force([i \in 1..3 |-> [j \in 1..3 |->
                 RAdd(Q(10 + 3 * i + j, 9), IF i = j THEN RI(20) ELSE R0)]])
        B == Force([i \in 1..3 |-> [j \in 1..2 |-> Q(200 + 3 * i + j, 9)]])
        v == Force([i \in 1..3 |-> Q(230 + i, 9)])
    IN [x |-> x, p |-> p, e |-> e, A |-> A, B |-> B, v |-> v,
        exp |-> Exp(RDiv(x, RI(3))), ln |-> Ln(p), pow |-> Pow(p, RDiv(e, RI(5))), sqrt |-> Sqrt(p),
        tanh |-> Tanh(RDiv(x, RI(20))), log10 |-> Log10(p),
        fadd |-> FAdd(x, p), fsub |-> FSub(x, p), fmul |-> FMul(x, p), fdiv |-> FDiv(x, p),
        solve |-> MSolve(A, B), vsolve |-> VSolve(A, v), mv |-> MVec(A, v), mm |-> MMul(A, B),
        mt |-> MT(B), ms |-> MSub(A, MScale(RI(2), MId(3))), ma |-> MAdd(B, B), dot |-> VDot(v, v),
        va |-> VAdd(v, v), vs |-> VSub(v, VScale(p, v)), vm |-> VMaxAbs(v), vt |-> VSum(v)]

\* every operation on duals with respect to two seeds, and a central difference
\* quotient of its value next to its derivative (smooth points only)
H == <<1, 1048576>>
DualOps(x, y, e) ==
    [add |-> DAdd(x, y), sub |-> DSub(x, y), mul |-> DMul(x, y), div |-> DDiv(x, y), neg |-> DNeg(x),
     exp |-> DExp(x), ln |-> DLn(DAbs(y)), tanh |-> DTanh(x), abs |-> DAbs(y), pow |-> DPow(DAbs(y), e),
     spow |-> DSPow(y, RAdd(e, R1)), mpow |-> DMPow(y, e), sum |-> DSum(<<x, y, DMul(x, x)>>), scale |-> DScale(e, x),
     nest |-> DTanh(DDiv(DMul(x, DExp(DNeg(DMul(x, x)))), DAdd(DC(R1), DMul(y, y))))]
DualPart ==
    LET x == RDiv(Q(1, 20), RI(4))
        y == RAdd(QP(2, 20), <<1, 3>>)
        sy == IF Draw(7, c, 77, 0, 1) = 0 THEN y ELSE RNeg(y)
        e == RAdd(RI(1), RDiv(QP(3, 9), RI(4)))
        d == DualOps(DSeed(x, 1, 2), DSeed(sy, 2, 2), e)
        k(a, b) == DualOps(DC(a), DC(b), e)
        xp == k(RAdd(x, H), sy)  xm == k(RSub(x, H), sy)
        yp == k(x, RAdd(sy, H))  ym == k(x, RSub(sy, H))
        Quot(p, m) == FDiv(FSub(p, m), RMul(<<2, 1>>, H))
        names == DOMAIN d
    IN [v |-> d, zero |-> [p |-> DPow(DSeed(R0, 1, 2), e), m |-> DMPow(DSeed(R0, 1, 2), e), s |-> DSPow(DSeed(R0, 1, 2), e),
                           a |-> DAbs(DSeed(R0, 1, 2)), n |-> DMPow(DSeed(RI(-1), 2, 2), e)],
        quot |-> [n \in names |-> <<Quot(DVal(xp[n]), DVal(xm[n])), DD(d[n], 1)>>] ,
        quoty |-> [n \in names |-> <<Quot(DVal(yp[n]), DVal(ym[n])), DD(d[n], 2)>>]]

Init == c \in 1..40 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ Emit([c |-> c, v |-> Force(IF Part = "rat" THEN RatPart ELSE IF Part = "real" THEN RealPart ELSE DualPart)])
Spec == Init /\ [][Next]_vars
==============================================================================
