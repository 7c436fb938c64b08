----------------------------- MODULE MaterialStep -----------------------------
(* One backward Euler step of a material model.  A state is                   *)
(* <<stress, internal variables...[, damage]>> together with the strain x.    *)
(* The same relation  Residual = 0  between two states holds whichever of     *)
(* stress and strain is prescribed: strain control solves it for the stress,  *)
(* stress control for the strain.                                             *)
EXTENDS ConstLaw

\* a step of length zero changes nothing; otherwise the rates are those at the
\* end of the step, with the average strain rate of the step
StepRate(dt, x0, x1) == IF RIsZero(dt) THEN R0 ELSE FDiv(RSub(x1, x0), dt)
Residual(M, m, T, dt, x0, y0, x1, y1) ==
    IF RIsZero(dt) THEN Force([i \in 1..Len(y0) |-> FSub(y1[i], y0[i])])
    ELSE LET r == Model(M, m, T, Force([i \in 1..Len(y1) |-> DC(y1[i])]), DC(StepRate(dt, x0, x1)))
         IN Force([i \in 1..Len(y0) |-> FSub(FSub(y1[i], y0[i]), FMul(dt, DVal(r[i])))])

\* magnitude of the terms of the relation
StepScale(M, m, T, dt, x0, y0, x1, y1) ==
    LET E == TPVal(M.E, m, T)
    IN RMax(R1, RMax(FMul(E, RAbs(RSub(x1, x0))), RMax(VMaxAbs(y0), VMaxAbs(y1))))

Tiny == RMk(1, 2^30)            \* squared below
Zeroish(r, s) == RLe(VMaxAbs(r), FMul(FMul(Tiny, Tiny), s))     \* 1e-18

--------------------------------------------------------------------------------
(* Newton's method from the previous state.  Returns [ok, y].                 *)
\* outside the states a model is meant for
Bad(M, y) == RLt(RI(1000000), VMaxAbs(y)) \/ (M.kind = "damaged" /\ RLt(<<9, 10>>, y[Len(y)]))

RECURSIVE StrainNewton(_, _, _, _, _, _, _, _)
StrainNewton(M, m, T, dt, e, y0, y, it) ==
    IF it = 0 \/ Bad(M, y) THEN [ok |-> FALSE, y |-> y] ELSE
    LET a == ModelAt(M, m, T, y, e)
        n == Len(y)
        res == Force([i \in 1..n |-> FSub(FSub(y[i], y0[i]), FMul(dt, a.rate[i]))])
    IN IF Zeroish(res, RMax(R1, RMax(FMul(dt, RAbs(FMul(TPVal(M.E, m, T), e))), VMaxAbs(y)))) THEN [ok |-> TRUE, y |-> y]
       ELSE LET K == Force([i \in 1..n |-> [j \in 1..n |->
                        FSub(IF i = j THEN R1 ELSE R0, FMul(dt, a.jac[i][j]))]])
            IN StrainNewton(M, m, T, dt, e, y0, VSub(y, VSolve(K, res)), it - 1)

\* strain control: the state after the step to strain x1
StrainStep(M, m, T, dt, x0, y0, x1) ==
    IF RIsZero(dt) THEN [ok |-> TRUE, y |-> y0]
    ELSE StrainNewton(M, m, T, dt, StepRate(dt, x0, x1), y0, y0, 40)

(* Stress control, for models whose flow does not depend on the strain rate:  *)
(* the first rate is then an affine function of the strain rate.              *)
RECURSIVE StressNewton(_, _, _, _, _, _, _, _, _)
StressNewton(M, m, T, dt, s1, sr, h0, h, it) ==
    IF it = 0 \/ Bad(M, <<s1>> \o h) THEN [ok |-> FALSE, e |-> R0, h |-> h] ELSE
    LET a == ModelAt(M, m, T, <<s1>> \o h, R0)
        n == Len(h)
        e == FDiv(FSub(sr, a.rate[1]), a.de[1])
        res == Force([i \in 1..n |-> FSub(FSub(h[i], h0[i]), FMul(dt, a.rate[i + 1]))])
    IN IF Zeroish(res, RMax(R1, VMaxAbs(h))) THEN [ok |-> TRUE, e |-> e, h |-> h]
       ELSE LET K == Force([i \in 1..n |-> [j \in 1..n |->
                        FSub(IF i = j THEN R1 ELSE R0, FMul(dt, a.jac[i + 1][j + 1]))]])
            IN StressNewton(M, m, T, dt, s1, sr, h0, VSub(h, VSolve(K, res)), it - 1)
StressStep(M, m, T, dt, x0, y0, s1) ==
    IF RIsZero(dt) THEN [ok |-> TRUE, x |-> x0, y |-> y0]
    ELSE LET h0 == SubSeq(y0, 2, Len(y0))
             z == StressNewton(M, m, T, dt, s1, FDiv(FSub(s1, y0[1]), dt), h0, h0, 40)
         IN [ok |-> z.ok, x |-> FAdd(x0, FMul(dt, z.e)), y |-> <<s1>> \o z.h]
==============================================================================
