----------------------------- MODULE TraceTangent -----------------------------
(* Validation of the gradients of recorded simulations.  A trace is a history *)
(* of one test (as in TraceSim) with its derivative when every coefficient of *)
(* the material moves in the direction SensDir: zx of the strains and zy of   *)
(* the states.  Whatever was prescribed, strain or stress, the step relation  *)
(* Residual = 0 holds along the motion, so its derivative vanishes:           *)
(*   d/dh Residual(law + h dir, x0 + h zx0, y0 + h zy0, x1 + h zx1, ...) = 0  *)
EXTENDS MaterialStep, Json, Emit, TLC

CONSTANTS TraceFile

Traces == ndJsonDeserialize(TraceFile)

VARIABLES i, k, ok, smooth, tr
vars == <<i, k, ok, smooth, tr>>

Init == i \in 1..Len(Traces) /\ k = 0 /\ ok = TRUE /\ smooth = 0 /\ tr = <<>>
\* nothing moves at the start
AtRest == RMk(1, 10^9)
FromRest(h) == RLe(RAbs(h.zx[1]), AtRest) /\ \A n \in 1..Len(h.zy[1]) : RLe(RAbs(h.zy[1][n]), AtRest)
Load == k = 0 /\ tr' = Traces[i] /\ ok' = FromRest(Traces[i]) /\ k' = 1 /\ UNCHANGED <<i, smooth>>

DT(j) == RSub(tr.t[j + 1], tr.t[j])
Along(v, d, h) == FAdd(v, FMul(h, d))
VAlong(v, d, h) == Force([n \in 1..Len(v) |-> Along(v[n], d[n], h)])
None(v) == Force([n \in 1..Len(v) |-> R0])
Only(v, n) == Force([q \in 1..Len(v) |-> IF q = n THEN v[q] ELSE R0])

\* difference quotient of the residual of step j, in a direction
Quotient(j, h, mp, mm, dx0, dy0, dx1, dy1) ==
    LET f(m, s) == Residual(tr.law, m, tr.T[j + 1], DT(j), Along(tr.x[j], dx0, s), VAlong(tr.y[j], dy0, s),
                            Along(tr.x[j + 1], dx1, s), VAlong(tr.y[j + 1], dy1, s))
        up == f(mp, h) dn == f(mm, RNeg(h))
    IN Force([n \in 1..Len(up) |-> FDiv(FSub(up[n], dn[n]), RMul(RI(2), h))])

All(j) == Quotient(j, SensStep, 1000 + tr.m, 2000 + tr.m, tr.zx[j], tr.zy[j], tr.zx[j + 1], tr.zy[j + 1])
\* the same with a step 1024 times larger in the states only, and none in them
Big == RMul(RI(1024), SensStep)
Wide(j) == Quotient(j, Big, tr.m, tr.m, tr.zx[j], tr.zy[j], tr.zx[j + 1], tr.zy[j + 1])
Slim(j) == Quotient(j, SensStep, tr.m, tr.m, tr.zx[j], tr.zy[j], tr.zx[j + 1], tr.zy[j + 1])
Fixed(j) == Quotient(j, SensStep, 1000 + tr.m, 2000 + tr.m, R0, None(tr.y[j]), R0, None(tr.y[j]))

\* the terms of the derivative, by size
Terms(j) ==
    LET n == Len(tr.y[1])
        none == None(tr.y[j])
        c(q) == Quotient(j, SensStep, tr.m, tr.m, R0, none, R0, Only(tr.zy[j + 1], q))
        strain == Quotient(j, SensStep, tr.m, tr.m, tr.zx[j], none, tr.zx[j + 1], none)
        fixed == Fixed(j)
        cols == Force([q \in 1..n |-> c(q)])
        row(p) == LET RECURSIVE Sum(_)
                      Sum(q) == IF q = 0 THEN FAdd(RAbs(fixed[p]), FAdd(RAbs(strain[p]), RAbs(tr.zy[j][p])))
                                ELSE FAdd(RAbs(cols[q][p]), Sum(q - 1))
                  IN Sum(n)
    IN Force([p \in 1..n |-> row(p)])

\* Steps where the difference quotient depends on the length of the difference
\* (at a yield surface or a switch, at a zero of a power) are not judged
Rel == RMk(1, 10^6)
Small(v, terms, rel) ==
    LET top == RMax(VMaxAbs(terms), RMk(1, 10^6))
    IN \A n \in 1..Len(v) : RLe(RAbs(v[n]), RMax(FMul(rel, terms[n]), FMul(RMk(1, 10^9), top)))
Smooth(j) == LET t == Terms(j) IN Small(VSub(Wide(j), Slim(j)), t, FMul(Rel, <<1, 4>>))

\* rate-dependent flows: the inner iteration for the strain rate converges to
\* a looser tolerance
Tol == IF RateFree(tr.law.flow) THEN FMul(RI(20), Rel) ELSE RMk(1, 10^3)
Holds(j) == Small(All(j), Terms(j), Tol)

Step == /\ k >= 1 /\ k < Len(tr.t) /\ ok
        /\ IF Smooth(k) THEN Holds(k) /\ smooth' = smooth + 1 ELSE smooth' = smooth
        /\ k' = k + 1 /\ UNCHANGED <<i, ok, tr>>
Reject == /\ k >= 1 /\ k < Len(tr.t) /\ ok
          /\ Smooth(k) /\ ~Holds(k)
          /\ ok' = FALSE /\ UNCHANGED <<i, k, smooth, tr>>
Verdict == /\ k >= 1 /\ (k = Len(tr.t) \/ ~ok)
           /\ Emit([i |-> i, ok |-> ok, k |-> k, smooth |-> smooth,
                    why |-> IF ok \/ ~FromRest(tr) THEN <<>> ELSE [all |-> All(k), terms |-> Terms(k)]])
           /\ k' = -1 /\ UNCHANGED <<i, ok, smooth, tr>>
Next == Load \/ Step \/ Reject \/ Verdict
Spec == Init /\ [][Next]_vars
==============================================================================
