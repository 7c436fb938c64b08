------------------------------- MODULE TraceSim -------------------------------
(* Validation of recorded simulations: a file holds histories returned by the *)
(* code (exact values of its floating point numbers), and each is checked to  *)
(* be a behaviour of the step relation of MaterialStep, one step at a time.   *)
(* A history is a record: law, member, times, temperatures, strains, states.  *)
EXTENDS MaterialStep, Json, Emit, TLC

CONSTANTS TraceFile

Traces == ndJsonDeserialize(TraceFile)

VARIABLES i, k, ok, tr
vars == <<i, k, ok, tr>>

Init == i \in 1..Len(Traces) /\ k = 0 /\ ok = TRUE /\ tr = <<>>
\* histories start from rest
FromRest(h) == /\ Len(h.x) = Len(h.t) /\ Len(h.y) = Len(h.t) /\ Len(h.T) = Len(h.t)
               /\ \A n \in 1..Len(h.y[1]) : RIsZero(h.y[1][n])
               /\ RIsZero(h.x[1])
Load == k = 0 /\ tr' = Traces[i] /\ ok' = FromRest(Traces[i]) /\ k' = 1 /\ UNCHANGED i

DT(j) == RSub(tr.t[j + 1], tr.t[j])

\* the tolerance covers the convergence tolerances of the code's solvers: the
\* inner iteration for the strain rate is relative to the residual at rate zero
Tol(j) ==
    LET s == StepScale(tr.law, tr.m, tr.T[j + 1], DT(j), tr.x[j], tr.y[j], tr.x[j + 1], tr.y[j + 1])
        r == Model(tr.law, tr.m, tr.T[j + 1], Force([n \in 1..Len(tr.y[1]) |-> DC(tr.y[j + 1][n])]), DC(R0))
    IN IF RateFree(tr.law.flow) THEN FMul(RMk(1, 10^6), s)
       ELSE FMul(RMk(1, 10^5), RAdd(s, FMul(DT(j), RAbs(DVal(r[1])))))

Holds(j) == RLe(VMaxAbs(Residual(tr.law, tr.m, tr.T[j + 1], DT(j), tr.x[j], tr.y[j], tr.x[j + 1], tr.y[j + 1])),
                Tol(j))

\* a step of the recorded history is a step of the specification ...
Step == /\ k >= 1 /\ k < Len(tr.t) /\ ok
        /\ Holds(k)
        /\ k' = k + 1 /\ UNCHANGED <<i, ok, tr>>
\* ... or the history is rejected at this point
Reject == /\ k >= 1 /\ k < Len(tr.t) /\ ok
          /\ ~Holds(k)
          /\ ok' = FALSE /\ UNCHANGED <<i, k, tr>>
Verdict == /\ k >= 1 /\ (k = Len(tr.t) \/ ~ok)
           /\ Emit([i |-> i, ok |-> ok, k |-> k])
           /\ k' = -1 /\ UNCHANGED <<i, ok, tr>>
Next == Load \/ Step \/ Reject \/ Verdict
Spec == Init /\ [][Next]_vars
==============================================================================
