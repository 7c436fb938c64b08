------------------------------- MODULE Solvable -------------------------------
(* One backward-Euler step of  x' = a x^2 + e,  from x0 with step h:          *)
(*       d = h (a (x0 + d)^2 + e),                                            *)
(* a quadratic in d whose discriminant decides whether any solution exists.   *)
(* An integration that meets an unsolvable step cannot succeed silently.      *)
EXTENDS Rat, Rnd, Emit

CONSTANTS Seed, Cases
VARIABLES c, x, k, status
vars == <<c, x, k, status>>

A(j) == RMk(Draw(Seed, c, 1, 1, 4), 2)
E(j) == RMk(Draw(Seed, c, 10 + j, -2, 6), 2)
NB == Draw(Seed, c, 2, 1, 3)
NT == Draw(Seed, c, 3, 1, 4)
H(j) == RMk(Draw(Seed, c, 20 + j, 1, 4), 8)
X0(j) == RMk(Draw(Seed, c, 30 + j, -4, 4), 8)

\* in u = x0 + d:  h a u^2 - u + (x0 + h e) = 0
Disc(j, h, xx) == RSub(R1, RMul(RI(4), RMul(RMul(h, A(j)), RAdd(xx, RMul(h, E(j))))))

\* an interval that surely holds the root nearest x0 is not needed: only whether
\* the first step has a solution, with a margin, in each member
Init == /\ c \in Cases /\ x = 0 /\ k = 0 /\ status = "new"

FirstStep(j) == Disc(j, H(j), X0(j))
Unsolvable == \E j \in 1..NB : RLt(FirstStep(j), <<-1, 8>>)
Call ==
    /\ status = "new"
    /\ status' = IF Unsolvable THEN "must-report" ELSE "open"
    /\ Emit([c |-> c, verdict |-> status', a |-> A(1), nb |-> NB, nt |-> NT,
             e |-> [j \in 1..NB |-> E(j)], h |-> [j \in 1..NB |-> H(j)], x0 |-> [j \in 1..NB |-> X0(j)]])
    /\ UNCHANGED <<c, x, k>>
Next == Call
Spec == Init /\ [][Next]_vars
\* the discriminant is negative where the step is called unsolvable: no rational
\* (indeed no real) u is a root; checked on a grid of candidate points
NoRoot == status = "must-report" =>
    \E j \in 1..NB : \A u \in -40..40 :
        LET q == RMk(u, 8) IN RSign(RAdd(RSub(RMul(RMul(H(j), A(j)), RMul(q, q)), q), RAdd(X0(j), RMul(H(j), E(j))))) > 0
==============================================================================
