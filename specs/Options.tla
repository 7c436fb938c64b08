------------------------------- MODULE Options -------------------------------
(* The option space of the integrators.  Options select an algorithm, never a *)
(* result: the meaning of a call (Integrator.tla) has none of them as input.  *)
(* A call is accepted iff every option has a known value; guess strategies    *)
(* are only looked at when there is a step to take.                           *)
EXTENDS Integers, Sequences, Emit

CONSTANTS MaxBlock, MinSizes

Lin == {"direct", "dense"}
Dir == {"thomas", "pcr", "hybrid"}
Guess == {"zero", "previous"}
Entry == {"odeint", "odeint_adjoint"}
Method == {"backward-euler", "forward-euler"}

VARIABLES entry, method, lin, dir, min, guess, block, verdict
vars == <<entry, method, lin, dir, min, guess, block, verdict>>

Valid == method \in Method /\ lin \in Lin /\ dir \in Dir /\ guess \in Guess

\* all valid combinations, and every combination with exactly one bad value
Init ==
    /\ entry \in Entry /\ verdict = "open"
    /\ \/ /\ method \in Method /\ lin \in Lin /\ dir \in Dir /\ guess \in Guess
          /\ block \in 1..MaxBlock
          /\ min \in (IF dir = "hybrid" THEN MinSizes ELSE {0})
       \/ /\ method = "midpoint" /\ lin = "direct" /\ dir = "thomas" /\ guess = "zero"
          /\ block \in {1, 2} /\ min = 0
       \/ /\ method \in Method /\ lin \in {"sparse", "Direct", ""} /\ dir \in Dir /\ guess = "zero"
          /\ block \in {1, 3} /\ min = 0
       \/ /\ method \in Method /\ lin \in Lin /\ dir \in {"cyclic", "PCR", ""} /\ guess = "zero"
          /\ block \in {1, 3} /\ min = 0
       \/ /\ method \in Method /\ lin \in Lin /\ dir \in Dir /\ guess \in {"next", "prev", ""}
          /\ block \in {1, 3} /\ min = 0

Call ==
    /\ verdict = "open"
    /\ verdict' = IF Valid THEN "solved" ELSE "rejected"
    /\ Emit([entry |-> entry, method |-> method, lin |-> lin, dir |-> dir, min |-> min,
             guess |-> guess, block |-> block, verdict |-> verdict'])
    /\ UNCHANGED <<entry, method, lin, dir, min, guess, block>>

Spec == Init /\ [][Call]_vars

\* a solved call had only known values
NoSilentDefault == verdict = "solved" => Valid
RejectsOnlyUnknown == verdict = "rejected" => ~Valid
==============================================================================
