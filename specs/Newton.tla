-------------------------------- MODULE Newton --------------------------------
(* The Newton loop of the nonlinear solvers, over an environment that decides *)
(* what the residual does.  Each batch member m walks along a line: a full    *)
(* Newton step moves it from position p to p + 1, where its residual has size *)
(* res[m][p].  Sizes are powers of two 2^e written as the integer e; ZERO is  *)
(* a zero residual (where a Newton step does not move), INF and NAN are       *)
(* non-finite ones (from where a step leads to LOST, where the residual is    *)
(* undefined).  Positions beyond the table keep the last size.                *)
(*                                                                            *)
(* The solver sees sizes only.  It may return silently iff every member is    *)
(* within the absolute tolerance or every member is within the relative one.  *)
EXTENDS Integers, Sequences, FiniteSets, Rnd, Emit

CONSTANTS Mode,      \* "all": every table over Levels; "draw": Cases drawn ones
          M, P,      \* members, last position of the table
          Levels, Miters, AtolE, RtolE, Seed, Cases, MaxM, MaxP

ZERO == 1000
INF == 2000
NAN == 3000
LOST == 99
ASSUME \A l \in Levels : l < ZERO \/ l \in {ZERO, INF, NAN}

VARIABLES c, res, miter, pos, i, status
vars == <<c, res, miter, pos, i, status>>

Members == 1..Len(res)
Table(m, p) == IF p = LOST THEN NAN
               ELSE res[m][IF p >= Len(res[m]) THEN Len(res[m]) ELSE p + 1]
Size(m) == Table(m, pos[m])
First(m) == Table(m, 0)

Finite(s) == s # INF /\ s # NAN
WithinAbs(s) == s = ZERO \/ (Finite(s) /\ s <= AtolE)
\* size / first <= rtol: nothing is relative to an undefined or infinite start,
\* and only zero is within any fraction of zero
WithinRel(s, f) == Finite(s) /\ Finite(f) /\ (s = ZERO \/ (f # ZERO /\ s - f <= RtolE))
Acceptable == \/ \A m \in Members : WithinAbs(Size(m))
              \/ \A m \in Members : WithinRel(Size(m), First(m))
Lost == \E m \in Members : ~Finite(Size(m))

LevelSeq == <<AtolE - 3, AtolE, AtolE + 1, 0, 3, ZERO, 6, RtolE, 1, RtolE + 3, -1, INF, NAN, RtolE - 1>>
Drawn(k) ==
    LET nm == Draw(Seed, k, 1, 1, MaxM)
        np == Draw(Seed, k, 2, 1, MaxP)
        \* mostly finite, mostly decreasing
        lvl(m, p) == IF Draw(Seed, k, 10 * m + p, 0, 9) < 5 THEN 3 - 2 * p - Draw(Seed, k, 300 + 10 * m + p, 0, 3)
                     ELSE Pick(Seed, k, 100 + 10 * m + p, LevelSeq)
    IN [m \in 1..nm |-> [p \in 1..np |-> lvl(m, p - 1)]]

Init ==
    /\ \/ Mode = "all" /\ c = 0 /\ res \in [1..M -> [1..(P + 1) -> Levels]] /\ miter \in Miters
       \/ Mode = "draw" /\ c \in Cases /\ res = Drawn(c) /\ miter \in Miters
    /\ pos = [m \in 1..Len(res) |-> 0] /\ i = 0 /\ status = "solve"

Move(m) == CASE Size(m) = ZERO -> pos[m]
             [] ~Finite(Size(m)) -> LOST
             [] OTHER -> pos[m] + 1

Report(st, p, k) ==
    Emit([c |-> c, res |-> res, miter |-> miter, status |-> st, pos |-> p, iters |-> k, lost |-> Lost])

Iterate ==
    /\ status = "solve" /\ ~Acceptable /\ i < miter
    /\ pos' = [m \in Members |-> Move(m)] /\ i' = i + 1
    /\ UNCHANGED <<c, res, miter, status>>

Return ==
    /\ status = "solve" /\ Acceptable
    /\ status' = "ok" /\ Report("ok", pos, i)
    /\ UNCHANGED <<c, res, miter, pos, i>>

\* warn, or raise when asked to
Fail ==
    /\ status = "solve" /\ ~Acceptable /\ i = miter
    /\ status' = "failed" /\ Report("failed", pos, i)
    /\ UNCHANGED <<c, res, miter, pos, i>>

Next == Iterate \/ Return \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------------
SilentMeansSolved == status = "ok" => Acceptable
NonFiniteFails == Lost => status # "ok"
WithinLimit == i <= miter
FailsOnlyUnsolved == status = "failed" => (~Acceptable /\ i = miter)
Terminates == <>(status # "solve")
==============================================================================
