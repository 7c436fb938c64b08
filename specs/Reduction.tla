------------------------------ MODULE Reduction -------------------------------
(* Reduction of full histories to the results that are compared with data.    *)
(* A batch of experiments of mixed types is reduced one experiment after the  *)
(* other, each from its own history and its own cycle labels.                 *)
EXTENDS ReduceOps, Rnd, Emit, Force, FiniteSets

CONSTANTS Seed, Cases

VARIABLES c, exps, k, out
vars == <<c, exps, k, out>>

D(i, lo, hi) == Draw(Seed, c, i, lo, hi)
NT == D(1, 1, 9)
NE == D(2, 1, 7)
\* one type only, two types, or any
TypeOf(b) == LET m == D(3, 0, 3)
             IN IF m = 0 THEN Types[1 + D(4, 0, 6)]
                ELSE IF m = 1 THEN Types[1 + D(4 + (D(20 + b, 0, 1)), 0, 6)]
                ELSE Types[1 + D(20 + b, 0, 6)]

RECURSIVE Labels(_, _, _)
\* labels of cycles: each point begins a new cycle or not
Labels(i, j, acc) == IF j > NT THEN acc
                     ELSE Labels(i, j + 1, Append(acc, acc[Len(acc)] + (IF D(i + j, 0, 2) = 0 THEN 1 ELSE 0)))
\* number of points labelled 0, and labelled 1 after that
CycOf(t, b) ==
    LET i == 100 * b
        n0 == D(i + 1, 0, NT - 1)
        n1 == D(i + 2, 1, NT)
    IN CASE t \in {"strain_cyclic", "stress_cyclic"} -> Labels(i + 3, 2, <<0>>)
         [] t \in {"relaxation", "creep"} -> [j \in 1..NT |-> IF j <= n0 THEN 0 ELSE 1]
         [] t = "abstract_tensile" -> [j \in 1..NT |-> IF j <= n0 THEN 0 ELSE IF j <= n0 + n1 THEN 1 ELSE 2]
         [] OTHER -> [j \in 1..NT |-> 0]
\* histories: anything, never positive, constant, or with repeated values
ValOf(b, j) == LET m == D(50 + b, 0, 4)
                   v == RMk(D(1000 * b + 7 * j, -200, 200), 16)
               IN IF m = 0 THEN RNeg(RAdd(RAbs(v), R1)) ELSE IF m = 1 THEN RI(D(50 + b, -3, 3))
                  ELSE IF m = 2 THEN RI(D(1000 * b + 7 * j, -2, 2)) ELSE v

Init == c \in Cases /\ exps = <<>> /\ k = 0 /\ out = <<>>
Setup == /\ k = 0
         /\ exps' = Force([b \in 1..NE |-> [type |-> TypeOf(b), cyc |-> CycOf(TypeOf(b), b),
                                            val |-> [j \in 1..NT |-> ValOf(b, j)]]])
         /\ k' = 1 /\ UNCHANGED <<c, out>>

Reduce == /\ k >= 1 /\ k <= NE
          /\ out' = Append(out, Force(Reduced(exps[k])))
          /\ k' = k + 1 /\ UNCHANGED <<c, exps>>
Done == /\ k = NE + 1
        /\ Emit([c |-> c, nt |-> NT, exps |-> [b \in 1..NE |->
                    [type |-> exps[b].type, code |-> Code(exps[b].type), cyc |-> exps[b].cyc, val |-> exps[b].val]],
                 out |-> out])
        /\ k' = NE + 2 /\ UNCHANGED <<c, exps, out>>
Next == Setup \/ Reduce \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Ready == k > 1 /\ k <= NE + 1
Ex == exps[k - 1]
Got == out[k - 1]
IsCyclic == Ex.type \in {"strain_cyclic", "stress_cyclic"}
IsHold == Ex.type \in {"relaxation", "creep"}
\* an envelope: constant over each cycle, nowhere below the history, touching it
Envelope == (Ready /\ IsCyclic) =>
    /\ \A j \in 1..NT : RLe(Ex.val[j], Got[j])
    /\ \A i, j \in 1..NT : Ex.cyc[i] = Ex.cyc[j] => REq(Got[i], Got[j])
    /\ \A i \in 1..NT : \E j \in 1..NT : Ex.cyc[j] = Ex.cyc[i] /\ REq(Got[i], Ex.val[j])
\* differences within the hold are those of the history, and it starts at zero
Relative == (Ready /\ IsHold) =>
    /\ \A i, j \in 1..NT : (Ex.cyc[i] = 1 /\ Ex.cyc[j] = 1) =>
         REq(RSub(Got[i], Got[j]), RSub(Ex.val[i], Ex.val[j]))
    /\ \A j \in 1..NT : (Ex.cyc[j] = 0 \/ (Ex.cyc[j] = 1 /\ (j = 1 \/ Ex.cyc[j - 1] = 0))) => RIsZero(Got[j])
Unchanged == (Ready /\ Ex.type \in {"tensile", "direct_data"}) => \A j \in 1..NT : REq(Got[j], Ex.val[j])
Strengths == (Ready /\ Ex.type = "abstract_tensile") =>
    \A i, j \in 1..NT : (Ex.cyc[i] = 1 /\ Ex.cyc[j] = 2) => RLe(Got[i], Got[j])
==============================================================================
