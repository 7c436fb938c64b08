------------------------------- MODULE ReduceOps -------------------------------
(* What a full history is reduced to, by the type of its experiment.  An      *)
(* experiment is a record with a type, cycle labels and values.               *)
EXTENDS Rat

Types == <<"tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data">>
Code(t) == (CHOOSE i \in 1..Len(Types) : Types[i] = t) - 1

RECURSIVE MaxOf(_)
MaxOf(q) == IF Len(q) = 1 THEN q[1] ELSE RMax(q[1], MaxOf(Tail(q)))
Sel(e, n) == LET q == SelectSeq([j \in 1..Len(e.val) |-> <<e.cyc[j], e.val[j]>>], LAMBDA p : p[1] = n)
             IN [j \in 1..Len(q) |-> q[j][2]]           \* values of the points labelled n

Reduced(e) ==
    CASE e.type \in {"tensile", "direct_data"} -> e.val
      [] e.type \in {"relaxation", "creep"} ->
            \* the loading is dropped, the hold is relative to its own start
            [j \in 1..Len(e.val) |-> IF e.cyc[j] = 1 THEN RSub(e.val[j], Sel(e, 1)[1]) ELSE R0]
      [] e.type \in {"strain_cyclic", "stress_cyclic"} ->
            [j \in 1..Len(e.val) |-> MaxOf(Sel(e, e.cyc[j]))]
      [] e.type = "abstract_tensile" ->
            \* nothing, then the value at yield, then the largest value of the test
            [j \in 1..Len(e.val) |-> CASE e.cyc[j] = 0 -> R0
                               [] e.cyc[j] = 1 -> Sel(e, 1)[1]
                               [] e.cyc[j] = 2 -> MaxOf(e.val)]
==============================================================================
