-------------------------------- MODULE DataSet --------------------------------
(* A stored collection of experiments, and what loading it gives: experiment  *)
(* by experiment, the driving history (strain or stress, by its control), the *)
(* response (the other one), and integer codes for its type and control.      *)
EXTENDS Rat, Rnd, Emit, Force

CONSTANTS Seed, Cases

VARIABLES c, store, k, data, results, cycles, types, control
vars == <<c, store, k, data, results, cycles, types, control>>

D(i, lo, hi) == Draw(Seed, c, i, lo, hi)
Types == <<"tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data">>
Code(t) == (CHOOSE i \in 1..Len(Types) : Types[i] = t) - 1
NT == D(1, 1, 6)
NE == D(2, 1, 6)

\* labels: few cycles, or very many
Top == Pick(Seed, c, 5, <<3, 3, 200, 60000, 120>>)
Unit == IF Top = 120 THEN 16777217 ELSE 1
\* times, temperatures, strains, stresses: some are stored as integers
Whole(q) == D(6, 0, 2) = 0 /\ D(6 + q, 0, 1) = 0
Row(b, q) == [j \in 1..NT |-> RMk(D(5000 * q + 100 * b + j, -400, 400), IF Whole(q) THEN 1 ELSE 32)]
Init == /\ c \in Cases /\ store = <<>> /\ k = 0 /\ data = <<>> /\ results = <<>>
        /\ cycles = <<>> /\ types = <<>> /\ control = <<>>
Save == /\ k = 0
        /\ store' = Force([b \in 1..NE |->
              [time |-> Row(b, 1), temperature |-> Row(b, 2), strain |-> Row(b, 3), stress |-> Row(b, 4),
               cycle |-> [j \in 1..NT |-> Unit * D(700 * b + j, IF D(700 * b, 0, 5) = 0 THEN -Top ELSE 0, Top)], type |-> Types[1 + D(20 + b, 0, 6)],
               \* all alike, or mixed
               control |-> IF D(3, 0, 2) = 0 THEN (IF D(4, 0, 1) = 0 THEN "strain" ELSE "stress")
                           ELSE (IF D(40 + b, 0, 1) = 0 THEN "strain" ELSE "stress")]])
        /\ k' = 1 /\ UNCHANGED <<c, data, results, cycles, types, control>>
Load == /\ k >= 1 /\ k <= NE
        /\ LET e == store[k] strained == e.control = "strain"
           IN /\ data' = Append(data, <<e.time, e.temperature, IF strained THEN e.strain ELSE e.stress>>)
              /\ results' = Append(results, IF strained THEN e.stress ELSE e.strain)
              /\ cycles' = Append(cycles, e.cycle)
              /\ types' = Append(types, Code(e.type))
              /\ control' = Append(control, IF strained THEN 0 ELSE 1)
        /\ k' = k + 1 /\ UNCHANGED <<c, store>>
Done == /\ k = NE + 1
        /\ Emit([c |-> c, nt |-> NT, whole |-> [q \in 1..4 |-> Whole(q)], store |-> store, data |-> data, results |-> results, cycles |-> cycles,
                 types |-> types, control |-> control])
        /\ k' = k + 1 /\ UNCHANGED <<c, store, data, results, cycles, types, control>>
Next == Save \/ Load \/ Done
Spec == Init /\ [][Next]_vars

\* nothing is lost: strain and stress of every experiment can be recovered
Faithful == k >= 2 /\ k <= NE + 1 =>
    LET b == k - 1 e == store[b]
    IN /\ (control[b] = 0) => (data[b][3] = e.strain /\ results[b] = e.stress)
       /\ (control[b] = 1) => (data[b][3] = e.stress /\ results[b] = e.strain)
       /\ data[b][1] = e.time /\ data[b][2] = e.temperature /\ cycles[b] = e.cycle
       /\ Types[types[b] + 1] = e.type
Once == k >= 1 /\ k <= NE + 1 => /\ Len(data) = k - 1 /\ Len(results) = k - 1 /\ Len(cycles) = k - 1
                                 /\ Len(types) = k - 1 /\ Len(control) = k - 1
==============================================================================
